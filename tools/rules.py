"""What each check counts, at which level, and what it assumes."""

COMMON = [
    "rustc, the standard library, tokio 1.35.1 and the other dependencies behave as documented",
    "the harness (transport, codec, scripts, oracles in /verif/harness) is right; it was tried on planted bugs and on reverted fixes",
    "what was not executed is not covered: the verdict is about the executions counted here",
]
SIM = "the simulated transport is a legal AsyncRead/AsyncWrite; real sockets are covered by C24"
VT = "virtual time: tokio's paused clock, which advances only when every task is idle"


def r(rule, level="exploration", assumptions=(), **kw):
    d = {"level": level, "rule": rule, "assumptions": list(assumptions)}
    d.update(kw)
    return d


RULES = {
    "C01": r("A case is one event (random type, texts, payload, chunking, neighbours); distinct by its content and chunking. Trivial cases do not count: every one is encoded, decoded from a chunked reader and compared field by field.",
             configs=["full", "plain"]),
    "C02": r("A case is one frame: written by the library and parsed by the independent codec, written by the codec and read by the library, or invalid by one named rule; distinct by its bytes."),
    "C03": r("A case is one byte string given to the decoder, or one live connection with one hostile input (in the handshake, in packages, between well-formed frames); distinct by the bytes.",
             assumptions=[SIM, "memory is 'in proportion' if below 16 bytes per received byte plus 1 MiB for one decode"]),
    "C04": r("A case is one scenario of concurrent emitters (or of concurrent event creation); distinct by seed-derived content. All ids of a process are compared, over all connections.",
             assumptions=[SIM]),
    "C05": r("A case is one value or byte string in one format; distinct by its bytes. Values of 48 types are encoded and decoded by the library and by independent users of the serde crates.",
             configs=["full", "rmp", "bin", "pst", "jsn", "bpj", "pj"], scale={"full": 1.0, "rmp": 0.3, "bin": 0.3, "pst": 0.3, "jsn": 0.3, "bpj": 0.3, "pj": 0.3},
             assumptions=["what a format can carry is decided by the serde crate of that format, used independently", "memory is 'in proportion' if below 64 bytes per byte plus 8 MiB, as serde preallocates up to 1 MiB per sequence"]),
    "C06": r("A case is one payload value or byte string; distinct by its bytes. Layouts are compared with independently assembled bytes, acceptance with an independent judge.",
             assumptions=["bytes after a complete value are tolerated, as bromine does"]),
    "C07": r("A case is one scenario: a server, client or pool with random handlers, and raw or library peers that send random events; distinct by the bytes sent. Every handler run is logged and matched with the frames sent.",
             assumptions=[SIM, VT]),
    "C08": r("A case is one scenario as in C07; every frame on the wire is compared with the reply sequence that the handler's script says; distinct by the bytes sent.", assumptions=[SIM, VT]),
    "C09": r("A case is one scenario of overlapping requests with replies in random order, at random times, on random connections, mixed with noise; distinct by its script. Every result is compared with the script by a unique token.", assumptions=[SIM, VT]),
    "C10": r("A case is one scenario of concurrent streams; every streamed item is compared in order with what the peer sent; distinct by its script.", assumptions=[SIM, VT]),
    "C11": r("A case is one scenario of failing and panicking handlers; results of callers, error handlers, bystanders and later events are compared; distinct by its script.", assumptions=[SIM, VT]),
    "C12": r("A case is one wait with its timeout and the time of its reply; distinct by the (timeout, reply time, kind) triple. Times are virtual and compared with a tolerance of 4 ms (timer granularity).", assumptions=[SIM, VT]),
    "C13": r("A case is one scenario of concurrent emitters on one connection under a random transport (or on real threads); distinct by its recorded byte stream. The stream is parsed independently and every emit's result is compared with it.", assumptions=[SIM]),
    "C14": r("A case is one break: (transport, direction, byte offset, kind) of a scripted session; offsets of the session's bytes are enumerated one after the other, distinct by that tuple and the outcome.", level="fault_enumeration", assumptions=[SIM, VT]),
    "C15": r("A case is one scenario with a stop at one point of a session; distinct by its script.", assumptions=[SIM, VT, "a stop has taken effect once every task of the client's runtime was idle after it"]),
    "C16": r("A case is one history of acquire, clone and drop on a pool, compared step by step with a model of the counts; distinct by the history.", assumptions=[SIM]),
    "C17": r("A case is one scenario of handlers working on shared data; distinct by its script. The final state is compared with the multiset of acknowledged changes.", assumptions=[SIM]),
    "C18": r("A case is one kind of operation repeated in windows of growing length; live heap bytes per repetition are measured with a counting allocator; distinct by operation mix and seed.", assumptions=[SIM, VT, "a growth below 6 bytes per operation (plus 2000 bytes per measured window) counts as none; a leak is growth in every one of up to six consecutive windows"]),
    "C19": r("A case is one scenario in which operations are dropped after a number of polls; distinct by the recorded byte stream and the drop points.", assumptions=[SIM, VT]),
    "C20": r("A case is one script of writes, flushes, reads and shutdowns on a pair of encrypted streams under a random transport; distinct by script and transport.", configs=["full"], assumptions=[SIM, VT]),
    "C21": r("A case is one recorded encrypted connection; its keystreams (ciphertext xor known plaintext) are compared with all others, and its bytes searched for the plaintext; distinct by the recorded bytes.", configs=["full"],
             assumptions=[SIM, "the ciphers of the chacha20poly1305 and x25519-dalek crates are sound", "known plaintext reaches the packages in the order it was written"]),
    "C22": r("A case is one manipulation of one encrypted connection (kind, direction, position); distinct by that tuple and the traffic. What both sides deliver is compared with what was sent.", configs=["full"], assumptions=[SIM, VT]),
    "C23": r("A case is one combination of secrets, key lists, settings and peer behaviour; distinct by that combination.", configs=["full"], assumptions=[SIM, VT]),
    "C24": r("A case is one run of concurrent clients over real TCP or Unix sockets, or one option value; distinct by its script.", assumptions=["loopback TCP and Unix sockets of this kernel stand for real ones", "wall-clock limits only end a run as hanging after 60 s, twice"], min_distinct=8),
    "C25": r("A case is one scenario of well-behaved and misbehaving clients; distinct by its script.", assumptions=[SIM, VT]),
    "C26": r("A case is one sequence of builder calls; distinct by the sequence. Handlers, options and build results are compared with a model of the builder.", assumptions=[SIM]),
}

# how often the scenarios of a family are run in the quick tier, relative to the counts in the harness
QUICK = {
    "C01": 2, "C02": 2, "C03": 8, "C06": 2, "C07": 1.5, "C08": 1.5, "C09": 2.5, "C10": 2, "C11": 1.5, "C12": 8,
    "C13": 3, "C14": 3, "C16": 5, "C17": 2, "C19": 1.5, "C23": 4, "C26": 1.5,
}

# families that the thorough tier also runs under a sanitizer, and how often
for _p, _k, _f in [
    ("C01", "address", [("roundtrip", 0.2)]),
    ("C02", "address", [("decode", 0.2), ("refuse", 0.2)]),
    ("C03", "address", [("decode_random", 0.2), ("decode_lengths", 0.2), ("live_server", 0.05), ("packages", 0.05)]),
    ("C05", "address", [("values", 0.1), ("malformed", 0.1)]),
    ("C06", "address", [("shapes", 0.2), ("hostile", 0.2)]),
    ("C20", "address", [("duplex", 0.05), ("broken", 0.05)]),
    ("C22", "address", [("packages", 0.02)]),
    ("C04", "thread", [("threads", 1), ("live", 0.02)]),
    ("C13", "thread", [("threads", 0.2)]),
    ("C15", "thread", [("threads", 0.2)]),
    ("C16", "thread", [("threads", 0.2)]),
    ("C17", "thread", [("threads", 0.2)]),
    ("C19", "thread", [("threads", 0.2)]),
    ("C20", "thread", [("threads", 0.2)]),
    ("C24", "thread", [("traffic", 0.1), ("comings", 0.2), ("leaving", 0.1)]),
]:
    RULES[_p].setdefault("sanitize", {})[_k] = _f
