#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single place where the property texts live."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Events survive encoding and decoding unchanged",
  "Encoding any event the API can construct and decoding the bytes, delivered in any chunking and alone or back to back with other events, yields an event with the same id, type (initiator, response, end, error), reference id, namespace, name and payload, and consumes exactly that event's bytes (an empty namespace counts as none). An event whose namespace and name do not fit the format's length fields is refused with an error instead of being encoded wrongly.",
  ["inputs"], "every event type, id, reference id, namespace and name (any Unicode, every length), payload (every length), sequence of events and read chunking",
  "The tests send a handful of short ASCII names and three payload sizes through a transport that keeps frame boundaries; they sample no length boundary, no chunking and no concatenation.",
  ["src/events/event.rs"],
  [("Event::into_bytes / EventHeader::into_bytes", "src/events/event.rs"), ("Event::from_async_read / EventHeader::from_read", "src/events/event.rs")],
  [("EventHeader", "id, type, ref id, namespace, name", "src/events/event.rs")],
  ["Event::into_bytes", "Event::from_async_read", "accessors of Event"])

p("C02", "Frames follow the documented binary layout and compatibility rules",
  "Every frame sent has the specified layout (big-endian 8-byte length of header plus payload, 2-byte header length, 3 version bytes 0.9.0, 8-byte id, type byte, 0xFF/0x00 reference indicator with optional 8-byte reference, then length-prefixed namespace and name, then the payload), and every frame laid out so by an independent implementation is accepted with exactly its field values, including frames with another minor or patch version and with additional bytes at the end of the header. A frame with another major version, an unknown event type, another reference indicator value, text that is not UTF-8, a header too short for its fields or a total length below the header length is refused with an error.",
  ["inputs"], "every conforming frame in both directions, every value of each validated byte, every truncation of the header and every amount of trailing header bytes",
  "Both ends of every test are the same code, so an encoder and a decoder that are wrong in the same way pass; no test feeds hand-made frames, other versions, longer headers or invalid fields.",
  ["src/events/event.rs", "SPECIFICATON.md"],
  [("header serialisation and parsing, version check", "src/events/event.rs"), ("binary layout", "SPECIFICATON.md")],
  [("FORMAT_VERSION", "the version written to and checked in each header", "src/events/event.rs")],
  ["bytes on the wire", "Event::from_async_read"])

p("C03", "Hostile bytes from a peer are contained",
  "Whatever bytes a peer sends, on a plain or an encrypted connection, before or after the handshake, each decode ends in an event or an error: never a panic, an abort, or memory out of proportion to the bytes actually received. On a live connection the well-formed events before the first malformed byte are dispatched, nothing after it is, that connection is closed, and the server keeps serving its other and its new connections.",
  ["inputs", "fault_sequences"], "every byte string (random, structured and mutated frames, extreme length fields) at every point of a connection, against servers and clients",
  "No test sends anything but frames produced by the library itself.",
  ["src/events/event.rs", "src/ipc/mod.rs", "src/ipc/server.rs", "src/protocol/encrypted/mod.rs", "src/protocol/encrypted/io_impl.rs"],
  [("length validation and incremental reads in Event::from_async_read", "src/events/event.rs"), ("read loop ends on the first error", "src/ipc/mod.rs"), ("EncryptedPackage::from_async_read", "src/protocol/encrypted/mod.rs")],
  observe=["decode results", "allocator high-water mark", "handler call log", "peer-side EOF", "panic hook"])

p("C04", "Event ids are unique and consistently reported",
  "No two events created in one process, by any thread on any connection, carry the same id. The id an emit returns is the id of the frame on the wire, the id the receiving handler sees and the id its replies reference.",
  ["schedules", "inputs"], "every interleaving of threads creating events, every number of events in the same millisecond and across millisecond and second boundaries, every kind of emit",
  "Tests create a few hundred events from one thread and never compare ids.",
  ["src/events/mod.rs", "src/ipc/stream_emitter/emit_metadata.rs"],
  [("generate_event_id: time bits plus process-wide atomic counter", "src/events/mod.rs"), ("emit future resolves to the event id", "src/ipc/stream_emitter/emit_metadata.rs")],
  [("COUNTER", "process-wide event counter", "src/events/mod.rs")],
  ["Event::id", "value of an awaited emit", "ids and reference ids of frames on the wire"])

p("C05", "Serde payloads are self-describing and round-trip in every format",
  "With serialization enabled, a value that an enabled format can carry, encoded in it, starts with that format's id byte (0 MessagePack, 1 bincode, 2 postcard, 3 JSON) and decodes to an equal value at any receiver that has the format enabled, whatever the receiver's own default is; plain values are sent in the emitting side's configured default, which without configuration is the first enabled one in the order of the ids. A value that a format cannot carry is refused with an error instead of being sent in another form. An unknown or not enabled format id, and malformed or too deeply nested data in any format, give an error, never a panic, an abort or memory out of proportion to the data.",
  ["inputs", "configurations"], "every serializable value, every format, every set of enabled formats, every pair of defaults at the two ends, every byte string as input to decoding",
  "The tests round-trip the default value of three types per format inside one process, always decode what they encoded, and run in two of the sixteen feature sets.",
  ["src/events/payload_serializer/mod.rs", "src/events/payload.rs", "src/events/payload_serializer/serialize_bincode.rs", "src/ipc/builder.rs", "src/ipc/context.rs"],
  [("DynamicSerializer", "src/events/payload_serializer/mod.rs"), ("SerdePayload", "src/events/payload.rs"), ("default_serializer", "src/ipc/builder.rs")],
  [("default_serializer", "format for plain values emitted through a context", "src/ipc/context.rs")],
  ["payload bytes on the wire", "Event::payload", "SerdePayload::from_payload"])

p("C06", "Byte, tandem and error payloads round-trip and reject malformed input",
  "A byte payload is sent verbatim; a tandem payload of any two (possibly nested) payloads is laid out as two 8-byte-length-prefixed parts that decode independently to equal values, also when one part is empty; an error payload carries its 16-bit code and any message unchanged. Decoding a byte string that is cut short, or whose lengths or text are malformed, into these types gives an error, and no byte string whatever causes a panic, an abort or memory out of proportion to the data (bytes after a complete value are tolerated).",
  ["inputs"], "every pair and nesting of payloads, every size including empty, every code and message, every truncation or corruption of the encoded bytes",
  "Tandem payloads are not tested at all, error payloads only with one message, and no malformed payload is ever decoded.",
  ["src/events/payload.rs", "src/events/error_event.rs"],
  [("TandemPayload / BytePayload conversions", "src/events/payload.rs"), ("ErrorEventData conversions", "src/events/error_event.rs")],
  observe=["IntoPayload / FromPayload through events", "allocator high-water mark"])

p("C07", "Each event runs exactly the handler registered for it, exactly once",
  "Every event received intact that is not consumed as an awaited reply runs the handler registered under its name in its own namespace (or globally when it has none) exactly once and to its end (also when the connection ends meanwhile), with the payload, name, namespace and reference it was sent with; no other handler runs. An event whose name is not registered there, or whose namespace is not registered, runs no handler, not even a global handler of the same name, and an end event never runs one.",
  ["inputs", "schedules", "histories"], "every set of namespaces and handlers, every mix of events in both directions on any number of connections, every interleaving and transport timing, also for replies nobody waits for and replies that arrive after their waiter is gone (a further reply that arrives while the waiter it belongs to is just finishing may count as awaited)",
  "Tests register three names in one namespace, send two or three events one after the other, and never send to unregistered names or namespaces.",
  ["src/ipc/mod.rs", "src/events/event_handler.rs", "src/namespaces/namespace.rs", "SPECIFICATON.md"],
  [("handle_connection dispatch", "src/ipc/mod.rs"), ("EventHandler::handle_event", "src/events/event_handler.rs"), ("behaviour of receiving (namespaced) events", "SPECIFICATON.md")],
  observe=["handler call log keyed by unique tokens", "frames on the wire"])

p("C08", "Every handled event gets exactly one final reply, and emits are replies",
  "For every event whose handler returns, and for every event without a handler, exactly one final event goes back on the same connection, after everything the handler itself sent: an end event carrying the handler's response payload on success (empty if there is no handler), an error event on failure, both referencing the handled event's id. Everything a handler emits through its context meanwhile is a response referencing the handled event's id; emits outside of handlers reference nothing.",
  ["histories", "schedules", "inputs"], "every mix of successful, failing, silent and chatty handlers, concurrent and nested across both directions of many connections",
  "Tests look at one conversation at a time through the client API and never count the frames that go back.",
  ["src/ipc/mod.rs", "src/ipc/context.rs"],
  [("handle_event", "src/ipc/mod.rs"), ("Context::emit with ref id", "src/ipc/context.rs")],
  [("Context.ref_id", "id of the event being handled", "src/ipc/context.rs")],
  ["frames on the wire, both directions"])

p("C09", "An awaited reply is always the reply to that very event",
  "Awaiting the reply to an emitted event yields the first event that references it and arrives on a connection of that client (any connection of the same pool), never a reply to another event, however many requests are outstanding and in whatever order replies come. A reply sent before the timeout is not lost, even if it arrives before the emit call has finished, or if the peer meanwhile uses the same ids for its own events; a connection of another client can never supply it.",
  ["schedules", "histories", "inputs"], "every number of concurrent requests, order, delay and duplication of replies, transport timing, id choice by the peer, plain and pooled clients and requests made by servers and inside handlers",
  "Tests have one or two requests in flight against the library's own server, which answers in order and never reuses ids.",
  ["src/ipc/context.rs", "src/ipc/mod.rs", "src/ipc/stream_emitter/emit_metadata_with_response.rs"],
  [("register_reply_listener before sending", "src/ipc/stream_emitter/emit_metadata_with_response.rs"), ("reply routing by reference id", "src/ipc/mod.rs")],
  [("reply_listeners", "waiting requests by event id", "src/ipc/context.rs")],
  ["result of await_reply", "frames on the wire"])

p("C10", "A reply stream yields every reply in order and then ends",
  "Streaming the replies to an event yields every event the other side sends with that reference, exactly once and in the order sent, up to and including the final end or error event, and after that yields nothing more. This holds for any number of replies, for consumers slower than the producer, for many streams on one connection consumed concurrently, and when a single next() wait is abandoned and retried.",
  ["schedules", "histories", "inputs"], "every number and size of replies, every relative speed of producer and consumer, every interleaving of several streams, replies of the handler and of other tasks",
  "One test reads two streams of 101 replies in lock step with a fast transport; none has a failing handler, a slow consumer, an abandoned wait, or looks past the end.",
  ["src/ipc/stream_emitter/emit_metadata_with_response_stream.rs", "src/ipc/mod.rs", "src/ipc/context.rs"],
  [("ResponseStream::poll_next", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs"), ("bounded reply channel with back-pressure", "src/ipc/context.rs")],
  observe=["items of the stream", "frames on the wire"])

p("C11", "Handler failures reach the caller as errors and stay isolated",
  "If a handler fails, the caller waiting for the reply gets an error response with the library's code 500 and a message containing the handler's error, a caller streaming replies gets that error event as the last item, and without a waiting caller the error goes to the caller's error handler exactly once. A failing or panicking handler, on either side, never affects other events, other connections or later events on the same connection.",
  ["histories", "schedules", "inputs"], "every kind of handler failure (each error value, failure after partial output, failing payload decoding, panic), on server and client, mixed with concurrent successful traffic",
  "Tests trigger one failure in an otherwise idle client-server pair and never a panic, a failing client handler or concurrent traffic.",
  ["src/ipc/mod.rs", "src/events/error_event.rs", "src/ipc/stream_emitter/emit_metadata_with_response.rs"],
  [("error branch of handle_event", "src/ipc/mod.rs"), ("Error-typed reply becomes Err", "src/ipc/stream_emitter/emit_metadata_with_response.rs")],
  observe=["results of await_reply and streams", "error handler call log", "frames on the wire"])

p("C12", "Waiting for replies ends at the configured timeout, not before",
  "A wait for a reply whose event has been sent, and each wait for a next streamed reply, ends with a timeout error exactly when the timeout given for it, or else the builder's (60 seconds if unset), has passed without a reply, and delivers any reply that arrives earlier, however late within that time. After a timeout the stream is over and can still be polled, and a reply that comes too late is handled like an event nobody waited for; it is never delivered to another waiter.",
  ["schedules", "configurations", "histories"], "every combination of default and per-request timeout, every arrival time of replies relative to it, first and later streamed replies, silent, slow and disconnected peers",
  "Tests set timeouts only to bound themselves; none lets one expire, and real clocks cannot test exact expiry.",
  ["src/ipc/stream_emitter/emit_metadata_with_response.rs", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs", "src/ipc/builder.rs", "src/ipc/context.rs"],
  [("select between reply and sleep", "src/ipc/stream_emitter/emit_metadata_with_response.rs"), ("per-item timeout", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs")],
  [("default_reply_timeout", "timeout used unless one is given", "src/ipc/context.rs")],
  ["virtual time at which waits resolve", "handler call log"])

p("C13", "Concurrent emitters never corrupt or lose frames",
  "However many tasks and threads emit on one connection at once, and however the transport splits, delays or buffers writes until flushed, the byte stream is always a sequence of complete frames, each successfully emitted event appears exactly once, and events emitted one after the other by one task appear in that order. When an emit returns successfully its whole frame has been written and flushed.",
  ["schedules", "inputs"], "every number of emitters, every interleaving, every event size, every partial-write, pending and flush behaviour of the transport, both directions",
  "The tests' transport accepts every write whole and needs no flush, and at most one task emits per connection and direction.",
  ["src/ipc/stream_emitter/emit_metadata.rs", "src/ipc/stream_emitter/mod.rs"],
  [("write and flush under one lock", "src/ipc/stream_emitter/emit_metadata.rs")],
  [("StreamEmitter.stream", "shared, locked write half", "src/ipc/stream_emitter/mod.rs")],
  ["bytes on the wire"])

p("C14", "A connection fault at any byte is contained",
  "If a connection breaks at any byte in either direction, by end of stream or by error, exactly the events whose frames had arrived completely are handled, every pending or later emit, reply wait and stream on it ends with a reply that had already arrived or an error (or end of stream) within its timeout, and nothing panics. Other connections of the same server or process, and new ones, are not affected.",
  ["fault_sequences", "crash_points"], "every byte offset of a session in both directions, each kind of break, on plain and encrypted connections (including during the handshake)",
  "No test ever closes or breaks a connection.",
  ["src/ipc/mod.rs", "src/ipc/server.rs", "src/ipc/client.rs", "src/events/event.rs", "src/protocol/encrypted/io_impl.rs"],
  [("read loop ends on error", "src/ipc/mod.rs"), ("one task and one context per connection", "src/ipc/server.rs")],
  observe=["handler call log", "results of pending operations", "panic hook", "a bystander connection"])

p("C15", "Stopping a client ends its event handling and closes the connection",
  "After a client's context is stopped and the stop has taken effect, no further event received on that connection runs a handler or satisfies a wait, and once the remaining handles are gone the peer sees the connection close. Stopping is possible from any clone, succeeds when repeated or when the connection is already closed, and does not disturb other clients, the other connections of a pool, or the server.",
  ["histories", "schedules"], "every point of a session at which stop is called, idle or under traffic, from any clone, repeated, after disconnects, in pools",
  "No test calls stop.",
  ["src/ipc/context.rs", "src/ipc/client.rs"],
  [("Context::stop", "src/ipc/context.rs"), ("abort of the connection task", "src/ipc/client.rs")],
  [("stop_sender", "one-shot stop signal shared by the clones of a context", "src/ipc/context.rs")],
  ["handler call log", "peer-side EOF", "a bystander client"])

p("C16", "A pool hands out its least used connection and keeps count",
  "A pooled client opens exactly the requested number of connections; acquiring yields a context of one with the fewest guards currently held, counting acquired guards and their clones, and dropping a guard releases it, for any sequence of acquire, clone and drop on the pool, its clones and its guards. After any concurrent use in which all guards were dropped, all connections count as unused again; every connection of the pool dispatches the same handlers and shares the same context data.",
  ["histories", "schedules", "configurations"], "every pool size, every sequence of acquire, clone and drop, every interleaving of threads using the pool",
  "The pooled client has no test at all.",
  ["src/ipc/context.rs", "src/ipc/builder.rs"],
  [("PoolGuard count, PooledContext::acquire", "src/ipc/context.rs"), ("build_pooled_client", "src/ipc/builder.rs")],
  [("PoolGuard.count", "guards held per connection", "src/ipc/context.rs")],
  ["connection on which an acquired context emits"])

p("C17", "Context data is shared by all handlers and never lost",
  "Every value inserted in a builder is visible, under its key, in the context of every handler in every namespace on every connection of that server, client or pool, and in the context a client build returns; later inserts of the same key replace earlier ones. Changes made under the data lock by one handler are seen by all others, and no concurrent change is lost; data of different servers and clients stays separate.",
  ["schedules", "histories", "configurations"], "every set of keys and values, every number of connections, namespaces and concurrent handlers, every interleaving",
  "Tests only read one counter that is itself shared by an Arc, so a copy of the map per connection would pass.",
  ["src/ipc/context.rs", "src/ipc/server.rs", "src/ipc/client.rs", "src/ipc/builder.rs"],
  [("data behind one Arc<RwLock<_>>", "src/ipc/context.rs"), ("insert / insert_all", "src/ipc/builder.rs")],
  [("Context.data", "typed map shared by contexts", "src/ipc/context.rs")],
  ["values read and written through ctx.data"])

p("C18", "Finished requests and connections leave nothing behind",
  "A request that got its reply, failed, timed out, or was abandoned at any point, a reply stream that ended, failed, timed out or was dropped early, and an event that was handled keep no memory once they are over, so memory does not grow with their number on a long-lived connection. The same holds on a server for connections that were closed, broken or refused.",
  ["histories", "fault_sequences"], "every number and mix of requests by outcome and every number of connections by way of ending",
  "Tests run a few requests per process and never look at what stays allocated.",
  ["src/ipc/context.rs", "src/ipc/mod.rs", "src/ipc/stream_emitter/emit_metadata_with_response.rs", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs", "src/ipc/server.rs"],
  [("removal of reply listeners", "src/ipc/stream_emitter/emit_metadata_with_response.rs")],
  [("reply_listeners", "waiting requests by event id", "src/ipc/context.rs")],
  ["live heap bytes per operation, by a counting allocator"])

p("C19", "Abandoning an operation never disturbs other traffic",
  "Dropping an emit, a reply wait, a stream request, a reply stream or a next() wait at any moment, even while its frame is half written, leaves the connection working: the abandoned event is delivered whole at most once or not at all, and every other event and reply on the connection, before, during and after, is delivered intact as if the operation had not been abandoned.",
  ["schedules", "fault_sequences"], "every suspension point of every operation at which it can be dropped, under every transport back-pressure, on plain and encrypted connections, with other operations queued behind it",
  "No test drops an operation before it is finished.",
  ["src/ipc/stream_emitter/mod.rs", "src/ipc/stream_emitter/emit_metadata.rs", "src/ipc/stream_emitter/emit_metadata_with_response.rs", "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs", "src/ipc/mod.rs"],
  [("unfinished frame kept with the shared write half", "src/ipc/stream_emitter/mod.rs"), ("reply to a vanished waiter handled as a regular event", "src/ipc/mod.rs")],
  observe=["frames on the wire", "handler call log", "results of the other operations"])

p("C20", "The encrypted stream is a faithful byte stream",
  "Bytes written to an encrypted stream and flushed arrive at the other end complete, unchanged and in order, for every sequence of write, flush and read sizes and every way the transport splits and delays data, in both directions at once. Reading returns available bytes without waiting for the caller's buffer to fill; flushing and shutting down complete when the transport makes progress, and a shutdown is seen by the peer after all data.",
  ["inputs", "schedules"], "every sequence of write, flush and read sizes including those around the internal buffer size, every partial-write and pending behaviour of the underlying transport",
  "Three tests send events of two sizes over a transport that keeps write boundaries, so reads never cross package boundaries and shutdown is never called.",
  ["src/protocol/encrypted/io_impl.rs", "src/protocol/encrypted/mod.rs"],
  [("AsyncRead / AsyncWrite implementations", "src/protocol/encrypted/io_impl.rs"), ("EncryptedPackage framing", "src/protocol/encrypted/mod.rs")],
  [("buffer / remaining", "plaintext not yet encrypted or not yet read", "src/protocol/encrypted/mod.rs")],
  ["bytes written and read at the two ends"])

p("C21", "Encrypted traffic hides its content and never repeats a keystream",
  "On an encrypted connection no event content appears in clear on the transport. Every connection, also between the same two peers, is encrypted under a fresh session key, no two packages of a connection use the same keystream, however many are sent and in whichever direction, and generated secrets are never repeated.",
  ["inputs", "histories"], "every content, every number of packages per connection and of connections between the same peers",
  "The tests only check that data arrives; a connection without any encryption would pass them.",
  ["src/protocol/encrypted/crypt_handling.rs", "src/protocol/encrypted/io_impl.rs", "src/utils.rs"],
  [("CipherBox nonce counters", "src/protocol/encrypted/crypt_handling.rs"), ("session key exchange and upgrade", "src/protocol/encrypted/crypt_handling.rs")],
  [("en_count / de_count", "packages encrypted and decrypted under the current key", "src/protocol/encrypted/crypt_handling.rs")],
  ["bytes on the transport against known plaintext"])

p("C22", "Tampering with encrypted traffic is always detected",
  "Whatever an attacker on the transport does to an encrypted connection (changing, dropping, duplicating, reordering, truncating or inserting bytes or packages, or replaying traffic recorded on an earlier connection), each side only ever delivers an unaltered prefix of what its peer sent, then stops delivering on that connection, without a panic.",
  ["fault_sequences", "inputs"], "every manipulation at every byte or package position in either direction, from the first handshake byte on",
  "No test modifies traffic.",
  ["src/protocol/encrypted/crypt_handling.rs", "src/protocol/encrypted/io_impl.rs", "src/protocol/encrypted/mod.rs"],
  [("authenticated decryption with counted nonces", "src/protocol/encrypted/crypt_handling.rs")],
  observe=["handler call logs at both ends behind a man in the middle"])

p("C23", "Only known peers get through an encrypted handshake",
  "With unknown peers disallowed (the default), a side only exchanges events with a peer that holds the private key of one of its listed public keys: connecting to or being connected to by a peer whose key is not listed fails on the side that refuses it with an unknown-peer error, and no event of a peer without the private key is ever handled, even if it presents a listed public key. With unknown peers allowed, or listed on both sides, the connection works.",
  ["configurations", "inputs"], "every combination of key lists and settings on the two sides, including empty lists and several keys, and attackers that know public keys only",
  "Tests only connect peers that list each other.",
  ["src/protocol/encrypted/crypt_handling.rs", "src/protocol/encrypted/protocol_impl.rs", "src/protocol/encrypted/mod.rs"],
  [("known_peers check in both key exchanges", "src/protocol/encrypted/crypt_handling.rs"), ("EncryptionOptions::default", "src/protocol/encrypted/mod.rs")],
  [("Keys", "own secret, known peers, allow_unknown", "src/protocol/encrypted/mod.rs")],
  ["result of connecting", "handler call log"])

p("C24", "The real transports carry all traffic and honour their options",
  "Over TCP, over Unix domain sockets and over their encrypted forms, every event and reply of any size sent in either direction by any number of concurrent clients arrives exactly once and unaltered, as on an ideal transport. A configured time-to-live is set on listening and on connecting TCP sockets and left at the system default otherwise, connecting where nobody listens fails with an I/O error, and binding an address already in use fails instead of starting a server.",
  ["inputs", "configurations", "schedules"], "every transport, option value, event size (far beyond socket buffers), number of clients and worker threads",
  "The test suite replaces the transports by an in-memory one; the real ones have no run-time test.",
  ["src/protocol/tcp.rs", "src/protocol/unix_socket.rs", "src/protocol/encrypted/protocol_impl.rs"],
  [("TcpListener / TcpStream implementations", "src/protocol/tcp.rs"), ("UnixListener / UnixStream implementations", "src/protocol/unix_socket.rs")],
  observe=["results and handler logs at both ends of real sockets", "socket options"])

p("C25", "No client can stop a server from serving others",
  "A server keeps accepting and serving connections whatever individual clients do: connect and leave at once, leave during or fail the handshake, be refused as unknown, send garbage, stop reading, or disconnect with requests in progress, in any number and order. Clients connected before and after are served normally.",
  ["histories", "fault_sequences", "schedules"], "every sequence and overlap of well-behaved and misbehaving clients, plain and encrypted",
  "Tests start a server for exactly one well-behaved client.",
  ["src/ipc/server.rs", "src/protocol/encrypted/protocol_impl.rs", "src/ipc/mod.rs"],
  [("accept loop, one task per connection", "src/ipc/server.rs"), ("handshake failures only refuse the peer", "src/protocol/encrypted/protocol_impl.rs")],
  observe=["requests of well-behaved clients before, during and after", "completion of the server future"])

p("C26", "Builders apply exactly the configuration they were given",
  "A server or client built without an address, or a pool of size zero, is refused with a build error and connects or listens nowhere. Handlers, namespaces (built inline, from a provider, or added ready-made) and options take effect in whatever order and number they are given, a later handler for the same name or a later namespace of the same name replaces the earlier one entirely, and the listener and stream options given are the ones the transport receives.",
  ["configurations"], "every sequence of builder calls for servers, clients and pools",
  "Tests use one fixed builder sequence each and never a provider, a replacement, options or an incomplete builder.",
  ["src/ipc/builder.rs", "src/namespaces/builder.rs", "src/namespaces/provider_trait.rs", "src/macros.rs"],
  [("IPCBuilder", "src/ipc/builder.rs"), ("NamespaceBuilder", "src/namespaces/builder.rs"), ("Namespace::from_provider", "src/namespaces/provider_trait.rs")],
  observe=["options received by a recording transport", "handler call log", "build results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
