#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup                         builds the harness in every configuration
  run.py check CXX [--tier T]          runs the monitor of one property against /repo's working tree
  run.py replay FILE                   runs the scenario of a reported violation again
"""
import fcntl
import json
import os
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import rules  # noqa: E402

HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(HARNESS, "target")
CONFIGS = {"full": ["full"], "plain": [], "rmp": ["rmp"], "bin": ["bin"], "pst": ["pst"], "jsn": ["jsn"], "bpj": ["bin", "pst", "jsn"], "pj": ["pst", "jsn"]}


def env():
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "1.85.1"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    return e


def fail(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def binary(cfg):
    return os.path.join(TARGET, "bmon-" + cfg)


def build(cfgs):
    """Builds the harness together with /repo's current working tree"""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for c in cfgs:
            cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", TARGET]
            if CONFIGS[c]:
                cmd += ["--features", ",".join(CONFIGS[c])]
            p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                lines = [l for l in p.stdout.splitlines() if l.startswith("error")]
                fail("building configuration %s failed: %s\n%s" % (c, "; ".join(lines[:5]), p.stdout[-4000:]))
            tmp = binary(c) + ".tmp"
            subprocess.run(["cp", os.path.join(TARGET, "debug", "bmon"), tmp], check=True)
            os.replace(tmp, binary(c))


def run_bmon(cfg, prop, seed, tier, only=None, scale=None, budget=None, wall=None, tag="m"):
    out = os.path.join(TARGET, "out-%s-%s-%d-%s.json" % (prop, cfg, os.getpid(), tag))
    status = out + ".status"
    for f in (out, status):
        if os.path.exists(f):
            os.remove(f)
    cmd = [binary(cfg), prop, "--out", out, "--seed", str(seed * 16 + list(CONFIGS).index(cfg)), "--tier", tier, "--status", status, "--mem", "12"]
    if only:
        cmd += ["--only", only]
    if scale:
        cmd += ["--scale", str(scale)]
    if budget:
        cmd += ["--budget", str(int(budget))]
    try:
        p = subprocess.run(cmd, cwd=TARGET, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=wall)
        rc, err = p.returncode, p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, err = None, (x.stderr or b"").decode("utf8", "replace")
    res = None
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    active = []
    if os.path.exists(status):
        with open(status, "rb") as f:
            for line in f.read().decode("utf8", "replace").split("\n"):
                line = line.replace("\0", "").strip().lstrip("!")
                if line:
                    fam, idx = line.rsplit(" ", 1)
                    active.append("%s:%s" % (fam, idx))
    for f in (out, status):
        if os.path.exists(f):
            os.remove(f)
    return rc, res, active, err[-1500:]


SAN_NAMES = {"thread": "ThreadSanitizer", "address": "AddressSanitizer"}


def build_san(kind):
    """Builds the harness, the crate and its dependencies (for threads: also the standard library) with a sanitizer. Returns the binary or the reason why there is none"""
    t = os.path.join(TARGET, "san-" + kind)
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    # multi-trait-object 0.3.3 (a dependency) trips over the newer debug assertions of the standard library,
    # curve25519-dalek over the newer compiler's features
    e["RUSTFLAGS"] = '-Zsanitizer=%s -C debug-assertions=off -A warnings --cfg curve25519_dalek_backend="serial"' % kind
    cmd = ["cargo", "build", "--offline", "--quiet", "--features", "full", "--target", "x86_64-unknown-linux-gnu", "--target-dir", t]
    if kind == "thread":
        cmd.append("-Zbuild-std")
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock-" + kind), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, "the build with -Zsanitizer=%s failed: %s" % (kind, "; ".join([l for l in p.stdout.splitlines() if l.startswith("error")][:3]))
    return os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "bmon"), None


def run_san(kind, prop, fams, seed, wall):
    """Runs families under a sanitizer. Only its reports count: the oracles have judged the families already, and here everything is much slower"""
    exe, why = build_san(kind)
    if exe is None:
        return {"sanitizer": kind, "not run": why}, []
    info = {"sanitizer": kind, "families": {}}
    reports = []
    for fam, scale in fams:
        cmd = [exe, prop, "--only", fam, "--seed", str(seed), "--scale", str(scale), "--budget", str(wall), "--all"]
        e = env()
        e["TSAN_OPTIONS"] = "halt_on_error=0 exitcode=0"
        e["ASAN_OPTIONS"] = "detect_leaks=0 allocator_may_return_null=1"
        log = os.path.join(TARGET, "san-%s-%s-%d.log" % (prop, fam, os.getpid()))
        with open(log, "wb") as f:
            try:
                rc = subprocess.run(cmd, cwd=TARGET, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=wall + 300).returncode
            except subprocess.TimeoutExpired:
                rc = None
        with open(log, "rb") as f:
            txt = f.read().decode("utf8", "replace")
        os.remove(log)
        ran = [l for l in txt.splitlines() if l.startswith("ran ")]
        found = [b for b in txt.split("==================") if "WARNING: " + SAN_NAMES[kind] in b or "ERROR: " + SAN_NAMES[kind] in b]
        info["families"][fam] = {"result": ran[-1] if ran else "ended with %s" % crash_name(rc), "reports": len(found)}
        reports += [(fam, b.strip()) for b in found]
    return info, reports


def crash_name(rc):
    if rc is not None and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return "signal %d" % -rc
    return "exit code %s" % rc


def merge(total, res):
    for k in ("planned", "ran", "evals"):
        total[k] = total.get(k, 0) + res[k]
    total.setdefault("distinct", set()).update(res["distinct"])
    for k in ("counters", "per_fam"):
        d = total.setdefault(k, {})
        for n, v in res[k].items():
            d[n] = d.get(n, 0) + v
    for k in ("samples", "inconc"):
        total.setdefault(k, []).extend(res[k])


def known_list(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        d = json.load(f)
    return {x["sig"]: x for x in d["findings"] if x["property"] == prop}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rule = rules.RULES[prop]
    cfgs = rule.get("configs", ["full", "plain"])
    build(cfgs)
    known = known_list(prop)
    total = {}
    viols = []
    found = {}
    budget = {"quick": 420, "thorough": 5400}[tier]
    walls = {}
    for cfg in cfgs:
        scale = rule.get("scale", {}).get(cfg, 1.0 if cfg in ("full",) else 0.4)
        if tier == "quick":
            scale *= rules.QUICK.get(prop, 1.0)
        t1 = time.time()
        rc, res, active, err = run_bmon(cfg, prop, seed, tier, scale=scale, budget=budget, wall=budget + 300)
        walls[cfg] = round(time.time() - t1, 2)
        if res is None:
            # something ended the process: find out which scenario did
            if rc == -signal.SIGKILL or rc is None:
                fail("the monitor of %s (%s) was ended: %s %s" % (prop, cfg, crash_name(rc), active))
            hit = False
            for a in active:
                rc2, res2, _, err2 = run_bmon(cfg, prop, seed, tier, only=a, budget=120, wall=300, tag="c")
                if res2 is None and rc2 not in (None, -signal.SIGKILL):
                    fam, idx = a.rsplit(":", 1)
                    viols.append((cfg, fam, int(idx), "crash@" + crash_name(rc2), "the process was ended by %s: %s" % (crash_name(rc2), err2.strip()[-400:])))
                    hit = True
                elif res2 is not None:
                    merge(total, res2)
                    for v in res2["viols"]:
                        viols.append((cfg, v["fam"], v["idx"], v["sig"], v["msg"]))
                        hit = True
            if not hit:
                fail("the monitor of %s (%s) ended with %s and no scenario reproduces it alone: %s" % (prop, cfg, crash_name(rc), err))
            continue
        merge(total, res)
        for v in res["viols"]:
            viols.append((cfg, v["fam"], v["idx"], v["sig"], v["msg"]))
        for v in res["known"]:
            if v["sig"] in known:
                found.setdefault(v["sig"], v["msg"])
            else:
                viols.append((cfg, v["fam"], v["idx"], v["sig"], v["msg"]))
    sans = []
    for kind, fams in (rule.get("sanitize", {}) if tier == "thorough" else {}).items():
        info, reports = run_san(kind, prop, fams, seed, 1200)
        sans.append(info)
        for fam, b in reports:
            viols.append(("san-" + kind, fam, 0, "sanitizer", b[:2000]))
    inconc = total.get("inconc", [])
    broken = [m for m in inconc if "HARNESS" in m]
    evals, distinct = total.get("evals", 0), len(total.get("distinct", ()))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": rule["level"],
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": rule["rule"],
            "samples": total.get("samples", [])[:24],
            "scenarios_run": total.get("ran", 0),
            "scenarios_planned": total.get("planned", 0),
            "scenarios_per_family": total.get("per_fam", {}),
            "observed": total.get("counters", {}),
            "configurations": cfgs,
            "sanitizers": sans,
            "inconclusive": inconc[:20],
        },
        "assumptions": rule.get("assumptions", []) + rules.COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for sig, msg in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[sig]["what"], sig), flush=True)
    if viols:
        seen = {}
        for v in viols:
            seen.setdefault((v[1], v[3]), []).append(v)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for n, ((fam, sig), vs) in enumerate(sorted(seen.items(), key=lambda x: -len(x[1]))):
            if n >= 8:
                break
            cfg, _, idx, _, msg = vs[0]
            rp = os.path.join(ROOT, "replays", "%s-%s-%s-%d.json" % (prop, cfg, fam, idx))
            with open(rp, "w") as f:
                json.dump({"property": prop, "config": cfg, "family": fam, "index": idx, "seed": seed, "tier": tier, "signature": sig, "message": msg,
                           "times": len(vs), "command": "python3 /verif/run.py replay " + rp}, f, indent=1)
            print("%s %s[%d] (%s) %s: %s" % (prop, fam, idx, cfg, sig, msg[:600]), flush=True)
            print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        sys.exit(1)
    if broken:
        fail("the harness itself failed: %s" % broken[:3])
    if distinct < rule.get("min_distinct", 10):
        fail("%s observed too little: %d distinct cases" % (prop, distinct))
    print("%s held on %d cases (%d distinct) in %d scenarios, %.1f s %s" % (prop, evals, distinct, total.get("ran", 0), time.time() - t0, walls), flush=True)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d["config"].startswith("san-"):
        kind = d["config"][4:]
        fams = [x for x in rules.RULES[d["property"]]["sanitize"][kind] if x[0] == d["family"]]
        info, reports = run_san(kind, d["property"], fams, d["seed"], 1200)
        for fam, b in reports:
            print("%s: %s" % (fam, b))
        print("%s\n%d reports" % (info, len(reports)))
        sys.exit(1 if reports else 0)
    build([d["config"]])
    rc, res, _, err = run_bmon(d["config"], d["property"], d["seed"], d["tier"], only="%s:%d" % (d["family"], d["index"]), wall=600, tag="r")
    if res is None:
        print("the process ended with %s\n%s" % (crash_name(rc), err))
        sys.exit(1)
    for v in res["viols"] + res["known"]:
        print("%s[%d] %s: %s" % (v["fam"], v["idx"], v["sig"], v["msg"]))
    print("%d violations" % len(res["viols"]))
    sys.exit(1 if res["viols"] else 0)


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build(list(CONFIGS))
    elif a[:1] == ["check"] and len(a) >= 2:
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        check(a[1], tier)
    elif a[:1] == ["replay"] and len(a) == 2:
        replay(a[1])
    else:
        print(__doc__)
        sys.exit(2)


if __name__ == "__main__":
    main()
