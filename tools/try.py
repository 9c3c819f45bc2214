#!/usr/bin/env python3
"""Development tool: runs checks of this harness against a changed copy of /repo, in /tmp.

  try.py [--slot N] [--tests] [--seeds 1,2] [--revert COMMIT | PATCH] PROP...
"""
import argparse, glob, os, re, shutil, subprocess, sys
a = argparse.ArgumentParser()
a.add_argument("--slot", default="1")
a.add_argument("--tests", action="store_true")
a.add_argument("--demo")
a.add_argument("--seeds", default="1")
a.add_argument("--revert")
a.add_argument("--patch")
a.add_argument("--scale")
a.add_argument("--cfg", default="full")
a.add_argument("--stop", action="store_true", help="stop at the first seed that finds something")
a.add_argument("props", nargs="*")
o = a.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/try/slot" + o.slot
R, H = S + "/repo", S + "/harness"
os.makedirs(S, exist_ok=True)
def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.1", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
env.pop("CARGO_TARGET_DIR", None)
sh("rsync -a --delete --exclude target /repo/ %s/" % R) if shutil.which("rsync") else sh("mkdir -p %s && find %s -mindepth 1 -delete; cp -a /repo/. %s/" % (R, R, R))
sh("git -C %s checkout -q -- ." % R)
if o.revert:
    p = sh(["git", "-C", R, "revert", "--no-commit", o.revert])
    if p.returncode:
        print("revert conflicts:", p.stdout[-300:]); sys.exit(3)
if o.patch:
    p = sh(["git", "-C", R, "apply", "--whitespace=nowarn", os.path.abspath(o.patch)])
    if p.returncode:
        print("patch does not apply:", p.stdout); sys.exit(3)
sh("find %s -name '*.rs' -path '*src*' | xargs touch" % R)
if o.tests:
    for f in (["--all-features"], []):
        p = sh(["cargo", "nextest", "run", "--workspace", "--locked", "--offline", "--test-threads", "1", "--tool-config-file", "vp:/opt/vp/nextest.toml", "--profile", "vp", "--target-dir", S + "/ttarget"] + f, cwd=R, env=env)
        m = re.findall(r"Summary.*", p.stdout)
        print("tests", f, m[-1] if m else p.stdout[-1500:])
        if p.returncode: print("\n".join(l for l in p.stdout.splitlines() if "FAIL" in l)[:800])
if o.demo:
    for where, name in (("/repo", "unchanged"), (R, "changed")):
        e = dict(env, CARGO_TARGET_DIR=S + "/ttarget")
        p = sh(["bash", os.path.abspath(o.demo)], cwd=where, env=e, timeout=300)
        print("demo", name, p.returncode, p.stdout[-300:].strip())
if o.props:
    os.makedirs(H, exist_ok=True)
    sh("rm -rf %s/src; cp -a %s/harness/src %s/harness/Cargo.lock %s/" % (H, V, V, H))
    t = open(V + "/harness/Cargo.toml").read().replace('"/repo"', '"%s"' % R)
    if not os.path.exists(H + "/Cargo.toml") or open(H + "/Cargo.toml").read() != t:
        open(H + "/Cargo.toml", "w").write(t)
    p = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", S + "/target"] + (["--features", {"bpj": "bin,pst,jsn", "pj": "pst,jsn"}.get(o.cfg, o.cfg)] if o.cfg != "plain" else []), cwd=H, env=env)
    if p.returncode:
        print("build failed", p.stdout[-1500:]); sys.exit(3)
    props = ["C%02d" % i for i in range(1, 27)] if o.props == ["all"] else o.props
    for pr in props:
        for s in o.seeds.split(","):
            try:
                p = sh([S + "/target/debug/bmon", pr, "--seed", str(16 * int(s)), "--mem", "12"] + (["--scale", o.scale] if o.scale else []), timeout=700)
                out = p.stdout
            except subprocess.TimeoutExpired as x:
                out = "TIMEOUT"; p = None
            v = re.findall(r"^  viol.*", out, re.M) or re.findall(r"^  VIOL.*", out, re.M)
            ran = re.findall(r"^ran.*", out, re.M)
            if p is None or p.returncode not in (0, 1): v = ["crash/timeout rc=%s %s" % (p and p.returncode, out[-200:])] + v
            inc = re.findall(r"^.*INCONC.*", out, re.M)
            first = re.findall(r"^  VIOL.*", out, re.M)
            print(pr, s, "CAUGHT" if v else "quiet", (ran or [""])[0], [x.strip()[:100] for x in v][:5], first[0][:300] if first else "", inc[:2], flush=True)
            if v and o.stop: break
