#!/usr/bin/env python3
"""Development tool: creates seeded/<id> from the changed copy of /repo in /tmp/plant/repo.

  mkseed.py start                  makes a fresh copy of /repo to change
  mkseed.py save ID PROPERTY [--features F] --needs TEXT --breaks TEXT < demo.rs
"""
import argparse, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
if sys.argv[1] == "start":
    os.makedirs(W, exist_ok=True)
    subprocess.run("find %s -mindepth 1 -delete; cp -a /repo/. %s/ && rm -rf %s/target" % (W, W, W), shell=True, check=True)
    sys.exit()
a = argparse.ArgumentParser()
a.add_argument("cmd"); a.add_argument("id"); a.add_argument("prop")
a.add_argument("--features", default="enc"); a.add_argument("--needs", required=True); a.add_argument("--breaks", required=True)
o = a.parse_args()
d = os.path.join(V, "seeded", o.id)
os.makedirs(d, exist_ok=True)
p = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, check=True).stdout
assert p.strip(), "no change"
open(d + "/patch.diff", "wb").write(p)
for f in ("core.rs", "main.rs", "demo.sh", "Cargo.toml.in", "Cargo.lock"):
    shutil.copy(V + "/tools/demo/" + f, d)
for f in ("rng.rs", "codec.rs", "sim.rs", "fix.rs"):
    shutil.copy(V + "/harness/src/" + f, d)
open(d + "/features", "w").write("--features " + o.features if o.features else "")
open(d + "/demo.rs", "w").write(sys.stdin.read())
json.dump({"property": o.prop, "needs": o.needs, "what_it_breaks": o.breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run("git -C %s checkout -q -- ." % W, shell=True, check=True)
print("saved", d)
