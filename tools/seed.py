#!/usr/bin/env python3
"""Maintenance only (no check uses it): validate planted bugs.  seed.py ID..."""
import subprocess, sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
demo0 = "--no-base" not in ids; ids = [i for i in ids if not i.startswith("-")]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
bad0 = {}
if demo0:
    sh("bash /opt/vp/build.sh")
    for i in ids: bad0[i] = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo").returncode
for i in ids:
    d = "%s/seeded/%s" % (V, i); prop = json.load(open(d + "/meta.json"))["property"]
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stderr); continue
    try:
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed.json")
        p = set(json.load(open("/tmp/seed.json"))["passed"])
        dm = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("python3 %s/run.py %s" % (V, prop))
        v = [l for l in c.stdout.splitlines() if "[key=" in l]
        print("%s prop=%s build=%d tests_ok=%s demo_clean=%s demo_bug=%d check=%d %s" % (i, prop, b.returncode, base <= p, bad0.get(i), dm.returncode, c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED"))
        if b.returncode: print(b.stdout[-1500:])
        if v: print("    ", v[0][:300])
        elif c.returncode not in (0, 1): print(c.stdout[-600:], c.stderr[-600:])
    finally: sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
