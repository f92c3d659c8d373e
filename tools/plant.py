#!/usr/bin/env python3
"""plant.py ID FILE OLD NEW NEEDS BREAKS [NTH]: records a planted bug as seeded/ID/patch.diff + meta.json.
plant.py --verify ID...: applies each patch, builds, runs the stable tests, its demonstration and the property's check, and undoes it."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def record(id, f, old, new, needs, breaks, prop=None):
    clean()
    p = f"/repo/{f}"
    t = open(p).read()
    assert t.count(old) == 1, (id, t.count(old))
    open(p, "w").write(t.replace(old, new))
    os.makedirs(f"{S}/{id}", exist_ok=True)
    open(f"{S}/{id}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    json.dump({"property": prop or id.split("-")[0].upper(), "needs": needs, "what_it_breaks": breaks}, open(f"{S}/{id}/meta.json", "w"), indent=1)
    clean()
def verify(id, extra=()):
    m = json.load(open(f"{S}/{id}/meta.json"))
    clean()
    r = sh(f"git -C /repo apply {S}/{id}/patch.diff")
    assert r.returncode == 0, r.stderr
    out = {"id": id}
    t = time.time()
    try:
        b = sh("bash /opt/vp/build.sh")
        out["build"] = b.returncode == 0
        sh("bash /opt/vp/test.sh /tmp/w/plant.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = set(json.load(open("/tmp/w/plant.json"))["passed"])
        out["broken_tests"] = sorted(base - got)[:5]
        d = sh(f"cd /repo && bash {S}/{id}/demo.sh")
        out["demo"] = (d.returncode, d.stderr.strip()[-150:])
        for p in [m["property"], *extra]:
            c = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p}")
            out["check " + p] = (c.returncode, (c.stdout + c.stderr).strip()[-300:])
    finally:
        clean()
    out["s"] = int(time.time() - t)
    print(json.dumps(out), flush=True)
if sys.argv[1] == "--verify":
    for i in sys.argv[2:]: verify(i)
