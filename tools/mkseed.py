#!/usr/bin/env python3
"""mkseed.py FILE [id...]: plant the bugs described in FILE (a python list SEEDS of dicts id,prop,file,old,new,needs,breaks,demo),
confirm each in /repo (compiles, stable tests pass, demonstration fails only with the change), keep the good ones in /verif/seeded,
and report whether the property's check catches them."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/sh
# runs in /repo: exit 0 when the library behaves as stated
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -DNDEBUG %s -Iinclude -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 100 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty"
    try:
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        bad = False
        for f, old, new in edits:
            p = "/repo/include/dspbb/" + f
            x = open(p).read()
            nth = s.get("nth", None)
            if x.count(old) < 1 or (x.count(old) != 1 and nth is None): print(s["id"], "PATTERN", x.count(old)); bad = True; break
            parts = x.split(old); n = (nth or 0)
            x = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(x)
        if bad: continue
        d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(SH % s.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dm = sh("sh %s/demo.sh" % d, cwd="/repo")
        msg = ""
        if dm.returncode == 0: msg = "DEMO PASSES WITH PATCH"
        else:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: msg = "BUILD FAILS " + (b.stdout + b.stderr)[-300:]
            else:
                sh("bash /opt/vp/test.sh /tmp/w/seed.json")
                r = json.load(open("/tmp/w/seed.json")); base = json.load(open("/opt/vp/BASELINE.json"))
                st = json.dumps(r)
                want = base["stable"]
                got = set(r.get("passed", [])) if isinstance(r, dict) else set()
                miss = [t for t in want if t not in got]
                if miss: msg = "TESTS FAIL %d: %s" % (len(miss), str(miss[:3]))
        ck = ""
        if not msg:
            c = sh("%s/check %s --quick" % (V, s["prop"]))
            o = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            ck = "CAUGHT %d: %s" % (len(o), o[0][:260]) if c.returncode == 1 and o else "MISSED rc=%d %s" % (c.returncode, c.stdout[-200:])
    finally:
        sh("git -C /repo checkout -- .")
    if not msg:
        dm = sh("sh %s/demo.sh" % d, cwd="/repo")
        if dm.returncode: msg = "DEMO FAILS WITHOUT PATCH rc=%d %s" % (dm.returncode, (dm.stdout + dm.stderr)[-300:])
    if msg: shutil.rmtree(d)
    print(s["id"], msg or ck, flush=True)
