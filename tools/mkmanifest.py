#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"): na.append({"property": p["id"], "reason": p["na"]}); continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s --quick" % p["id"], "thorough_cmd": "./check %s --thorough" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
# generated sections of DESIGN.md
import glob
def section(text, name, body):
    a = text.index("<!-- %s -->" % name); b = text.index("<!-- end -->", a)
    return text[:a] + "<!-- %s -->\n%s\n" % (name, body.rstrip("\n")) + text[b:]
D = os.path.join(V, "DESIGN.md"); t = open(D).read()
out = []
for p in PROPS:
    out.append("### %s: %s" % (p["id"], p["title"]) + (" (not applicable)" if p.get("na") else "") + "\n")
    out.append(p["statement"] + "\n")
    if p.get("na"): out.append("*Why not:* " + p["na"] + "\n"); continue
    out.append("*Decided by* " + p["technique"] + ".  \n*Over* " + p["quantifier"]["text"] + ".  \n*Beyond tests:* " + p["why_tests_cant"] + "." + ("  \n*Bounds and notes:* " + p["bounds"] if p.get("bounds") else "") + "\n")
t = section(t, "properties", "\n".join(out))
kf = []
for l in open(os.path.join(V, "known-findings.jsonl")):
    l = l.strip()
    if l.startswith("fixed:"):
        q = l[len("fixed: property="):].split(" ", 2); kf.append("* %s (fixed, %s): %s" % tuple(q))
    elif l.startswith("{"):
        q = json.loads(l); kf.append("* %s (known finding, not repaired, key `%s`): %s" % (q["property"], q["key"], q["what"]))
t = section(t, "findings", "\n".join(kf))
sd = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    q = json.load(open(m)); sd.append("* `%s`: caught by %s. %s Needs: %s" % (os.path.basename(os.path.dirname(m)), q.get("caught_by", q["property"]), q["what_it_breaks"], q["needs"]))
t = section(t, "seeds", "\n".join(sd))
open(D, "w").write(t)
