#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, na=None, state=None, observe=None):
    technique, note = TECH.get(id, (None, None))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na, state=state or [], observe=observe or []))

exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())
exec(open(os.path.join(ROOT, "tools", "proplist.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p["state"] else {}),
                        **({"observe_at": p["observe"]} if p["observe"] else {}),
                        "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in P:
    if p["na"] or not p["technique"]:
        na.append({"property": p["id"], "reason": p["na"] or "not built yet"})
    else:
        checks.append({"property": p["id"],
                       "quick_cmd": "./run.sh %s" % p["id"],
                       "thorough_cmd": "./run.sh %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One checker binary (checker/, Go, vendored x/tools) decides all properties from /repo's current source; no code of /repo is executed."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
