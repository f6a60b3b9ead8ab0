#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written text below, plus rules and counts from the last evidence files."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
def prop(id, title, statement, over, quant, why, files, mechs, na=None):
    props.append((id, title, statement, quant, why, na))
exec(compile(open(V + "/tools/proplist.py").read(), "proplist.py", "exec"))
ns = {}
exec(compile(open(V + "/tools/techniques.py").read(), "techniques.py", "exec"), ns)
TECH = ns["TECH"]
ns = {}
exec(compile(open(V + "/tools/design_notes.py").read(), "design_notes.py", "exec"), ns)
NOTES, HEAD, TAIL = ns["NOTES"], ns["HEAD"], ns["TAIL"]
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
known, fixed = {}, {}
for l in open(V + "/known_findings.txt"):
    m = re.match(r"(known|fixed): property=(P\d+) (.*)", l)
    if m:
        (known if m[1] == "known" else fixed).setdefault(m[2], []).append(m[3])
out = [HEAD.strip(), "", "## 3. The properties, one by one", ""]
for id, title, st, quant, why, na in props:
    out += ["### %s. %s" % (id, title), ""]
    if id not in TECH:
        out += ["*Not applicable:* " + na + ".", ""]
        continue
    tech, note = TECH[id]
    e = json.load(open(V + "/evidence/%s.json" % id))["coverage"]
    out += ["*Quantifies over* " + quant + ". *Why tests cannot settle it:* " + why, "",
            "*Deciding step:* " + tech + ".", "",
            "*What is analysed:* " + e["explanation"], "",
            "*Bounds:* " + note + ".", "", "*Obligations* (%d on the current tree):" % e["obligations"], ""]
    for r, t in e["rules"].items():
        n = e["obligations_per_rule"].get(r)
        out.append("- `%s`%s: %s" % (r, " (%d)" % n if n else "", t))
    out.append("")
    if id in NOTES:
        out += [NOTES[id].strip(), ""]
    if id in fixed:
        out += ["*Defects it found that were repaired:* " + "; ".join(re.sub(r"^(\w{7}) (.*)", r"\2 (\1)", x) for x in fixed[id]) + ".", ""]
    if id in known:
        out += ["*Known findings:* %d, see `known_findings.txt`." % len(known[id]), ""]
    if id in seeds:
        out += ["*Planted bugs:* " + "; ".join("`%s` (%s)" % (n, d["what_it_breaks"]) for n, d in seeds[id]) + ".", ""]
out += [TAIL.strip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
