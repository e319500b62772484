#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, TAIL = {}, ""
exec(open(V + "/tools/design_notes.py").read())
o = [open(V + "/tools/design_head.md").read().rstrip() + "\n"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
kf = json.load(open(V + "/known_findings.json"))
kf = kf if isinstance(kf, list) else kf["findings"]
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
for p in props:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n\n*Specified.* {p['statement']}\n")
    o.append(f"*Enumerated.* {man[i]['level_note']}.\n")
    ev = f"{V}/evidence/{i}.json"
    d = D.get(i, {})
    o.append(f"*Oracle.* {d['oracle']}\n")
    if d.get("not"):
        o.append(f"*Left unspecified.* {d['not']}\n")
    o.append(f"*Beyond the tests.* {p['why_tests_cant']} {d.get('reach','')}".rstrip() + "\n")
    o.append(f"*Cost.* {d['cost']}\n")
    for s, j in seeds.get(i, []):
        o.append(f"*Seed* `{s}`: {j['what_it_breaks']} Caught by {i}.\n".replace("..", "."))
    if d.get("mut"):
        o.append(f"*Other planted changes.* {d['mut']}\n")
o.append("## 4. Genuine defects found\n\nRepaired (one `fix:` commit each; the existing tests, unedited, pass with every one):\n")
for k in kf:
    if k["status"] == "fixed":
        o.append(f"* {k['what'].replace('fixed: property=','')}")
o.append("\nKnown findings, not repaired (`known_findings.json`, printed as KNOWN-FINDING by the checks):\n")
for k in kf:
    if k["status"] != "fixed":
        o.append(f"* {k['property']} `{k['id']}`: {k['what']}")
o.append("\n" + TAIL.strip())
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
missing = [p["id"] for p in props if p["id"] not in D]
print(len(o), "parts; without notes:", missing)
