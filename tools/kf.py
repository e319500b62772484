#!/usr/bin/env python3
"""kf.py id property status tag|- what: add or replace an entry of known_findings.json (development only)."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
i, prop, st, tag, what = sys.argv[1:]
d["findings"] = [f for f in d["findings"] if not (f["id"] == i and f["property"] == prop)]
e = {"id": i, "property": prop}
if tag != "-":
    e["tag"] = tag
e.update(status=st, what=what)
d["findings"].append(e)
json.dump(d, open(p, "w"), indent=1)
