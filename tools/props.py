#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note, technique="explicit-state reference model, every trace replayed on the real extension in PostgreSQL", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, note=note, technique=technique, hook=hook))


exec(open(os.path.join(V, "tools/props_data.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(f"{V}/checks/{p['id'].lower()}.py"):
        c = f"python3 checks/{p['id'].lower()}.py"
        checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c,
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks build the extension and the crates from /repo's working tree as they are", "source_commits": []},
     "checks": checks, "not_applicable": na + NA}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
