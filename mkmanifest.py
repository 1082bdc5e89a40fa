#!/usr/bin/env python3
"""Write MANIFEST.json from checks/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "checks"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 checks/setup.py",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                      thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=plan.PLAN[p["id"]]["technique"],
                      level=plan.PLAN[p["id"]]["level"], level_note=plan.PLAN[p["id"]]["note"] or "Generated-input search; it does not establish absence of violations outside the cases explored.")
                 for p in props if p["id"] in plan.PLAN],
         not_applicable=[dict(property=p["id"], reason="The check for it is not built yet.") for p in props if p["id"] not in plan.PLAN])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
