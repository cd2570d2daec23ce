#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the modules in vf/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

TECH = {}
exec(open(os.path.join(here, "tools", "techniques.py")).read())

checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "vf", "checks", i.lower() + ".py")):
        tech, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "bash run_check.sh %s --tier quick" % i,
                       "thorough_cmd": "bash run_check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks: Hypothesis-generated cases against an explicit oracle; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
