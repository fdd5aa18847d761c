#!/usr/bin/env python3
"""Regenerate MANIFEST.json from plan.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
plan = json.load(open(os.path.join(V, "plan.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": plan[i].get("technique", "property-based testing: generated programs against an explicit model"),
            "level": plan[i].get("level", "exploration"),
            "level_note": plan[i].get("note", "Random search with a complete oracle on each generated case; absence of violations is evidence, not proof. Trusts the reference model of src/model.hh."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py && mkdir -p build evidence", "checks": checks,
     "not_applicable": na,
     "notes": "Checks build everything they need from /repo's working tree in /verif/build. No hooks in /repo; only fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
