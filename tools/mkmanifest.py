#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from plan import PLAN, ASSUME, NOTES, NOT_APPLICABLE
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        continue
    tech, note = NOTES[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}",
                       thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       evidence_file=f"evidence/{i}.json", technique=tech,
                       level=PLAN[i].get("level", "exploration"), level_note=note))
na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")) for p in props if p["id"] not in PLAN]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks: harness code enters through 'go test -overlay'. Replay a saved case with 'python3 check.py ID --replay FILE'."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
