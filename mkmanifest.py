#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.py and properties.jsonl."""
import json, os
from checks.table import CHECKS, NOT_APPLICABLE
R = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                 "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                 "technique": CHECKS[i]["technique"], "level": CHECKS[i]["level"],
                 "level_note": CHECKS[i]["note"]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in CHECKS],
     "notes": "No hooks are needed in /repo: the sources are compiled unmodified against stand-ins for the absent "
              "dependencies (shim/) and against an own OpenMP runtime, network and randomness (mc/). See DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
