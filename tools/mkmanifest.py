#!/usr/bin/env python3
"""regenerates MANIFEST.json from plan.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import plan
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in plan.PLAN:
        e = plan.PLAN[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                       "technique": e["technique"], "level": "exploration", "level_note": e["note"]})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed: the monitors observe the public API of an instrumented build of /repo's sources."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
