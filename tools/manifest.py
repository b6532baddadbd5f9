#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(HERE, "tools"))
import config
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded search over thread schedules, memory contents and faults, checked against a reference model"
checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
           "technique": config.CHECKS[p["id"]].get("technique", TECH), "level": config.CHECKS[p["id"]]["level"], "level_note": config.CHECKS[p["id"]].get("note", config.CHECKS[p["id"]]["rule"])} for p in props if p["id"] in config.CHECKS]
na = [{"property": p["id"], "reason": config.NA.get(p["id"], "check under construction")} for p in props if p["id"] not in config.CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
  "notes": "No hooks are needed in /repo: the seams are libgomp's entry points, the compiler's access instrumentation, malloc/new, the clock functions and std::iostream. Checks compile /repo's working tree themselves (build/ is ignored by git)."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
