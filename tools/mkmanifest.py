#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that lib/parts.py defines."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import parts
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in parts.CHECKS:
        t, n = parts.NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": parts.CHECKS[i][0], "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in parts.CHECKS],
     "notes": "No hooks in /repo: harnesses reach internal packages through go build -overlay. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
