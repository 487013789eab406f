#!/usr/bin/env python3
"""MANIFEST.json from the check modules present"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools/levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
        t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py " + i, "thorough_cmd": "python3 checks/run.py %s --thorough" % i,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 engine/extract.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
