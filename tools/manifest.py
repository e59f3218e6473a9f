#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/defs.py and properties.jsonl"""
import json, os, sys, types
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "checks")]
m = sys.modules["__main__"]
class Job:
    def __init__(self, *a, **k): pass
m.Job, m.CheckError, m.REPO = Job, Exception, "/repo"
import defs
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in defs.CHECKS:
        c = defs.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s thorough" % i,
                       "technique": c.get("technique", "randomised workload under address and undefined behaviour sanitizers with an independent reference oracle"),
                       "level": "exploration", "level_note": c.get("level_note", "Held on the executions made, whose number and variety the evidence states; says nothing about inputs not generated. Trusts the sanitizers and the independent oracle.")})
    else:
        na.append({"property": i, "reason": defs.NOT_CLAIMED.get(i, "the check is not built yet")})
json.dump({"version": 1, "setup_cmd": "mkdir -p .build evidence", "checks": checks, "not_applicable": na,
           "notes": "Checks use the public API only; no hooks in /repo. Known findings and repaired defects are in known_findings.txt."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
