#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when the list of checks changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
SPECIAL = {}
note = ("Every recorded call of systematically enumerated small histories and of random histories is compared with the "
        "result that the TLA+ specification prescribes; TLC also checks the specification's own models of the property. "
        "Bounded: nothing is said about histories that were not executed. Trusts TLC, the specification, the log of the driver and SHA-512/256.")
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": SPECIAL.get(i, "TLA+ specification, TLC trace validation of executed histories"),
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the public API exposes everything the specification talks about. /repo carries only fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
