#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plans
NOTE = ("TLC enumerates the specification's small configurations completely; executions of the real code, driven by schedules "
        "that TLC generates from the same specification, are validated as behaviours of it. Trusts the specification's reading "
        "of the documentation, the recording harness and the accelerated clock; bounded by the workflows and schedules generated.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                       "technique": plans.PLANS[i]["technique"] or "TLA+ model checking (TLC) and validation of real executions against the specification",
                       "level": "model_checking", "level_note": plans.PLANS[i].get("note") or NOTE})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
