#!/usr/bin/env python3
"""Regenerates MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plans
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C24": "systematic allocation-fault injection with runtime monitors, AddressSanitizer and heap accounting",
    "C07": "history recording with online checkers, seeded delay injection, ThreadSanitizer with fence model",
    "C22": "runtime comparison with an independent oracle on generated hwloc topologies",
    "C23": "runtime comparison with an independent reference (GF(2) matrix) generator, UBSan",
    "C25": "differential runtime monitoring of one battery against both distributions, sanitizers",
}
DEF = "runtime monitors on seeded stress executions with injected delays; ASan+UBSan and TSan builds"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": TECH.get(i, DEF),
            "level": pl.level,
            "level_note": "Holds on every observed execution; " + pl.note,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -c \"import plans\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation enters through -include harness/prelude.hpp and LF_LOG."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
