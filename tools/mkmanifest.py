#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
import registry as reg
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg.PROP:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: " + reg.TECH[i],
            "level": reg.LEVEL.get(i, "exploration"), "level_note": reg.NOTE.get(i, "Seeded search: every run of the real code under the simulator satisfied the stated checks; no claim beyond the explored seeds.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "One seed is one exactly repeatable run; replay a violation with 'python3 check.py --replay FILE'. No hooks in /repo are needed: the seams are the C library, the linker and stub headers for absent external libraries."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
