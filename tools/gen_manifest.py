#!/usr/bin/env python3
"""writes MANIFEST.json from lib/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
from props import INFO, THEOREMS, TITLES, NA, NOTES
checks = []
for p in sorted(INFO):
    i = INFO[p]
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification (Verus) of functions extracted from /repo on every run; native replay finds the failing input",
        "level": i["level"], "level_note": NOTES.get(p) or "see DESIGN.md", **({"theorems": THEOREMS[p]} if THEOREMS.get(p) else {})})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "no contract built for it yet")} for p in sorted(TITLES) if p not in INFO],
     "notes": "No hooks: nothing in /repo is guarded or instrumented. /repo carries only fix: commits (known-findings.txt). vx/ extracts, contracts/ holds the contracts, replay/ is the native harness, lib/driver.py decides."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
