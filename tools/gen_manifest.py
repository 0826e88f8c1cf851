#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
try:
    exec(open(os.path.join(root, "tools", "claims.py")).read())
except FileNotFoundError:
    pass
NA = {
 "C15": "Pure function of its input: field laws involve no schedule, clock, fault or interleaving; simulation would only be input generation under another name.",
 "C16": "Pure function of its input: bilinearity of the pairing for all points has no schedule or fault in it. C01, C08, C09 and C12 decide the histories in which users depend on it.",
 "C19": "Fixed constants: there is nothing to schedule and no fault that could reach them.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: preemption points and work counters are compiled into the crate by a rustc wrapper (LLVM SanitizerCoverage) at check time."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
