#!/usr/bin/env python3
"""claims.json (hand-written) -> MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(f"{H}/claims.json"))
props = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
checks = []
for p in props:
    c = claims[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": "contract-based deductive verification of the real code (Verus), with a bounded search for a failing input",
        "level": c["level"],
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"print('nothing to prepare: every check builds what it needs')\"",
    "checks": checks,
    "not_applicable": [],
    "notes": "Contracts live in contracts/*.vc and are spliced mechanically into /repo/src on every run (vx); see DESIGN.md.",
}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
