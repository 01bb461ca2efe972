#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl"""
import json
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "cd analyzer && cargo +nightly build --release --offline",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. All checks are static analyses of the current source; see DESIGN.md. Defects found and repaired are listed in known_findings.txt."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
