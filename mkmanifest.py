#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS, NA
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["level_note"],
        })
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in PROPS],
    "notes": "Contract-based deductive verification (Verus) of code extracted from /repo on every run; see DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
