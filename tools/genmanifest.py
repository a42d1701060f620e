#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p not in NOTES:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
        continue
    tech, note = NOTES[p]
    m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                        "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "model_checking", "level_note": note})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
