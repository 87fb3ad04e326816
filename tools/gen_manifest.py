#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks the harness has."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
T = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())
checks, na = [], []
for i in ids:
    if i in T:
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./run build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
