#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist (run with /opt/venv/bin/python)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    m = importlib.import_module("checks." + i.lower())
    cmd = f"/opt/venv/bin/python check.py {i} --tier "
    checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "proof"), "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); import pydv, z3'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: the contracts live in /verif and are checked against the functions extracted from /repo's working tree on every run. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
