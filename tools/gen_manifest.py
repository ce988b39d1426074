#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check (checks/Cxx.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": "TLA+ specification checked with TLC; conformance by replaying TLC-generated and random behaviours on the real code and validating the recorded traces against the specification",
            "level": "model_checking",
            "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": "no check yet: its specification module is still being written"})
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses under /verif/harness use the public API and the customization points, and are compiled by every check against /repo/include of the current tree. Run one check: python3 check.py C04 [--thorough] [--replay out/x.json]."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
