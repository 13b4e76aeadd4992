#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; traces recorded from the real code validated against it"
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
NA = {"C20": "accuracy of floating point conversion is a statement about real numbers and rounding: TLC has only 32-bit integers and no reals, and a specification of decimal/binary rounding with bounds TLC could evaluate would not cover the interesting values"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(os.path.join(V, "checks", i + ".py")):
        na.append({"property": i, "reason": "no check yet"}); continue
    checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking", "level_note": NOTES.get(i, "bounded: seeded histories of the real code validated against the specification")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
