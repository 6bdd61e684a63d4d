#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from plan.py and properties.jsonl"""
import json
import os

from plan import PLAN, NOTES

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"),
                                     encoding="UTF-8") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": NOTES.get(
            i, "not claimed: no check has been built for it yet")})
        continue
    pl = PLAN[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt check.py %s quick" % i,
        "thorough_cmd": "python3-vt check.py %s thorough" % i,
        "technique": pl["technique"],
        "level": pl["level"],
        "level_note": pl["note"],
    })
doc = {"version": 1,
       "setup_cmd": "python3-vt -c \"import z3, cvc5, jsonschema\"",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. Every check reads /repo's working tree "
                "on each run; nothing is cached."}
with open(os.path.join(here, "MANIFEST.json"), "w", encoding="UTF-8") as fd:
    json.dump(doc, fd, indent=1)
    fd.write("\n")
