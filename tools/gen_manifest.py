#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick bin/check " + i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": pl.get("technique", "TLA+ specification checked with TLC, bound to the code by trace validation"),
            "level": pl["level"],
            "level_note": pl.get("note", NOTES),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC; no hooks in /repo: the harness uses public interfaces only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
