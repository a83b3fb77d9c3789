#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (only properties that have a check are claimed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification model-checked with TLC; its behaviours replayed into the real code and compared"
from notes import NOTES, NA
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in suites.CHECKS:
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"python3 run/check.py {p}", "thorough_cmd": f"env VERIF_TIER=thorough python3 run/check.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": tech or T, "level": suites.LEVELS[p], "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet: being built")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. No hooks in /repo: the harness in /verif/harness binds the specification to the library's public API and to the real command line tool compiled from /repo/src/main.rs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
