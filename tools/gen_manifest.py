#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
LV = {}
exec(open(V + "/tools/levels.py").read()) if os.path.exists(V + "/tools/levels.py") else None
checks = []
for i in ids:
    level, tech, note = LV.get(i, ("exploration", "bounded differential search against an independent oracle", "Bounded stand-in only: no contract yet."))
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [], "notes": "No hooks in /repo: crate-private functions are reached through a mechanical copy of the crate (vlib/build.py) and through extraction of their source text."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
