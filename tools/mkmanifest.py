#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOTYET
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check " + i,
                       "technique": tech, "level": level, "level_note": note})
na = [{"property": p["id"], "reason": NOTYET.get(p["id"], "no check registered for it (yet)")} for p in props if p["id"] not in CLAIMS]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 bin/setup",
     "hooks": {"guard": "CHIAVDF_VERIF", "enable": "the checks compile /repo's sources themselves with -DCHIAVDF_VERIF=1 (lib/vlib.py Check.build)", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
