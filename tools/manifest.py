#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n[0], "level": "model_checking", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the public interfaces of the crates and the command line tools are enough. Every check builds what it needs from /repo by itself."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
