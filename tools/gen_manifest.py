#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the analyzer's table of checks (mocoverif list)."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
have = json.loads(subprocess.check_output([os.path.join(root, ".bin/mocoverif"), "list"]))
na = json.load(open(os.path.join(root, "tools/not_applicable.json")))
checks, not_app = [], []
for p in props:
    i = p["id"]
    if i in have:
        h = have[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": h["technique"], "level": "other", "level_note": h["note"]})
    else:
        not_app.append({"property": i, "reason": na.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": not_app,
     "notes": "One analyzer (analyzer/, Go, go/packages + go/ssa) decides every claimed property from the current source of /repo; see DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
