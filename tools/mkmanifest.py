#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
exec(open(H + "/tools/claims.py").read())   # CLAIMS: id -> (technique, level, note); NA: id -> reason; HOOK
m = {"version": 1, "setup_cmd": "./run.py --build", "hooks": HOOK, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.py " + i, "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the check is not built yet")})
if not HOOK: del m["hooks"]
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
