#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.abspath(__file__))
CHECKS = json.load(open(os.path.join(root, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the exported API (or the built command) of /repo's working tree; the concurrency check instruments a temporary copy of the sources through a build overlay. See DESIGN.md."}
for p in props:
    c = CHECKS.get(p["id"])
    if c is None or "na" in c:
        m["not_applicable"].append({"property": p["id"], "reason": (c or {}).get("na", "check not built yet")})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick ./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
