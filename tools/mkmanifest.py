#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are and the properties listed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in NOTES["checks"]:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": "TLA+ specification checked with TLC, bound to the code by replayed behaviours and trace validation",
                       "level": "model_checking", "level_note": NOTES["checks"][i]})
    else:
        na.append({"property": i, "reason": NOTES["not_applicable"].get(i, "no check built for it yet")})
json.dump({"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
