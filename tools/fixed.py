#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT…: records fix commits of /repo in known-findings.json"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "known-findings.json")
k = json.load(open(f))
for c in sys.argv[2:]:
    h, s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], stdout=subprocess.PIPE, text=True, check=True).stdout.strip().split(" ", 1)
    e = "fixed: property=%s %s %s" % (sys.argv[1], h, s[5:])
    if e not in k["fixed"]: k["fixed"].append(e)
json.dump(k, open(f, "w"), indent=1, ensure_ascii=False)
