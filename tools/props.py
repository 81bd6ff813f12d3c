#!/usr/bin/env python3
"""helper: set fields of properties.jsonl lines (or add lines) from a python dict file given on stdin"""
import json, sys, os
F = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/properties.jsonl"
P = [json.loads(l) for l in open(F)]; d = {p["id"]: p for p in P}
for u in eval(sys.stdin.read()):
    if u["id"] in d: d[u["id"]].update(u)
    else: d[u["id"]] = u
with open(F, "w") as f:
    for k in sorted(d): f.write(json.dumps(d[k]) + "\n")
