#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/jobs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools")
from jobs import JOBS, META, NA
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = dict(version=1, setup_cmd="engine/build.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in JOBS:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="bounded symbolic execution of the library's LLVM bitcode with Z3 (own engine), counterexamples replayed natively", level="model_checking", level_note=META[i]["note"] or "bounded; see DESIGN.md"))
    else: m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
