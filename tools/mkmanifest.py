#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/build.py t0 core o1 && python3 tools/build.py t0 core asan", checks=[], not_applicable=[],
  notes="Every check: python3 tools/check.py <id> [--tier quick|thorough] [--seed N] [--replay FILE]. Checks mirror /repo/src into build/ and compile it from there; no hooks in /repo are needed.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
          evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["note"]))
    else: m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check has been built for it yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
