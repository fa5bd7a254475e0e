#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.SPECS."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import specs
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        level, tech, note = specs.META.get(i[:3], specs.META["default"])
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i,
                           thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 -m py_compile bin/check.py bin/specs.py && g++ --version && clang++ --version",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks compile the library headers from /repo/src/include as they are.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
