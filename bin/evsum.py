#!/usr/bin/env python3
"""prints the slow parts of an evidence file"""
import json, sys
d = json.load(open(sys.argv[1]))
for r in d["coverage"]["runs"]:
    print(r["run"], "compile", r["compile_s"], "run", r["run_s"], "incomplete", r.get("incomplete"))
    for s in r.get("scenarios", []):
        if s["s"] > float(sys.argv[2] if len(sys.argv) > 2 else 2) or not s["exhausted"]:
            print("   ", s["scenario"], "pre", s["preemptions"], "sched", s["schedules"], "exh", s["exhausted"], s["s"], s["limit"])
