#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and pbt/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "pbt"))
import checks as C
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in C.CHECKS:
        s = C.CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 pbt/run.py %s quick" % p, "thorough_cmd": "python3 pbt/run.py %s thorough" % p,
                       "technique": s.get("technique", "property-based testing: generated formats and operands against an exact reference model"),
                       "level": "exploration",
                       "level_note": s.get("note", "Generated-input search with complete enumeration of small formats where stated in the evidence; a pass says no counterexample among the cases counted. Trusts the reference model in pbt/ref.hpp and the compilers.")})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p, "reason": C.NA.get(p, "check not built yet")} for p in props if p not in C.CHECKS],
     "notes": "Every check rebuilds from /repo's working tree in a scratch directory. Replay: python3 pbt/run.py --replay FILE."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
