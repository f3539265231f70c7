#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(H, "checks"))
import plan
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        c = plan.PLAN[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i, "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                       "technique": c.get("technique", "TLA+ specification (TLC): random behaviours of the specification replayed step by step into the implementation"),
                       "level": c.get("level", "model_checking"), "level_note": c.get("note", "bounded exploration: behaviours drawn by TLC from the specification, each call's outcome and data compared with it")})
    else: na.append({"property": i, "reason": plan.NA.get(i, "the specification for it is still being written")})
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "hooks": {"guard": "VERIF_BUILD", "enable": "none needed: the checks compile /repo's sources with -DVERIF_BUILD, but no source uses it; instrumentation is by linker wrapping and compiler flags", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "Language: TLA+ with TLC. See DESIGN.md. known-findings.txt lists the defects found."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
