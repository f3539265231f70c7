#!/usr/bin/env python3
"""Builds every variant and driver once, and lets the syntax of every specification be checked."""
import glob, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(H, "lib")); sys.path.insert(0, os.path.join(H, "checks"))
import build, plan
need = {}
for p in plan.PLAN.values():
    for j in p["jobs"]("quick", 1):
        if "variant" in j: need.setdefault(j["variant"], set()).add(j["exe"])
for v, e in sorted(need.items()): build.build(v, sorted(e))
bad = 0
for f in sorted(glob.glob(os.path.join(H, "spec", "*.tla"))):
    r = subprocess.run(["tla-sany", os.path.basename(f)], cwd=os.path.join(H, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: print(f, r.stdout[-800:]); bad = 1
sys.exit(bad)
