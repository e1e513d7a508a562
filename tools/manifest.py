#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the check modules that exist."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {os.path.basename(p)[:-3] for p in glob.glob(os.path.join(V, "checks", "C*.py"))}
TECH = {"C10": "ThreadSanitizer on the real kernels with a pthread OpenMP runtime, plus result comparison over thread counts and schedules",
        "C12": "AddressSanitizer and UndefinedBehaviorSanitizer builds of the kernels driven through the public API with boundary workloads"}
checks = []
for p in props:
    if p["id"] not in have:
        continue
    src = open(os.path.join(V, "checks", p["id"] + ".py")).read()
    checks.append(dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=TECH.get(p["id"], "runtime monitoring: independent reference oracles observing generated executions of the real code"),
        level="exploration",
        level_note="No counterexample in the executions observed (counts in the evidence file); trusts numpy, the compiler and the reference "
                   "definitions in the check. Inputs outside the generators' bounds are not covered."))
na = [dict(property=p["id"], reason="no check yet") for p in props if p["id"] not in have]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: kernels are rebuilt from the working tree with sanitizers, everything else is observed from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "without")
