#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a scenario in sim/."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(root + "/sim/*.go"))
claimed = set(re.findall(r'Prop: "(C\d+)"', src))
PENDING = "not claimed: the check for this property is not finished"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append(dict(property=i,
            quick_cmd=f"./check.sh check {i} quick", thorough_cmd=f"./check.sh check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="deterministic simulation with fault injection: seeded search over goroutine schedules, network behaviour and faults, checked against a reference model",
            level="exploration",
            level_note="The unmodified code of /repo runs in one process under a simulated scheduler, clock, network and random source; each seed is one repeatable execution. Assurance is that of the executions searched, not a proof. Trusted: the patched Go runtime scheduler, the simulated network, the scripted peers' own codec and the reference model in sim/."))
    else:
        na.append(dict(property=i, reason=PENDING))
json.dump(dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na,
    notes="No hooks are needed in /repo: the build overlays a copy of its non-test sources with preemption points, and the Go runtime's scheduler with a seeded one. /repo carries fix: commits only, listed in known-findings.txt."),
    open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
