#!/usr/bin/env python3
"""Merges the parts written by the harness binaries into evidence/<property>.json."""
import json, os, sys
prop, tier, seed, rc = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
root = os.environ["VERIF_ROOT"]
parts = [json.load(open(p)) for p in sys.argv[5:]]
if not parts:
    sys.exit(1)
rules = []
for p in parts:
    if p["rule"] not in rules:
        rules.append(p["rule"])
known = {}
for p in parts:
    for k, v in p.get("known", {}).items():
        known[k] = known.get(k, 0) + v
ev = {
    "property": prop, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": {
        "evaluations": sum(p["evaluations"] for p in parts),
        "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
        "rule": " // ".join(rules),
        "samples": [s for p in parts for s in p["samples"]],
        "suites": [s for p in parts for s in p["suites"]],
        "known_findings_hit": known,
    },
    "assumptions": [
        "The harness crates are built from /repo's working tree with the toolchain of its own build; dependencies (saa, sdd) are taken as they are.",
        "Schedules are sequentially consistent interleavings at the granularity of atomic operations, lock operations and user code; R01 additionally checks happens-before.",
        "Only explored cases are covered: bounded numbers of threads, operations and entries per case.",
    ],
    "violations": sum(p["violations"] for p in parts),
    "wall_s": sum(p["wall_s"] for p in parts),
}
json.dump(ev, open(os.path.join(root, "evidence", prop + ".json"), "w"), indent=1)
