#!/usr/bin/env python3
"""Writes MANIFEST.json from flavors.txt and properties.jsonl."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "plain": "property-based testing: generated call sequences against a reference model, with shrinking",
 "sched": "property-based testing: generated programs and generated schedules (deterministic scheduler), history oracle, with shrinking",
}
fl = {}
for l in open(os.path.join(root, "flavors.txt")):
    w = l.split()
    if w: fl[w[0]] = w[1:]
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in fl:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": " + ".join(T[f] for f in fl[i]),
            "level": "exploration",
            "level_note": notes.get(i, "Random structured search with a fixed number of cases per run; shows presence, not absence, of violations."),
        })
    else:
        na.append({"property": i, "reason": notes.get("na:" + i, "No check has been built for it yet.")})
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if "verif hook" in c]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {
  "guard": "cfg(scc_verif)",
  "enable": "RUSTFLAGS='--cfg scc_verif' with feature loom and [patch.crates-io] loom = /verif/loom-shim (see b.sh sched)",
  "source_commits": hooks,
 },
 "checks": checks,
 "not_applicable": na,
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
