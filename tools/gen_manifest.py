#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl (run: python3 tools/gen_manifest.py)."""
import json, subprocess
props = [json.loads(l) for l in open('properties.jsonl')]
DONE = {"C%02d" % i for i in range(1, 42)}
TECH = json.load(open('tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in DONE:
        na.append({"property": i, "reason": "its generated-input check is still being built"})
        continue
    t = TECH[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": t["technique"],
        "level": "exploration",
        "level_note": t["note"],
    })
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(rerecast_verif)", "enable": "RUSTFLAGS=--cfg rerecast_verif (set by tools/env.sh)", "source_commits": hooks},
    "checks": checks,
    "not_applicable": na,
    "notes": "Property-based testing with a shrinking choice-tape engine (lib/pbt) and reference models of Recast (lib/refmodel). check.sh <ID> rebuilds the harness against /repo and runs one property; replay.sh <file> re-runs a stored counterexample. known_findings.json lists repaired and recorded defects.",
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write("\n")
