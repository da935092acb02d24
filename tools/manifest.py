#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
CLAIMED = json.load(open(os.path.join(here, "claimed.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in CLAIMED: continue
    c = CLAIMED[p]
    checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
                   "technique": c[0], "level": "exploration", "level_note": c[1]})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "--cfg sr_verif (RUSTFLAGS); --cfg sr_verif_host for the browser bindings", "enable": "RUSTFLAGS='--cfg sr_verif' cargo build, done by run.sh for the harness crates that need it", "source_commits": CLAIMED.get("_hook_commits", [])},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check built yet"} for p in ids if p not in CLAIMED]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
