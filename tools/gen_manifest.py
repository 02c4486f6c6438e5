#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties which have a check."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
GRAPH = "seeded search over interleavings of control and audio side of the real graph, with injected faults; refinement against a reference model"
GRAPH_NOTE = ("Randomised: the property held in every simulated run. Interleavings are explored at the granularity of the hooks in /repo "
              "(between the steps of a commit and of a block, before channel operations) under sequential consistency; "
              "the lock-free queues (rtrb) are trusted to be linearizable. Probe nodes stand in for DSP code.")
TECH = {}
NOTE = {}
NA = {}
exec(open(here + "/claims.py").read())
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "deterministic simulation: " + TECH.get(i, GRAPH),
        "level": "exploration",
        "level_note": NOTE.get(i, GRAPH_NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "cd sim && cargo build --offline",
    "hooks": {
        "guard": "cfg(knaster_sim)",
        "enable": "RUSTFLAGS --cfg knaster_sim, set in sim/.cargo/config.toml",
        "source_commits": HOOKS,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds the simulator in sim/ against /repo's working tree. A violation's replay file can be run with: cd sim && ./target/debug/knsim replay FILE",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
