#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from targets import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C20": "Verification is a pure single-threaded function of its input bytes: no schedule, clock, I/O or other party for a simulator to control (its behaviour under concurrency and failing allocations is part of C14 and C15).",
 "C21": "Serialization is a pure function: nothing for a deterministic simulator to schedule or fault.",
 "C22": "Discriminant derivation is a pure function of seed and size: nothing to schedule or fault (concurrent use is part of C14).",
}
NOTES = {}
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        if i not in NA: NA[i] = "Not claimed yet: its simulation is still being built."
        continue
    c = {"property": i, "quick_cmd": "python3 run.py --property %s --tier quick" % i, "thorough_cmd": "python3 run.py --property %s --tier thorough" % i,
         "technique": "deterministic simulation with fault injection: " + CHECKS[i].get("technique", "seeded schedules and faults over whole sessions against a reference model"),
         "level": "exploration",
         "level_note": "Seeded search over schedules and faults, each run exactly repeatable; no proof of absence. Assumes: " + "; ".join(CHECKS[i]["assumptions"]) + "."}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 run.py --build-only",
     "hooks": {"guard": "CHIAVDF_SIM", "enable": "run.py compiles /repo/src with -DCHIAVDF_SIM (see targets.py)", "source_commits": open(V + "/tools/hook_commits.txt").read().split()},
     "checks": checks, "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)],
     "notes": "Every check rebuilds the simulator from /repo's working tree. Replay files are written to build/replays."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")
