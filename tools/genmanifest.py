#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
plan = json.load(open(V + "/plan.json"))
checks = []
for p in sorted(plan, key=lambda x: ("RMBLGDA".index(x[0]), x)):
    builds = {b for b, _ in plan[p]["phases"]}
    tech = "runtime monitoring: " + plan[p]["technique"]
    if "race" in builds:
        tech += "; Go race detector with injected statement-level delays"
    elif "pert" in builds:
        tech += "; injected statement-level delays"
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run_check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p}",
        "technique": tech,
        "level": "exploration",
        "level_note": plan[p].get("note", "Observed executions of the real code only: violations that no generated workload or schedule provokes stay unseen. Trusted: the monitor's model of the property, the Go toolchain and (for races) its race detector."),
    })
json.dump({"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": []},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
