#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenarios the simulator has."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
scen = open(f"{here}/sim/src/scen.rs").read()
have = set(re.findall(r'"([A-Z]\d\d)"', re.search(r"PROPS[^;]*;", scen).group(0)))
sdk = set(re.findall(r"^  (C\d\d):", open(f"{here}/sdksim/scen.mjs").read(), re.M))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/check.sh {i} quick",
            "thorough_cmd": f"bash tools/check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults of the real server, judged by a reference oracle over the recorded history",
            "level": "exploration",
            "level_note": "Holds on every simulated run explored (counts in the evidence file); a sample of schedules, fault sequences and client programs, not all of them. Trusts the interposed kernel interface (scheduler, clock, sockets, files), the history oracle, and the process-crash model (completed writes survive a kill).",
        })
    elif i in sdk:
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/check.sh {i} quick",
            "thorough_cmd": f"bash tools/check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, network faults and clock jumps of the real TypeScript SDK against a model server, judged by an oracle over the recorded history",
            "level": "exploration",
            "level_note": "Holds on every simulated run explored (counts in the evidence file); a sample of programs, schedules and fault sequences, not all of them. Trusts the simulated sockets, timers and clocks, the model server (it speaks the protocol of the real one), the history oracle, and Node's own promise scheduling.",
        })
    else:
        na.append({"property": i, "reason": "The simulator's scenarios and oracle for this property are not built yet."})
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Two simulators: the server (sim/) and the TypeScript SDK (sdksim/); no hooks in /repo: the seams are the libc calls below the runtime and compiler-inserted basic-block callbacks. See DESIGN.md."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
