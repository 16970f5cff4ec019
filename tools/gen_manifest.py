#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and tools/config.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import config
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.P:
        e = config.P[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded schedule and fault search, minimised replay)",
            "level": e["level"], "level_note": "Sampled, not exhaustive: seeded search over interleavings and faults of the real code under the simulator (scenario " + ", ".join(e["scen"]) + "). " + " ".join(config.NOTE.get(i, "").split()) + " Assumes: " + "; ".join(config.ASSUME + e["extra"]) + "."})
    else: na.append({"property": i, "reason": config.NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the libc/libpthread symbols, which the simulator executable defines itself, and compiler instrumentation of memory accesses."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks", len(na), "not applicable")
