#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.abspath(__file__))
CH = "deterministic simulation of the on-chain system (real program in the real SVM) with fault injection: seeded histories against a reference model"
OR = "deterministic simulation of the oracle service (real service loop on simulated time, RPC, feeds and chain) with fault injection: seeded schedules and fault sequences"
CL = "deterministic simulation of the operator's command line tool (real program) against a simulated node over the simulated chain, with fault injection: seeded histories against a reference model"
notes = {
 "cli": "Seeded random search over histories and fault sequences; nothing is exhaustive. The tool runs as its own process whose only inputs are its arguments and the simulator's answers; its clock is virtual.",
 "oracle": "Seeded random search over schedules, timings and fault sequences; nothing is exhaustive. The service is the unmodified source on replaced tokio/hyper/pubsub/laserstream facades under one simulated thread.",
 "default": "Seeded random search over histories and fault sequences; nothing is exhaustive. The program runs as native code in the real transaction processor, not as BPF.",
}
have_oracle = os.path.isdir(os.path.join(root, "sim/oraclesim"))
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    o = p in ("C13", "C14", "C15", "C16", "C17", "C18", "C24")
    if o and not have_oracle:
        na.append({"property": p, "reason": "the oracle-service simulator is not finished"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": OR if o else CL if p in ("C21", "C22") else CH,
        "level": "exploration",
        "level_note": notes["oracle" if o else "cli" if p in ("C21", "C22") else "default"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
