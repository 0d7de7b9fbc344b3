#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a scenario in scn/ is claimed, the rest are listed with a reason."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
import sys
sys.path.insert(0, HERE)
from config import NOTES
NA = {
    "C28": "Containers are single-threaded pure data structures: no schedule, time, I/O or second party can change their result, so simulation has nothing to control (their use under concurrency is covered through C06-C11, C20-C24).",
    "C29": "Formatting is a pure function of its arguments: no schedule, clock, I/O or fault for a simulator to decide.",
    "C30": "Vector and SIMD mathematics are pure functions of their inputs: no schedule, clock, I/O or fault for a simulator to decide.",
    "C31": "Box, Rc, Opt, Variant, Tuple and Function are single-threaded values: no schedule, time, I/O or fault can influence them (the concurrent one, Arc, is C07).",
    "C32": "The Windows and macOS sources need those systems' headers and cannot be compiled or run in this sandbox.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na, ids = [], [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "scn", i + ".cpp")):
        ids.append(i)
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: seeded search over schedules, faults and workloads",
            level="exploration",
            level_note=("Samples seeded executions of the real library code; a clean batch is evidence, not proof. " + NOTES.get(i, "")).strip() +
            " Trusts the simulated operating system (sim/), the scenario's oracle, and sequentially consistent interleaving of instrumented accesses.",
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Not claimed yet: no scenario has been built for it.")))
m = dict(version=1, setup_cmd="python3 check.py --build " + " ".join(ids), checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are the C library and system calls, the compiler's memory-access instrumentation and the inputs the library already takes. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
