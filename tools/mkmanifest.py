#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Seeded search over simulated histories, nothing is enumerated completely: a violation that was not sampled is not seen. "
        "Trusted: the reference model sim/truth.cc on FLINT/GMP, the stand-ins for the empty submodules (unique-factory, spimpl, hash-combine, gmpxxll), the simulator. ")
EXTRA = {
    "C02": "Balls are judged against enclosures of the exact value from an independent evaluation.",
    "C11": "The arithmetic itself has no schedule; what the simulation varies is the history of a population of floats with aliasing, moves and swaps, addresses and stale memory, checked against an exact integer model after every step.",
    "C12": "As for C11, with sample points of every ball tracked through every operation.",
    "C17": "What the simulation varies is which of the requested numbers are alive, the order of requests, restarts and allocation failures.",
    "C18": "What the simulation varies is the history of the values converted, caches of approximations and allocation failures.",
    "C19": "Hashes of equal values reached along different histories of operations are compared.",
}
SKIP = set(os.environ.get("SKIP", "").split())
checks, na = [], []
for p in props:
    i = p["id"]
    if i == "C20":
        na.append({"property": i, "reason": "The Python layer needs cppyy and SageMath, neither of which is installed here; nothing of it can be executed, in a simulator or otherwise."})
        continue
    if i in SKIP:
        na.append({"property": i, "reason": "The check is being built."})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": "deterministic simulation with fault injection: seeded search over histories, interleaved clients, heaps, allocation failures and restarts against an exact reference model",
                   "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
    if i in ("C14", "C10"):
        checks[-1]["technique"] = "deterministic simulation with fault injection: seeded search over thread schedules (a switch possible at every access to shared memory) with a data race detector, and histories against an exact reference model"
    if i in ("C07", "C08", "C09", "C13"):
        checks[-1]["technique"] = "deterministic simulation with fault injection: seeded search over histories, simulated disk and stream failures, crashes and restarts in fresh processes against an exact reference model"
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: the seams are link-time (operator new, GMP/FLINT allocators, the unique-factory submodule, std::streambuf, thread sanitizer callbacks)."}, open(V + "/MANIFEST.json", "w"), indent=1)
