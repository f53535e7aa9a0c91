#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import checks
NA = {
    "N01": "built-in functions are pure functions of their arguments: no schedule, time, I/O, randomness, allocation failure or other party for a simulator to control (a plain input/output oracle would be another technique)",
    "N02": "factor algebra is a pure computation on its inputs; there is nothing for a simulator to schedule or fail",
    "N03": "array views are pure index arithmetic; no concurrency, time, I/O or faults involved",
    "N04": "model decomposition is a pure function of the model; simulation of P10/P15/P16/P18 exercises it only as part of dual decomposition",
    "N05": "the transportation solver and the LP constraint functions are pure functions of their inputs",
    "N06": "the external solvers (CPLEX, Gurobi, QPBO, MRF, libDAI, ...) are not installed and cannot be fetched, so no binding can be compiled or run here",
    "N07": "the Python (boost-python, numpy C API) and Matlab interfaces cannot be built here, and they are thin pure wrappers",
}
out = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "hooks": {"guard": "OPENGM_VERIF", "enable": "no hook was needed: the seams are the visitor and function-type template parameters, operator new/malloc, rand, the clock functions and the POSIX calls below libhdf5, all replaced at link time", "source_commits": []}, "checks": [], "not_applicable": []}
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        out["checks"].append({"property": p, "quick_cmd": "python3 run_check.py %s --tier quick" % p, "thorough_cmd": "python3 run_check.py %s --tier thorough" % p,
                              "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": "exploration", "level_note": c["level_note"]})
    else:
        out["not_applicable"].append({"property": p, "reason": NA.get(p, "not claimed yet: no check built so far")})
json.dump(out, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
