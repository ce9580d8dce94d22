#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in mc/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "model checking: exhaustive bounded enumeration of inputs and configurations on the real code against an independent reference model",
    "C01": "model checking: explicit-state search over all strings and all moves on the real code, each transition compared with a second-quantized reference model",
    "C19": "model checking: exhaustive enumeration of a parameter lattice on the real code against high-precision decimal arithmetic",
    "C21": "model checking: the random source is replaced by an enumerator that drives every unit draw; exact symmetry oracle",
    "C25": "model checking: exhaustive enumeration of call sequences up to the depth bound with caller mutations between calls, replayed on the real code",
    "C26": "model checking: stateless exploration of real threads under a controlled line-level scheduler, all schedules up to the preemption bound",
    "C27": "model checking: exhaustive enumeration of backend and storage configurations on the real code, differential oracle",
    "C28": "model checking: exhaustive enumeration of a lattice of model systems and orbital sets, every route through the real code iterated to convergence and compared with exact diagonalization",
    "C29": "model checking: exhaustive enumeration of elementary orbital changes, shapes and functions on the real code, covariance as oracle",
    "C30": "model checking: exhaustive enumeration of fragment pairs and orbital orders on the real code, values of the fragments alone as oracle",
}
NOTE = ("Every member of the bound named in the evidence is executed on the real code and compared with the reference model; "
        "assumes floating-point agreement to the stated tolerance and trusts the reference model in /verif/mc.")
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "mc", "checks", i.lower() + ".py")):
        checks.append({"property": i, "level": "model_checking",
                       "technique": TECH.get(i, TECH["default"]),
                       "quick_cmd": "bash check.sh %s --tier quick" % i,
                       "thorough_cmd": "bash check.sh %s --tier thorough" % i,
                       "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check under construction"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash check.sh selftest", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
