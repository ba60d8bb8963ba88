#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of built checks."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KERNEL = ("TLA+ (BTKernel): TLC checks the property in every reachable state of the listed trees; all its transitions and "
          "recorded random histories are compared with the real nodes")
T = {}


def check(id, technique, note, level="model_checking"):
    T[id] = dict(property=id, quick_cmd=f"./run.sh {id}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {id}",
                 technique=technique, level=level, level_note=note)


SMALL = ("Exhaustive for the listed small trees and scripted leaves on the model; the code is bound to the model by replaying its "
         "transitions (all of them, or a covering sample where the evidence says so) and by validating recorded random histories of "
         "larger trees. Trusts TLC and the harness' projection of node state.")
check("C01", "TLA+ (BTLifecycle): TLC on the protocol; every call of recorded executions validated as a trace of it",
      SMALL + " Random trees of all flow-control nodes and decorators with errors and forbidden answers are recorded call by call.")
for c in ("C02", "C03", "C04", "C05", "C23"):
    check(c, KERNEL, SMALL)
check("C06", "TLA+ (BTKernel, QuietTrace): TLC on mixed trees; recorded executions along its state graph judged by TLC",
      SMALL + " Only the quiescence property is judged on the recordings, not the operations' outcomes.")
check("C07", "TLA+ (BTKernel, ResetTrace): renewal from every reachable state, compared by TLC with a fresh tree",
      SMALL + " Equality of future behaviour is sampled with random suffixes.")

exec(open(os.path.join(HERE, "tools", "more_checks.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_checks.py")) else None

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = globals().get("NOT", {})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [T[i] for i in ids if i in T],
     "not_applicable": [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in T]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
