#!/usr/bin/env python3
"""rewrites MANIFEST.json from properties.jsonl and the checks that exist"""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
    "C12": "Exhaustive for the stated alphabet of operations and depth on real objects; trusts a fresh-object re-evaluation as the model.",
    "C17": "Exhaustive for the stated preemption bound at source-line granularity under the GIL; C-level interleavings inside one line are not explored.",
}
NOTE["C18"] = ("Exhaustive for the stated alphabets and history depth on a simulated second device that intercepts every tensor operation and enforces placement; "
    "trusts that its placement rules are those of real accelerators (checked in setup for the rules used).")
DEF = ("Every point of the stated finite space is executed on the real code and compared with an independent model; values outside the "
       "alphabets are not covered. Trusts mpmath and the boundary-condition model of mc/oracle.py, cross-validated in setup against scattnlay/treams.")
TECH = {
    "C12": "explicit-state model checking of the implementation: all operation histories to a bounded depth against a reference model",
    "C17": "stateless model checking: all thread interleavings up to a preemption bound under a controlled scheduler",
    "C18": "bounded exhaustive exploration of the implementation and of all move/evaluate histories on a simulated device (choice-tree enumeration, CPU run as the model)",
    "C08": "bounded exhaustive exploration of transformation sequences on the real code (choice-tree enumeration, differential oracle)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", "checks", i.lower() + ".py")):
        checks.append(dict(
            property=i,
            quick_cmd=f"./check.sh {i} --tier quick",
            thorough_cmd=f"./check.sh {i} --tier thorough",
            technique=TECH.get(i, "bounded exhaustive exploration of the implementation (choice-tree enumeration) against a reference model"),
            level="model_checking",
            level_note=NOTE.get(i, DEF),
        ))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks drive the public API of the working tree (PYTHONPATH=/repo/src). Exploration is exhaustive and deterministic; VERIF_SEED is recorded but nothing is sampled.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
