#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a checks/pNN.py, the others under not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "P30": "Bounds a rounding error that depends on the run-time magnitudes of the data; no sound static argument in reach bounds it (which representation is chosen is P26).",
 "P31": "A statement about running time on a given machine, not about anything the source determines.",
 "P32": "A statement about statistical properties of the numbers a pseudo-random engine delivers, a run-time quantity (shape, reproducibility and range of generated matrices are P25).",
 "P33": "The library contains no threads and no synchronisation at all and documents no guarantee for concurrent use; there is no lock discipline or ownership rule in the source that an analysis could compare the code with.",
}
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "checks_meta.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in TECH:
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                       "technique": TECH[i], "level": "other", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check compiles /repo's current headers and sources to LLVM IR and analyses that."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
