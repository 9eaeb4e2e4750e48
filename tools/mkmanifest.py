#!/usr/bin/env python3
"""Refreshes technique and level notes of /verif/MANIFEST.json from notes.py."""
import json, os
from notes import NOTES
from deduct import LEVEL
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
m = json.load(open(p))
for c in m["checks"]:
    i = c["property"]
    c["technique"] = "contract-based deductive verification of the real code (Kani/CBMC, Verus, lvc over the crate's LLVM IR with z3); bounded stand-in where no contract reaches"
    if i in ("C15",):
        c["technique"] = "bounded stand-in (no contract within reach); deductive stage empty"
    c["level"], c["level_note"] = LEVEL.get(i, "other"), NOTES[i]
json.dump(m, open(p, "w"), indent=1)
open(p, "a").write("\n")
