#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
CLAIMED = ["C%02d" % i for i in range(1, 27)]
NOTE = {}
GEN = ("Every obligation generated from the current source is discharged for all inputs, without bounds. Trusted: the "
       "verification-condition generator gocv (own code, on go/types and go/ssa), z3, and the standard-library models "
       "listed in the evidence under trusted_base.")
NA = {"C27": "a liveness property over blocking system and channel operations; contracts on calls say nothing about progress"}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CLAIMED: continue
    checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                       technique="contract-based deductive verification of the real Go source (weakest-precondition style VCs from go/ssa, SMT)",
                       level="proof", level_note=(NOTE.get(i, "") + " " + GEN).strip()))
na = [dict(property=i, reason=NA.get(i, "not claimed yet: contracts under construction")) for i in ids if i not in CLAIMED]
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
