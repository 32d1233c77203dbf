#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(home + "/properties.jsonl")]
NA = {}
NOTE = ("Proof, for all inputs, of contracts on the functions of the current working tree: verification conditions are "
        "generated from go/ssa of /repo on every run and discharged by z3 and cvc5. Assumes real-number arithmetic for float64, "
        "the listed preconditions and the trusted library contracts named in the evidence file.")
checks, na = [], []
for p in props:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "contract-based deductive verification (weakest-precondition style symbolic execution of the Go SSA, SMT back ends)",
                   "level": "proof", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks were needed in /repo."}
json.dump(m, open(home + "/MANIFEST.json", "w"), indent=1)
open(home + "/MANIFEST.json", "a").write("\n")
