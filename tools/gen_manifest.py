#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED maps a property to what its check assures."""
import json, os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the Go SSA form with an SMT solver (bit-vectors), counterexamples replayed natively"
BASE = ("Every path of the encoded functions within the bounds is decided by the solver for all input values; "
        "math/big, fmt and strconv are replaced by models that every path is cross-checked against on one witness. ")
CLAIMED = {}
exec(open(os.path.join(D, "tools", "claims.py")).read())

checks = []
for p in sorted(CLAIMED):
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH,
        "level": "model_checking",
        "level_note": BASE + CLAIMED[p],
    })
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet")} for p in props if p not in CLAIMED]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harnesses reach /repo through an overlay, /repo itself carries only fix: commits."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
