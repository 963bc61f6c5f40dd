#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records in bin/records.py (developer tool, not a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import records
TECH = "bounded symbolic execution of the compiled code (LLVM IR), assertions decided by SMT solvers (z3, cvc5)"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in records.RECORDS:
        f.write(json.dumps({"id": r["id"], "title": r["title"], "statement": r["statement"],
                            "quantifier": {"over": r.get("over", ["inputs"]), "text": r["quant"]},
                            "why_tests_cant": r["why"],
                            "anchors": {"files": r["files"], "mechanism": [{"name": a, "where": b} for a, b in r["mech"]], "hook_needed": None}}) + "\n")
checks, na = [], []
for r in records.RECORDS:
    if "na" in r:
        na.append({"property": r["id"], "reason": r["na"]})
        continue
    assert len(r["title"]) <= 80, r["id"]
    checks.append({"property": r["id"], "quick_cmd": f"python3 bin/vc.py check {r['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/vc.py check {r['id']}",
                   "technique": TECH, "level": "other",
                   "level_note": "Bounded: " + r["bounds"] + " Holds for all values within those bounds; floating point is modelled by exact reals; trusts clang's IR, the engine in engine/, the models in models/ and the solvers. Counterexamples are replayed natively before they are reported."})
json.dump({"version": 1, "setup_cmd": "python3 bin/vc.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Evidence: evidence/<id>.json. Known findings: known-findings.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
