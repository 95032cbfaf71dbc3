#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and the modules present (run by hand after changes)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
NA = json.load(open(f"{H}/not_applicable.json"))
NOTE = json.load(open(f"{H}/level_notes.json"))
checks = []
for l in open(f"{H}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    a = os.path.exists(f"{H}/targets/{p}.py")
    assert a or os.path.exists(f"{H}/replay/{p}.py"), p
    checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick",
                   "thorough_cmd": f"python3-vt check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": ("contract-based deductive verification of the LLVM IR of the real sources (VCs by irv, z3/cvc5)"
                                 " with native replay for failing inputs") if a else
                   "bounded stand-in for contracts out of the verifier's reach: exhaustive boundary and seeded replay of the real code",
                   "level": "proof" if a else "exploration", "level_note": NOTE[p]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks: the sources are verified as they are. See DESIGN.md."}, open(f"{H}/MANIFEST.json", "w"), indent=1)
