#!/usr/bin/env python3
"""regenerate MANIFEST.json from contracts/registry.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "contracts")); sys.path.insert(0, os.path.join(R, "dv"))
from registry import PROPS, NOT_APPLICABLE
TECH = "contract-based deductive verification: pre/postconditions, representation invariants and loop invariants on the real functions; verification conditions generated from the LLVM IR of /repo's current source, discharged by z3/cvc5 for all inputs"
checks = []
for p in sorted(PROPS):
    d = PROPS[p]
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": d.get("technique", TECH), "level": d.get("level", "proof"), "level_note": d.get("note", "every obligation generated from the current sources must be discharged; unbounded in sizes, contents and histories (each operation preserves the representation invariant and meets its postcondition)") + ("".join("; bounded stand-in, not counted as proved: %s, %s" % (b["what"], b["bound"]) for b in d.get("bounded", [])))})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items()) if p not in PROPS]}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
