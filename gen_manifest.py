#!/usr/bin/env python3-vt
"""Rewrites MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dbcv import registry

NA = {}

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in registry.PROPS:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt check.py %s" % p["id"],
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "contract-based deductive verification: weakest-precondition style VC generation over rustc MIR of the real functions, callee contracts at calls, discharged by z3/cvc5; failed obligations replayed on the compiled code",
        "level": "proof",
        "level_note": registry.PROPS[p["id"]].note or "Every obligation generated from the current tree's MIR is discharged for all inputs (no bound); partial correctness. Trusts rustc's MIR, the VC generator in dbcv/, the solvers, and the listed external functions.",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks read the MIR of the unmodified sources; the replay harness is appended to a scratch copy", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "not built yet")} for p in props if p["id"] not in registry.PROPS],
     "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
