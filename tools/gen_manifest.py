#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C21": "Optimality of the heuristics is probabilistic and asymptotic (distribution of measurement outcomes, convergence of non-convex ADMM); no contract on one call expresses or decides it.",
 "C22": "Reading and writing LP files is done by CPLEX/docplex's closed-source number formatting and parser; with an assumed contract on both the property reduces to C11 (docplex import/export), and nothing of /repo's own code is left to verify.",
}
try:
    from level_notes import NOTES
except ImportError:
    NOTES = {}
checks = []
for k in range(1, 21):
    pid = "C%02d" % k
    proof = os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py"))
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "contract-based deductive verification of the real Python functions (symbolic execution + z3)" if proof
                     else "contracts evaluated at run time on the real functions (bounded stand-in)",
        "level": "proof" if proof else "exploration",
        "level_note": NOTES.get(pid, "Contracts on the real functions are evaluated on generated inputs; bounded, not a proof." if not proof else
                      "Obligations generated from /repo's source on every run are discharged for all inputs; functions outside the verifier's reach are listed as bounded in the evidence."),
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
           "notes": "No hooks in /repo. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
