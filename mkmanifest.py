#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from plan import PLAN, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Decided for all values of the symbolic inputs within the stated bounds on the compiled code of /repo's working tree (LLVM IR, opt-level 1, "
        "overflow checks on); bounds and what is outside them are in the evidence file and DESIGN.md. Trusted: zsym's IR semantics (recorded paths are replayed "
        "natively and must agree), z3, rustc. ")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 check.py " + p,
            "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": PLAN[p].get("technique", "bounded symbolic execution of the compiled code (LLVM IR), path conditions and assertions decided by z3"),
            "level": "model_checking",
            "level_note": NOTE + PLAN[p].get("note", ""),
        }
        for p in ids if p in PLAN
    ],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in ids if p not in PLAN],
    "notes": "No hooks in /repo: the harnesses use the public API only. known_findings.json lists the defects found and repaired.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
