#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directories."""
import json, os, sys
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(verif + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    d = f"{verif}/harness/{p['id']}"
    if os.path.isdir(d):
        bounds = open(d + "/bounds.txt").read().strip()
        note = "Holds for every value within these bounds, on the code compiled from /repo at each run; nothing is claimed outside them. " + bounds
        if os.path.exists(d + "/assumptions.txt"):
            note += " Assumes: " + open(d + "/assumptions.txt").read().strip()
        note += " Trusts the engine's Go SSA semantics, its models of the runtime and operating system calls, and z3; counterexamples are replayed natively before they are reported."
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": "bounded symbolic execution of the real code's Go SSA, decided by an SMT solver (z3); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": " ".join(note.split()),
        })
    else:
        reasons = json.load(open(verif + "/tools/not_applicable.json")) if os.path.exists(verif + "/tools/not_applicable.json") else {}
        na.append({"property": p["id"], "reason": reasons.get(p["id"], "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}
json.dump(m, open(verif + "/MANIFEST.json", "w"), indent=1)
open(verif + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
