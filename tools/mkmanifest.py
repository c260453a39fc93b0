#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/checks.txt."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
runs = {}
for l in open(os.path.join(root, "harness", "checks.txt")):
    bound = l.split("#", 1)[1].strip() if "#" in l else ""
    f = l.split("#", 1)[0].split()
    if f: runs.setdefault(f[0], []).append((f[1], f[2], bound))
checks = []
for p in props:
    r = runs.get(p["id"], [])
    if not r: continue
    hs = sorted({h for _, h, _ in r})
    checks.append(dict(property=p["id"],
        quick_cmd=f"bash check.sh {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",
        technique="symbolic execution of the real code's go/ssa form with SMT (cvc5, z3)",
        level="model_checking",
        level_note=("Bounded: within the bounds listed in harness/checks.txt and the evidence file the solver shows every assertion of "
            + ", ".join(hs) + " for all symbolic inputs on every path, against a reference model written in the harness; "
            "every violation is replayed natively against the real code before it is reported. "
            "Trusts the SSA interpreter (validated per run by native replay of solver models), the SMT solvers and the assumptions listed in the evidence; nothing is claimed beyond the bounds.")))
na = [dict(property=p["id"], reason="no check registered yet") for p in props if p["id"] not in runs]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the engine reads /repo's source through go/ssa on every run; the commits in /repo are repairs of genuine defects (known_findings.txt).")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
