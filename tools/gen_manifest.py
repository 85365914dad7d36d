#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(p): NA = json.load(open(p))
NOTES = {}
p = os.path.join(V, "tools", "level_notes.json")
if os.path.exists(p): NOTES = json.load(open(p))
checks = []; na = []
for l in open(os.path.join(V, "properties.jsonl")):
    pr = json.loads(l); i = pr["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(os.path.join(V, "checks", i + ".py")):
        na.append({"property": i, "reason": "no check built yet"}); continue
    expl = 'level="exploration"' in open(os.path.join(V, "checks", i + ".py")).read()
    checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                   "technique": "contract-based deductive verification (contracts on the real code's IR, SMT-discharged obligations)" if not expl else
                   "contracts proved on the parts; bounded stand-in for the pool itself: the real code under a seeded scheduler with a race detector", "level": "exploration" if expl else "proof",
                   "level_note": NOTES.get(i, "Every obligation generated from the current sources is discharged by an SMT solver for all inputs; library leaf functions are replaced by assumed contracts, listed in the evidence file.")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses compile /repo's sources as they are. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
