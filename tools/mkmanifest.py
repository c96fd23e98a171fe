#!/opt/venv/bin/python
"""MANIFEST.json from the registered contracts"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import check
from vc import unit
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    us = check.components() if p["id"] == check.ISO else [u for u in unit.REG.values() if p["id"] in u.props]
    if not us: na.append({"property": p["id"], "reason": NA.get(p["id"], "contracts for this property are not written yet")}); continue
    b = sorted({x for u in us for v in u.depends() for x in getattr(v, "bounded", ())})
    note = "Every %sobligation of the contracts on %s is discharged by z3/cvc5 from /repo's current source, for all inputs, sizes and call histories." % ("frame " if p["id"] == check.ISO else "", ", ".join(sorted({u.path for u in us if u.path})))
    if b: note += " Enumerated or bounded: " + "; ".join(b) + "."
    note += " Assumes exact arithmetic (floats as rationals, integers unbounded), the executor's reading of Python/torch, and the listed library contracts; a concrete replay of the same contracts on the real torch code runs beside it and is not counted."
    checks.append({"property": p["id"], "quick_cmd": "/opt/venv/bin/python check.py %s" % p["id"], "thorough_cmd": "/opt/venv/bin/python check.py %s --thorough" % p["id"],
                   "technique": "contract-based deductive verification (contracts on the real functions, SMT-discharged obligations)", "level": "proof", "level_note": note, "evidence_file": "evidence/%s.json" % p["id"]})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo is read as it is. check.py --replay FILE reruns a recorded witness; known_findings.txt lists genuine defects."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
