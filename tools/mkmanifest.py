#!/usr/bin/env python3
"""Write MANIFEST.json from units.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import units
old = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {n["property"] for n in old["not_applicable"]}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in na:
        continue
    us = units.UNITS.get(p, [])
    full = bool(us) and p not in units.PARTIAL
    if us:
        tech = "contract-based deductive verification: Verus contracts on the extracted functions" + ("" if full else " for part of the statement, bounded execution of the contracts on the real crate for the rest")
        note = units.NOTES.get(p, "") or ("every obligation of units %s discharged for all inputs; bounded execution of the real crate cross-checks the trusted base" % ", ".join(us))
        if units.GAPS.get(p):
            note += " Not reached by the contracts (bounded only): " + "; ".join(units.GAPS[p]) + "."
    else:
        tech = "contracts executed as oracles on the real crate (bounded stand-in for deductive verification)"
        note = units.NOTES.get(p, "") or "bounded: the contracts are executed on the real crate over an enumerated and seeded input space; not a proof"
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "technique": tech, "level": "proof" if full else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": old["not_applicable"]}
if old.get("notes"):
    m["notes"] = old["notes"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
