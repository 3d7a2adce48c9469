#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of checks in check.py"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(R, "check.py")).read()
have = set(re.findall(r'"(M\d\d)": \(', src))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
SPEC = {"M01": "LawSession.tla", "M02": "LawSession.tla", "M03": "LawSession.tla", "M17": "LawSession.tla", "M18": "LawSession.tla",
        "M04": "IidSession.tla", "M05": "DensitySession.tla and DensityPairs.tla", "M06": "DensitySession.tla and DensityPairs.tla", "M07": "MeasureTree.tla and Maps.tla", "M08": "Decomp.tla and Published.tla",
        "M09": "ExprSession.tla and ExprBuilders.tla", "M10": "ExprSession.tla and ExprJudge.tla", "M11": "ExprCache.tla and ExprCacheThreads.tla (behaviours replayed), ExprCacheTrace.tla (recorded threads validated)",
        "M12": "JitSession.tla", "M13": "Saturation.tla and ExprJudge.tla", "M14": "Tagless.tla and Reader.tla", "M15": "ExprSession.tla and Reader.tla", "M16": "BayesSession.tla",
        "M19": "SymbolicSession.tla", "M20": "Numeric.tla and Vectors.tla", "M21": "Transforms.tla"}
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "technique": f"TLA+ specification {SPEC[i]} checked with TLC; its behaviours replayed into the real code",
                   "level": "model_checking",
                   "level_note": "Every state of the bounded specification (thorough: larger bounds, more seeds) is an obligation the real code answers; "
                                 "the expected value is the specification's, exact rational arithmetic or a ground term evaluated with 60 digits, compared "
                                 "to a tolerance of a few rounding errors. Nothing is claimed for inputs outside the generated set."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction in this revision")} for p in props if p["id"] not in have]}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(m["not_applicable"]), "not")
