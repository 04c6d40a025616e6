#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs", "configurations"]), text=p["q"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        f.write(json.dumps(d) + "\n")
TECH = "bounded symbolic execution of the compiled kernels (GCC GIMPLE) with SMT (z3) deciding every assertion"
NOTE = ("Every obligation is decided by the solver for all real input values, on the patch sizes, ghost widths and options listed in "
        "the evidence; real arithmetic (rounding and overflow outside the claim). Trusted: GCC's front end and gimplification, the "
        "GIMPLE executor (cross-checked against the -O3 build on random inputs at every run), z3.")
na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="python3-vt tools/setup.py",
         checks=[dict(property=p["id"], quick_cmd="python3-vt check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + p["id"],
                      technique=p.get("technique", TECH), level="other", level_note=NOTE + (" " + p["note"] if "note" in p else "")) for p in P if p["id"] not in na],
         not_applicable=NA, notes="No hooks: the machinery reads /repo's sources as they are.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
