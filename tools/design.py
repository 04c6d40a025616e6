#!/usr/bin/env python3
"""writes DESIGN.md (python3-vt)"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
sys.dont_write_bytecode = True
from props import P, NA
from symx import runner
runner.load_specs()
out = [open(V + "/tools/design_head.md").read()]
for p in P:
    ss = [s for s in runner.SPECS if p["id"] in s["props"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Oracle: the statement in properties.jsonl, written as a formula per obligation; inputs/quantifier: %s.\n" % p["q"])
    k = [s["name"] for s in ss if "unit" not in s]
    x = [s["name"] for s in ss if "unit" in s]
    if k: out.append("* kernels: " + ", ".join(k))
    if x: out.append("* C++ driver + kernel: " + ", ".join(sorted(set(x))) + "; sources: " + ", ".join(sorted({f for s in ss if "unit" in s for f in s["unit"].sources})))
    try:
        e = json.load(open(V + "/evidence/%s.json" % p["id"]))["coverage"]
        out.append("* last quick run: %d configurations, %d obligations, %d discharged, %d inconclusive" % (e["configurations"], e["obligations"], e["discharged"], e["inconclusive"]))
    except (OSError, KeyError): pass
    out.append("* beyond tests: " + p["why"])
    if "note" in p: out.append("* " + p["note"])
    out.append("")
if NA:
    out.append("### Not applicable\n")
    out += ["* %s: %s" % (x["property"], x["reason"]) for x in NA]
out.append("\n## 3. Planted bugs (seeded/) and the checks that catch them\n")
st = dict(l.split(None, 1) for l in open(V + "/tools/caught.txt")) if os.path.exists(V + "/tools/caught.txt") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[-2]
    f = re.findall(r"^\+\+\+ b/(\S+)", open(os.path.dirname(d) + "/patch.diff", errors="replace").read(), re.M)
    out.append("* `%s` (%s, %s): %s — %s" % (i, m["property"], ", ".join(os.path.basename(x) for x in f), m["what_it_breaks"], st.get(i, "caught").strip()))
out.append(open(V + "/tools/design_tail.md").read())
out.append("```\n" + "".join(l for l in open(V + "/known-findings.txt") if not l.startswith("#")) + "```\n")
open(V + "/DESIGN.md", "w").write("\n".join(out))
