#!/usr/bin/env python3-vt
"""replay.py <file>: run a recorded counterexample against the real (-O3) code; exit 1 if it still fails"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
d = json.load(open(sys.argv[1]))
runner.load_specs()
s = [x for x in runner.SPECS if x["name"] == d["spec"]][0]
n = runner.native(s, d["dim"], d["cfg"], d["env"], 1)
if n is None:
    print("the recorded input does not meet the assumptions any more")
    sys.exit(2)
for l, a, b in n.fail: print("FAIL %s: got %r expected %r" % (l, a, b))
print("%d of %d checks fail" % (len(n.fail), n.checked))
sys.exit(1 if n.fail else 0)
