#!/usr/bin/env python3
"""plant.py ID PROP FILE 'old' 'new' [-n occurrence] --needs .. --breaks .. < demo.py   : makes and validates seeded/ID
   plant.py --check ID...   : runs the property's check against planted bugs"""
import argparse, json, os, re, shutil, subprocess, sys
V, R = "/verif", os.environ.get("AMPE_REPO", "/repo")      # another copy: for files the tests do not build


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C %s checkout -- ." % R)


def check(i, quiet=False):
    d = "%s/seeded/%s" % (V, i)
    p = json.load(open(d + "/meta.json"))["property"]
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode: return print(i, "patch does not apply", r.stdout)
    try:
        r = sh("cd %s && timeout 900 python3-vt check.py %s" % (V, p))
    finally:
        clean()
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
    print("%-28s %-4s %s rc=%d violations=%d" % (i, p, "CAUGHT" if v and r.returncode == 1 else "MISSED", r.returncode, len(v)), flush=True)
    if not v: print("\n".join(r.stdout.splitlines()[-5:]))


def main():
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i in ids: check(i)
        return
    a = argparse.ArgumentParser()
    a.add_argument("id"), a.add_argument("prop"), a.add_argument("edits", help="python file with EDITS=[(file,old,new,occurrence)], NEEDS, BREAKS, DEMO")
    o = a.parse_args()
    ns = {}
    exec(open(o.edits).read(), ns)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "dirty /repo"
    d = "%s/seeded/%s" % (V, o.id)
    os.makedirs(d, exist_ok=True)
    if "CASE" in ns:      # a harness run as it is on concrete inputs
        import importlib.util
        src = open(V + "/symx/cxx.py").read()
        pre = re.search(r"PRE = (r\'\'\'.*?\'\'\')", src, re.S).group(1)
        open(d + "/hdemolib.py", "w").write(open(V + "/tools/hdemolib_base.py").read() + "\n\nPRE = " + pre + "\n")
        shutil.rmtree(d + "/inc", ignore_errors=True)
        shutil.copytree(V + "/cxx/inc", d + "/inc")
        shutil.copy(V + "/cxx/" + ns["HARNESS"], d + "/" + ns["HARNESS"])
        sys.path.insert(0, V)
        if "SOURCES" not in ns:
            tx = [open(f).read() for f in __import__("glob").glob(V + "/specs/cx_*.py")]
            for t in tx:
                for m in re.finditer(r'Unit\("\w+", \[(.*?)\], "(h_\w+\.cc)"', t, re.S):
                    if m.group(2) == ns["HARNESS"]: ns["SOURCES"] = re.findall(r'"([\w/]+\.cc)"', m.group(1))
        ns["DEMO"] = "import random, sys\nfrom hdemolib import run\n" + ns.get("ENV", "env = None") + "\nsys.exit(run(%r, %r, %r, dim=%d, cfg=%r, env=env, n=%d, extra=%r))\n" % (
            ns["HARNESS"], ns["SOURCES"], ns["CASE"], ns.get("DIM", 2), ns.get("CFG", {}), ns.get("N", 200), ns.get("EXTRA", []))
    if "MAIN" in ns:
        open(d + "/main.cc", "w").write(ns["MAIN"].lstrip())
        ns["DEMO"] = open(V + "/tools/cxxdemo.py").read()
        if ns.get("MODEL"):
            shutil.rmtree(d + "/inc", ignore_errors=True)
            shutil.copytree(V + "/cxx/inc", d + "/inc")
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip())
    if "demolib" in ns["DEMO"]: shutil.copy(V + "/tools/demolib.py", d + "/demolib.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=o.prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh("cd %s && PYTHONDONTWRITEBYTECODE=1 bash %s/demo.sh" % (R, d))
    if r.returncode: ok = False; print("demo fails on the unchanged tree\n" + r.stdout)
    for f, old, new, n in ns["EDITS"]:
        s = open(R + "/" + f, encoding="latin-1").read()
        ks = [m.start() for m in re.finditer(re.escape(old), s)]
        assert len(ks) > n, "%s: %d occurrences of %r" % (f, len(ks), old)
        s = s[:ks[n]] + new + s[ks[n] + len(old):]
        open(R + "/" + f, "w", encoding="latin-1").write(s)
    try:
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant.json" if R == "/repo" else "true")
        if R == "/repo" and (r.returncode or "6 passed" not in r.stdout): ok = False; print("build/tests:", r.stdout[-1500:])
        r = sh("cd %s && PYTHONDONTWRITEBYTECODE=1 bash %s/demo.sh" % (R, d))
        if r.returncode == 0: ok = False; print("demo passes with the patch")
        else: print("demo with patch:", r.stdout.strip()[-300:])
    finally:
        clean()
    print(o.id, "valid" if ok else "INVALID")
    if ok: check(o.id)


main()
