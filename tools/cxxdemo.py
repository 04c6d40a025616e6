"""builds main.cc beside this file with the sources of /repo named in it (// SOURCES: a.cc b.cc) and runs it"""
import os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
S = os.getcwd() + "/source"
t = tempfile.mkdtemp()
try:
    txt = open(H + "/main.cc").read()
    src = [S + "/" + x for x in re.search(r"// SOURCES:(.*)", txt).group(1).split()]
    dim = (re.search(r"// DIM: (\d)", txt) or [0, "2"])[1]
    fort = re.search(r"// FORTRAN:(.*)", txt)
    work, seen = src + [H + "/main.cc"], set()
    for h in ("fc_functions_mangle.h", "fc_internal_mangle.h"):
        open(t + "/" + h, "w").write("#define FC_FUNCTIONS_GLOBAL(n,N) n##_\n#define FC_FUNCTIONS_GLOBAL_(n,N) n##_\n")
    while work:
        f = work.pop()
        if f in seen: continue
        seen.add(f)
        for q, n in re.findall(r'^[ \t]*#[ \t]*include[ \t]*(["<])([^">]+)[">]', open(f, errors="replace").read(), re.M):
            for d in (os.path.dirname(f), S, S + "/fortran", H + "/inc", H):
                if os.path.exists(d + "/" + n):
                    work.append(d + "/" + n)
                    break
            else:
                if (q == "<" and not n.startswith("SAMRAI/")) or os.path.exists(t + "/" + n): continue
                os.makedirs(os.path.dirname(t + "/" + n), exist_ok=True)
                open(t + "/" + n, "w").write('#include "%s.h"\n' % ("samrai" if n.startswith("SAMRAI/") else "thermo"))
    fobj = []
    if fort:
        for n in fort.group(1).split():
            if n.endswith(".f"): shutil.copy(S + "/fortran/" + n, t)
            else:
                out = subprocess.run(["m4", "-DSAMRAI_FORTDIR=" + S + "/fortran", S + "/fortran/" + dim + "d/" + n], stdout=subprocess.PIPE, text=True, check=True).stdout
                n = n[:-3] + ".f"
                open(t + "/" + n, "w").write(out)
            o = t + "/" + n[:-2] + "_f.o"
            subprocess.run(["gfortran", "-O1", "-c", "-I" + S + "/fortran", "-o", o, t + "/" + n], check=True)
            fobj.append(o)
    extra = [x for x in (H + "/inc/verif.cc",) if os.path.exists(x)]
    subprocess.run(["g++", "-O1", "-w", "-fpermissive", "-std=gnu++17", "-DNDIM=" + dim, "-DMAX_POL_T_INDEX=2", "-I" + t, "-I" + H + "/inc", "-I" + H, "-I" + S, "-I" + S + "/fortran", "-o", t + "/a.out",
                    "-Wl,--unresolved-symbols=ignore-all"] + src + [H + "/main.cc"] + extra + fobj + ["-lgfortran"], check=True)
    sys.exit(1 if subprocess.run([t + "/a.out"]).returncode else 0)
finally:
    shutil.rmtree(t, ignore_errors=True)
