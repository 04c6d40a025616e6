"""Regenerates everything from /repo's working tree: m4 -> .f, GIMPLE dumps (the encoding's source), native libs."""
import hashlib, os, re, shutil, subprocess, sys, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("AMPE_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("AMPE_VERIF_BUILD", os.path.join(VERIF, "build"))
FDIR = REPO + "/source/fortran"


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def fortran_inputs():
    return sorted(glob.glob(FDIR + "/*.f") + glob.glob(FDIR + "/*.i") + glob.glob(FDIR + "/[23]d/*.m4")
                  + glob.glob(FDIR + "/*.h"))


def fortran_dumps(extra=(), tag="cfg", native=True):
    """-> (directory with *.cfg dumps and lib{2,3}d.so built from the same compilation)"""
    ins = fortran_inputs()
    key = _hash(ins, "v4" + tag + " ".join(extra))
    d = os.path.join(OUT, tag + "-" + key)
    if os.path.exists(d + "/OK"):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    jobs = []
    for f in glob.glob(FDIR + "/*.f"):
        jobs.append((f, None, "c"))
    for dim in (2, 3):
        for f in glob.glob(FDIR + "/%dd/*.m4" % dim):
            jobs.append((f, dim, "m4"))

    def one(j):
        f, dim, kind = j
        base = os.path.basename(f).rsplit(".", 1)[0]
        stem = ("%dd_" % dim if dim else "") + base
        src = tmp + "/" + stem + ".f"
        if kind == "m4":
            txt = subprocess.run(["m4", "-DSAMRAI_FORTDIR=" + FDIR, f], stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, text=True)
            if txt.returncode != 0:
                raise RuntimeError("m4 failed on " + f + txt.stderr)
            open(src, "w").write(txt.stdout)
        else:
            shutil.copy(f, src)
        run(["gfortran", "-c", "-O0", "-fPIC", "-I" + FDIR, "-DNDIM=%d" % (dim or 2), *extra,
             "-fdump-tree-cfg=" + tmp + "/" + stem + ".cfg",
             "-fdump-tree-original=" + tmp + "/" + stem + ".orig", "-o", tmp + "/" + stem + ".o", src])
        return stem, dim

    with ThreadPoolExecutor(os.cpu_count()) as ex:
        stems = list(ex.map(one, jobs))
    if native:
        for dim in (2, 3):
            objs = [tmp + "/" + s + ".o" for s, q in stems if q in (None, dim)]
            run(["gfortran", "-shared", "-o", tmp + "/lib%dd.so" % dim] + objs)
    open(tmp + "/OK", "w").write("")
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def fortran_release():
    """native libraries with the flags of the real build (-O3 -DNDEBUG), for replay"""
    ins = fortran_inputs()
    d = os.path.join(OUT, "rel-" + _hash(ins, "r2"))
    if os.path.exists(d + "/OK"):
        return d
    src = fortran_dumps()
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    files = glob.glob(src + "/*.f")

    def one(f):
        o = tmp + "/" + os.path.basename(f)[:-2] + ".o"
        run(["gfortran", "-c", "-O3", "-DNDEBUG", "-fPIC", "-I" + FDIR, "-o", o, f])
        return o

    with ThreadPoolExecutor(os.cpu_count()) as ex:
        objs = list(ex.map(one, files))
    for dim in (2, 3):
        oo = [o for o in objs if not os.path.basename(o).startswith("%dd_" % (5 - dim))]
        run(["gfortran", "-shared", "-o", tmp + "/lib%dd.so" % dim] + oo)
    open(tmp + "/OK", "w").write("")
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def cxx_unit(name, sources, dim=2, extra=(), asserts=True, includes=()):
    """compile C++ sources with g++ (-O0), producing .cfg dumps + a shared library"""
    deps = []
    for s in sources:
        deps.append(s if s.startswith("/") else REPO + "/source/" + s)
    hs = glob.glob(REPO + "/source/*.h") + glob.glob(VERIF + "/stubs/**/*", recursive=True)
    hs = [h for h in hs if os.path.isfile(h)]
    key = _hash(deps + hs + sorted(glob.glob(REPO + "/source/fortran/*.h")), "c3" + name + " ".join(extra) + str(dim) + str(asserts))
    d = os.path.join(OUT, "cxx-%s-%s" % (name, key))
    if os.path.exists(d + "/OK"):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/fc_functions_mangle.h", "w").write(
        "#define FC_FUNCTIONS_GLOBAL(n,N) n##_\n#define FC_FUNCTIONS_GLOBAL_(n,N) n##_\n")

    def one(s):
        stem = os.path.basename(s)[:-3]
        run(["g++", "-c", "-O0", "-std=c++11", "-fPIC", "-DNDIM=%d" % dim, "-DMAX_POL_T_INDEX=2",
             *([] if asserts else ["-DNDEBUG"]), "-I" + tmp, *["-I" + i for i in includes],
             "-I" + REPO + "/source", "-I" + FDIR, *extra, "-fdump-tree-cfg=" + tmp + "/" + stem + ".cfg",
             "-o", tmp + "/" + stem + ".o", s])
        return tmp + "/" + stem + ".o"

    with ThreadPoolExecutor(os.cpu_count()) as ex:
        objs = list(ex.map(one, deps))
    run(["g++", "-shared", "-o", tmp + "/lib.so"] + objs)
    open(tmp + "/OK", "w").write("")
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d
