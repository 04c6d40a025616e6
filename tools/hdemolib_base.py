"""builds a harness and the sources of /repo (current directory) it drives as they are, and runs it on concrete inputs"""
import ctypes, glob, math, os, random, re, shutil, subprocess, sys, tempfile, zlib
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
R = os.getcwd()
S = R + "/source"


def sh(c):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(" ".join(c)[:300], r.stdout[-2000:])
        raise SystemExit(2)


def mangle_headers():
    out = {}
    txt = open(R + "/CMakeLists.txt").read()
    for h, ns, syms in re.findall(r"FortranCInterface_HEADER\(\s*(\S+)\s+MACRO_NAMESPACE\s+\"(\w+)\"\s+SYMBOLS(.*?)\)", txt, re.S):
        t = "#define %sGLOBAL(n,N) n##_\n#define %sGLOBAL_(n,N) n##_\n" % (ns, ns)
        out[h] = t + "".join("#define %s %s_\n" % (s, s.lower()) for s in re.sub(r"#.*", "", syms).split())
    return out


def build(t, harness, sources, dim, extra):
    open(t + "/verif_pre.h", "w").write(PRE)
    for h, x in mangle_headers().items(): open(t + "/" + h, "w").write(x)
    work, seen = [S + "/" + x for x in sources] + [H + "/" + harness], set()
    while work:
        f = work.pop()
        if f in seen: continue
        seen.add(f)
        for q, n in re.findall(r'^[ \t]*#[ \t]*include[ \t]*(["<])([^">]+)[">]', open(f, errors="replace").read(), re.M):
            for d in (os.path.dirname(f), S, S + "/fortran", S + "/samrai", H + "/inc", H):
                if os.path.exists(d + "/" + n):
                    work.append(d + "/" + n)
                    break
            else:
                if (q == "<" and not n.startswith("SAMRAI/")) or os.path.exists(t + "/" + n): continue
                os.makedirs(os.path.dirname(t + "/" + n), exist_ok=True)
                open(t + "/" + n, "w").write('#include "%s.h"\n' % ("samrai" if n.startswith("SAMRAI/") else "thermo"))
    cc = ["g++", "-c", "-O1", "-w", "-fpermissive", "-std=gnu++17", "-fPIC", "-DNDIM=%d" % dim, "-DVERIF_DIM=%d" % dim, "-DMAX_POL_T_INDEX=2", "-D_GLIBCXX_ASSERTIONS",
          "-include", t + "/verif_pre.h"] + [x.replace("@INC", H + "/inc") for x in extra] + ["-I" + t, "-I" + H + "/inc", "-I" + H, "-I" + S, "-I" + S + "/samrai", "-I" + S + "/fortran"]
    jobs, objs = [], []
    for k, f in enumerate([S + "/" + x for x in sources] + [H + "/" + harness, H + "/inc/verif.cc"]):
        o = t + "/%d.o" % k
        jobs.append(cc + (["-fno-access-control"] if f.startswith(H) else []) + ["-o", o, f])
        objs.append(o)
    for f in sorted(glob.glob(S + "/fortran/*.f")) + sorted(glob.glob(S + "/fortran/%dd/*.m4" % dim)):
        b = os.path.basename(f).rsplit(".", 1)[0]
        src = t + "/" + b + ".f"
        if f.endswith(".m4"):
            open(src, "w").write(subprocess.run(["m4", "-DSAMRAI_FORTDIR=" + S + "/fortran", f], check=True, stdout=subprocess.PIPE, text=True).stdout)
        else: shutil.copy(f, src)
        o = t + "/f_%s.o" % b
        jobs.append(["gfortran", "-c", "-O1", "-fPIC", "-I" + S + "/fortran", "-o", o, src])
        objs.append(o)
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    base = ["g++", "-shared", "-Wl,-Bsymbolic,--allow-multiple-definition", "-o", t + "/h.so"] + objs + ["-lgfortran"]
    r = subprocess.run(base + ["-Wl,-z,defs,--no-demangle"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        src = ["void verif_unmodelled(const char*);"]
        for k, s in enumerate(sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))):
            if s.startswith("_ZTV"): src.append('static void vt%d() { verif_unmodelled("%s"); } extern "C" { void* %s[64] = {0, 0, %s}; }' % (k, s, s, ", ".join(["(void*)vt%d" % k] * 62)))
            elif s.startswith("_ZTI"): src.append('extern "C" { void* %s[64]; }' % s)
            else: src.append('extern "C" void %s() { verif_unmodelled("%s"); }' % (s, s))
        open(t + "/stub.cc", "w").write("\n".join(src) + "\n")
        sh(["g++", "-c", "-w", "-fPIC", "-O0", "-o", t + "/stub.o", t + "/stub.cc"])
        sh(base + [t + "/stub.o"])
    return ctypes.CDLL(t + "/h.so")


F = ctypes.CFUNCTYPE
cp, i_, d_, vp = ctypes.c_char_p, ctypes.c_int, ctypes.c_double, ctypes.c_void_p
FIELDS = [("op", F(d_, i_, d_, d_, d_)), ("konst", F(d_, d_)), ("decide", F(i_, d_)), ("to_int", F(i_, d_)), ("uninit", F(d_)), ("real", F(d_, cp, d_, d_, i_)),
          ("choose", F(i_, cp, i_, i_)), ("assume", F(i_, d_)), ("eq", F(None, d_, d_, cp)), ("prove", F(None, d_, cp)), ("fn", F(d_, cp, i_, ctypes.POINTER(d_))),
          ("cfg", F(i_, cp, i_)), ("cfgs", F(vp, cp, cp)), ("fcall", F(i_, cp, i_, ctypes.POINTER(vp), vp)), ("note", F(None, cp)), ("diff", F(d_, d_, d_))]


class Api(ctypes.Structure):
    _fields_ = FIELDS


def run(harness, sources, case, dim=2, cfg=None, env=None, n=200, seed=1, extra=(), tol=1e-6, functions=None):
    """n runs with random inputs (env: inputs by name, or a function of the generator and the run); exit code 1 when an expectation fails"""
    cfg = cfg or {}
    t = tempfile.mkdtemp()
    try:
        lib = build(t, harness, sources, dim, extra)
        lib.verif_msg.restype = ctypes.c_char_p
        rng = random.Random(seed)
        bad, done = [], 0
        cur, made, keep = {}, {}, []

        def real(name, lo, hi, hard):
            name = name.decode()
            if name in cur: return cur[name]
            if name not in made:
                a = lo if abs(lo) < 1e300 else (hi - 4 if abs(hi) < 1e300 else -2.)
                b = hi if abs(hi) < 1e300 else (a + 4 if abs(lo) < 1e300 else 2.)
                if hard == 2: a, b = .2, 2.
                made[name] = rng.uniform(a, b)
            return made[name]

        def choose(name, lo, hi):
            name = name.decode()
            if name in cur: return cur[name]
            if name not in made: made[name] = rng.randint(lo, hi)
            return made[name]

        def fn(name, k, a):
            x = [a[j] for j in range(k)]
            if functions and name.decode() in functions: return functions[name.decode()](*x)
            h = zlib.crc32(name)
            return 1.5 + sum(math.sin((1 + (h >> (3 * j)) % 7) * .3 * v + j) for j, v in enumerate(x)) / (1 + k)

        def eq(a, b, label):
            if not abs(a - b) <= tol * max(1., abs(a), abs(b)): bad.append("%s: got %r, expected %r" % (label.decode(), a, b))

        def prove(v, label):
            if not v: bad.append(label.decode())

        def cfgs(k, d):
            v = cfg.get(k.decode())
            b = ctypes.create_string_buffer(str(v).encode() if v is not None else d)
            keep.append(b)
            return ctypes.addressof(b)

        impl = dict(op=lambda *a: 0., konst=lambda x: x, decide=lambda x: -1, to_int=lambda x: 0, uninit=lambda: 0., real=real, choose=choose, assume=lambda v: 1 if v else 0, eq=eq,
                    prove=prove, fn=fn, cfg=lambda k, d: int(cfg.get(k.decode(), d)), cfgs=cfgs, fcall=lambda *a: 0, note=lambda x: None, diff=lambda a, b: 0.)
        api = Api()
        for nm, ty in FIELDS:
            f = ty(impl[nm])
            keep.append(f)
            setattr(api, nm, f)
        for k in range(n):
            cur.clear(), made.clear()
            if env: cur.update(env(rng, k) if callable(env) else env)
            r = lib.verif_run(case.encode(), ctypes.byref(api))
            if r == 1: done += 1
            elif r in (3, 4): bad.append("stops: " + lib.verif_msg().decode())
            elif r == 5: raise SystemExit("no such case")
            if bad: break
        print("%d runs; " % done + ("; ".join(bad[:3]) if bad else "as expected"))
        return 1 if bad or not done else 0
    finally:
        shutil.rmtree(t, ignore_errors=True)
