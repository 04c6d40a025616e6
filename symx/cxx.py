"""C++ units: the sources are compiled with `double` replaced by a symbolic number type (symbolic build) and as they are
(native build).  A harness runs in the symbolic build under path exploration: every comparison of symbolic values asks the
solver which outcomes are possible and all possible ones are followed."""
import ctypes, glob, hashlib, math, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import z3
from . import build, harness, solve, terms as tm
from .exec import SymErr, Obj, Ptr, State, Engine, Unsupported, UNDEF
from .terms import T

REPO, VERIF, OUT = build.REPO, build.VERIF, build.OUT
CXX = VERIF + "/cxx"
SRC = REPO + "/source"
TAG = 0x5A5A << 47
STOP = -2 ** 31

# ---------------------------------------------------------------- lexical substitution
_tok = re.compile(r'''
   (?P<com>//[^\n]*|/\*.*?\*/)
 | (?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')
 | (?P<inc>^[ \t]*\#[ \t]*(?:include|error|warning|pragma|line)[^\n]*)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<num>(?:0[xX][0-9a-fA-F]+[uUlL]*)|(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?[fFlL]?|\d+[eE][+-]?\d+[fFlL]?|\d+[uUlL]*)
''', re.X | re.S | re.M)


def real2sym(text):
    def f(m):
        k = m.lastgroup
        s = m.group()
        if k == "id": return "vsym::D" if s in ("double", "float") else s
        if k == "num" and s[:2] not in ("0x", "0X") and ("." in s or "e" in s or "E" in s):
            return "vsym::D(%s)" % s.rstrip("fFlL")
        return s
    return _tok.sub(f, text).replace("long vsym::D", "vsym::D")


PRE = r'''
#ifndef VERIF_PRE_H
#define VERIF_PRE_H
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <functional>
#include <numeric>
#include <limits>
#include <climits>
#include <array>
#include <mutex>
#include "verif_assert.h"
#ifdef VERIF_SYM
#include "symd.h"
#endif
namespace std { [[noreturn]] inline void verif_stop(const char* w, const char* f, int l) { ::verif_stop(w, f, l); } }
#define abort(...) verif_stop("abort", __FILE__, __LINE__)
#define exit(x) verif_stop("exit", __FILE__, __LINE__)
#endif
'''


def _fwd_headers(names, dirs):
    """headers that nothing provides: they come from SAMRAI / Thermo4PFM / sundials models"""
    out = {}
    for n in names:
        if any(os.path.exists(d + "/" + n) for d in dirs): continue
        if n.startswith("SAMRAI/"): out[n] = '#include "samrai.h"\n'
        else: out[n] = None
    return out


def mangle_headers():
    """the headers CMake writes from the symbol lists of the top CMakeLists.txt"""
    out = {}
    txt = open(REPO + "/CMakeLists.txt").read()
    for h, ns, syms in re.findall(r"FortranCInterface_HEADER\(\s*(\S+)\s+MACRO_NAMESPACE\s+\"(\w+)\"\s+SYMBOLS(.*?)\)", txt, re.S):
        t = "#define %sGLOBAL(n,N) n##_\n#define %sGLOBAL_(n,N) n##_\n" % (ns, ns)
        out[h] = t + "".join("#define %s %s_\n" % (s, s.lower()) for s in re.sub(r"#.*", "", syms).split())
    return out


class Unit:
    def __init__(self, name, sources, harness, models=("samrai",), cap=400, extra=()):
        self.name, self.sources, self.harness, self.models, self.cap, self.extra = name, list(sources), harness, models, cap, list(extra)
        self._libs, self._failed = {}, {}

    def _deps(self):
        hs = glob.glob(SRC + "/*.h") + glob.glob(SRC + "/fortran/*.h") + glob.glob(SRC + "/samrai/*.h")
        cx = [f for f in glob.glob(CXX + "/**/*", recursive=True) if os.path.isfile(f) and ("/inc/" in f or f.endswith("/" + self.harness))]
        return [SRC + "/" + s for s in self.sources] + hs + cx

    def dir(self, dim):
        """build both libraries, -> directory"""
        if dim in self._failed: raise Unsupported(self._failed[dim])
        try:
            return self._dir(dim)
        except RuntimeError as e:
            m = re.search(r"error: .*", str(e))
            self._failed[dim] = "build: " + (m.group(0) if m else str(e)[-400:])
            if os.environ.get("AMPE_VERIF_VERBOSE"): print(str(e)[-3000:])
            raise Unsupported(self._failed[dim])

    def _dir(self, dim):
        deps = [d for d in self._deps() if os.path.exists(d)]
        key = build._hash(deps + [os.path.abspath(__file__)] + (build.fortran_inputs() if self.uses_fortran() else []), self.name + str(dim) + " ".join(self.extra))
        d = os.path.join(OUT, "cx-%s-%d-%s" % (self.name, dim, key))
        if os.path.exists(d + "/OK"): return d
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        for x in ("sym", "nat", "o"): os.makedirs(tmp + "/" + x)
        for x in ("sym", "nat"):
            for h, txt in mangle_headers().items(): open(tmp + "/%s/%s" % (x, h), "w").write(txt)
        open(tmp + "/verif_pre.h", "w").write(PRE)
        ctab = []
        for x in self.sources:
            if os.path.exists(SRC + "/" + x): ctab.append((SRC + "/" + x, x.replace("/", "__")))
        ctab.append((CXX + "/" + self.harness, self.harness))
        runtime = ("symd.h", "verif.h", "verif.cc", "verif_assert.h", "assert.h", "cassert")
        work, seen = list(ctab) + [(CXX + "/inc/samrai.h", "samrai.h")], set()
        while work:
            f, base = work.pop()
            if base in seen: continue
            seen.add(base)
            txt = open(f, errors="replace").read()
            os.makedirs(os.path.dirname(tmp + "/sym/" + base), exist_ok=True)
            open(tmp + "/sym/" + base, "w").write('#line 1 "%s"\n' % f + real2sym(txt))
            if f.startswith(CXX + "/inc/"): shutil.copy(f, tmp + "/nat/" + os.path.basename(f))
            for q, n in re.findall(r'^[ \t]*#[ \t]*include[ \t]*(["<])([^">]+)[">]', txt, re.M):
                if n in runtime or n in seen or re.fullmatch(r"fc_\w+_mangle.h", n): continue
                for dd in (os.path.dirname(f), SRC, SRC + "/fortran", SRC + "/samrai", CXX + "/inc"):
                    if os.path.exists(dd + "/" + n):
                        work.append((dd + "/" + n, n))
                        break
                else:
                    if q == "<" and not n.startswith("SAMRAI/"): continue
                    c = '#include "samrai.h"\n' if n.startswith("SAMRAI/") else '#include "thermo.h"\n'
                    if c.startswith('#include "thermo') and os.path.exists(CXX + "/inc/thermo.h"): work.append((CXX + "/inc/thermo.h", "thermo.h"))
                    for v in ("sym", "nat"):
                        o = tmp + "/%s/%s" % (v, n)
                        os.makedirs(os.path.dirname(o), exist_ok=True)
                        open(o, "w").write(c)
        common = ["-c", "-std=gnu++17", "-fPIC", "-w", "-fpermissive", "-DNDIM=%d" % dim, "-DMAX_POL_T_INDEX=2", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_DIM=%d" % dim,
                  "-include", tmp + "/verif_pre.h", *self.extra]
        symf = ["-DVERIF_SYM", "-O0", "-ftrivial-auto-var-init=pattern", "-I" + tmp + "/sym", "-I" + CXX + "/inc"]
        natf = ["-O1", "-I" + tmp + "/nat", "-I" + CXX + "/inc", "-I" + SRC, "-I" + SRC + "/samrai", "-I" + SRC + "/fortran"]
        jobs = []
        for f, base in ctab:
            jobs.append(symf + ["-o", tmp + "/o/sym_" + base + ".o", tmp + "/sym/" + base] +
                        (["-fno-access-control"] if base == self.harness else ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,inc/samrai,inc/SAMRAI,symd.h,verif,thermo"]))
            jobs.append(natf + (["-fno-access-control"] if base == self.harness else []) + ["-o", tmp + "/o/nat_" + base + ".o", f])
        for v, fl in (("sym", symf), ("nat", natf)):
            jobs.append(fl + ["-o", tmp + "/o/%s_verif.o" % v, CXX + "/inc/verif.cc"])
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(lambda j: build.run(["g++"] + common + j), jobs))
        for v in ("sym", "nat"): self._link(tmp, v, dim)
        open(tmp + "/OK", "w").write("")
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return d

    def uses_fortran(self):
        return True

    def _link(self, tmp, v, dim):
        objs = sorted(glob.glob(tmp + "/o/%s_*.o" % v))
        fl = []
        if v == "nat":
            rel = build.fortran_release()
            fl = [rel + "/lib%dd.so" % dim, "-Wl,-rpath," + rel]
        base = ["g++", "-shared", "-Wl,-Bsymbolic", "-o", tmp + "/%s.so" % v] + objs + fl
        r = subprocess.run(base + ["-Wl,-z,defs,--no-demangle"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: return
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))
        if not und: raise RuntimeError("link failed\n" + r.stdout[-3000:])
        src = ['#include <cstdint>', 'extern "C" void verif_fcall(const char*, int, void**, void*);',
               'void verif_unmodelled(const char*);', 'struct D2 { int64_t a; double c; };']
        prog = harness.program(dim) if v == "sym" else None
        for k, s in enumerate(und):
            f = prog.get(s) if prog else None
            if f is not None:
                n = len(f.params)
                ret = "D2" if f.ret.startswith("real") or "double" in f.ret else "void" if f.ret.startswith("void") else "int"
                src.append('extern "C" %s %s(%s) { void* a[] = {%s}; %s verif_fcall("%s", %d, a, %s); %s }' % (
                    ret, s, ", ".join("void* p%d" % i for i in range(n)), ", ".join(["p%d" % i for i in range(n)] + ["(void*)0"]),
                    "" if ret == "void" else ret + " r;", s, n, "0" if ret == "void" else "&r", "" if ret == "void" else "return r;"))
            elif s.startswith("_ZTV"):
                src.append('static void vt%d() { verif_unmodelled("%s"); } extern "C" { void* %s[64] = {0, 0, %s}; }' % (k, s, s, ", ".join(["(void*)vt%d" % k] * 62)))
            elif s.startswith("_ZTI"):
                src.append('extern "C" { void* %s[64]; }' % s)
            else:
                src.append('extern "C" void %s() { verif_unmodelled("%s"); }' % (s, s))
        open(tmp + "/stub_%s.cc" % v, "w").write("\n".join(src) + "\n")
        build.run(["g++", "-c", "-w", "-fPIC", "-O0", "-o", tmp + "/o/%s_zstub.o" % v, tmp + "/stub_%s.cc" % v])
        build.run(base + [tmp + "/o/%s_zstub.o" % v])
        open(tmp + "/stubbed_%s.txt" % v, "w").write("\n".join(und))

    def lib(self, dim, sym):
        k = (dim, sym)
        if k not in self._libs:
            d = self.dir(dim)
            self._libs[k] = Lib(d + ("/sym.so" if sym else "/nat.so"), sym)
        return self._libs[k]

    # for the runner
    def prog(self, dim):
        self.dir(dim)
        return harness.program(dim)


vn_s, vn_n = ctypes.c_int64, ctypes.c_double


def _proto(vn):
    F = ctypes.CFUNCTYPE
    cp, i, dbl, vp = ctypes.c_char_p, ctypes.c_int, ctypes.c_double, ctypes.c_void_p
    return [("op", F(vn, i, vn, vn, vn)), ("konst", F(vn, dbl)), ("decide", F(i, vn)), ("to_int", F(i, vn)), ("uninit", F(vn)),
            ("real", F(vn, cp, dbl, dbl, i)), ("choose", F(i, cp, i, i)), ("assume", F(i, vn)), ("eq", F(None, vn, vn, cp)),
            ("prove", F(None, vn, cp)), ("fn", F(vn, cp, i, ctypes.POINTER(vn))), ("cfg", F(i, cp, i)), ("cfgs", F(vp, cp, cp)),
            ("fcall", F(i, cp, i, ctypes.POINTER(vp), vp)), ("note", F(None, cp)), ("diff", F(vn, vn, vn))]


class ApiS(ctypes.Structure):
    _fields_ = _proto(vn_s)


class ApiN(ctypes.Structure):
    _fields_ = _proto(vn_n)


class Lib:
    def __init__(self, path, sym):
        self.sym = sym
        self.l = ctypes.CDLL(path)
        self.l.verif_msg.restype = ctypes.c_char_p
        self.l.verif_extent.restype = ctypes.c_long
        if sym:
            self.l.verif_calls.restype = ctypes.c_char_p


OPS = "ADD SUB MUL DIV NEG LT LE EQ SQRT EXP LOG POW ABS MAX MIN ACOS ASIN ATAN ATAN2 SIN COS TAN TANH COSH SINH ERF FLOOR TRUNC AND OR NOT ITE BOOL".split()


def _mkop(o):
    if o == "ADD": return lambda a, b, c: tm.add(a, b)
    if o == "SUB": return lambda a, b, c: tm.sub(a, b)
    if o == "MUL": return lambda a, b, c: tm.mul(a, b)
    if o == "DIV": return lambda a, b, c: tm.div(a, b)
    if o == "NEG": return lambda a, b, c: tm.neg(a)
    if o == "LT": return lambda a, b, c: tm.lt(a, b)
    if o == "LE": return lambda a, b, c: tm.le(a, b)
    if o == "EQ": return lambda a, b, c: tm.eq(a, b)
    if o == "SQRT": return lambda a, b, c: tm.sqrt(a)
    if o == "ABS": return lambda a, b, c: tm.abs_(a)
    if o == "MAX": return lambda a, b, c: tm.max_(a, b)
    if o == "MIN": return lambda a, b, c: tm.min_(a, b)
    if o == "POW": return lambda a, b, c: tm.uf("pow", a, b)
    if o == "ATAN2": return lambda a, b, c: tm.uf("atan2", a, b)
    if o == "AND": return lambda a, b, c: tm.and_(a, b)
    if o == "OR": return lambda a, b, c: tm.or_(a, b)
    if o == "NOT": return lambda a, b, c: tm.not_(a)
    if o == "ITE": return lambda a, b, c: tm.ite(a, b, c)
    return lambda a, b, c: tm.uf(o.lower(), a)


OPF = [_mkop(o) for o in OPS]
ARITY = {"NEG": 1, "SQRT": 1, "ABS": 1, "NOT": 1, "ITE": 3}


def arity(o):
    if o in ("ADD", "SUB", "MUL", "DIV", "LT", "LE", "EQ", "MAX", "MIN", "POW", "ATAN2", "AND", "OR"): return 2
    return 3 if o == "ITE" else 1


ARI = [arity(o) for o in OPS]
BOOLOP = OPS.index("BOOL")


def sample_env(vars_, rng):
    e = Env()
    for n in vars_: sample_var(e, n, vars_[n], rng)
    e.rng = rng
    return e


def sample_var(e, n, h, rng):
    lo, hi, pos, nonneg, sample = h
    if sample == "int": e[n] = rng.randint(lo, hi)
    elif callable(sample): e[n] = sample(rng)
    elif sample is not None: e[n] = rng.choice(list(sample))
    else:
        a = lo if lo is not None else (0.1 if pos else 0. if nonneg else -1.5)
        b = hi if hi is not None else max(2., float(a) + 2.)
        u = rng.random()
        e[n] = float(a) + (float(b) - float(a)) * (u * 0.01 if u < 0.15 else 1 - (1 - u) * 0.01 if u > 0.85 else u)


def fill(e, vars_):
    for n in vars_:
        if n not in e: sample_var(e, n, vars_[n], e.rng)
    return e


class Env(dict):
    def __missing__(self, k):
        if k.startswith("infinitesimal"): return 0.
        raise KeyError(k)


_terms = [None]         # handles stay valid for the life of the process (statics in the code may keep them)
_ids = {}


def unsym(s):
    return re.sub(r"vsym::D\(([^()]*)\)", r"\1", s).replace("vsym::D", "double")


class SymRun:
    """explores the paths of one case"""

    def __init__(self, c, unit, case, cfg):
        self.c, self.unit, self.case, self.conf = c, unit, case, cfg
        self.lib = unit.lib(c.dim, True)
        self.terms, self.ids = _terms, _ids
        self.exc = None
        self.work = [[]]
        self.paths = 0
        self.dq = 0
        self.keep = []
        self.api = ApiS()
        for n, ty in ApiS._fields_:
            f = ty(self._guard(n, getattr(self, n)))
            self.keep.append(f)
            setattr(self.api, n, f)

    def _guard(self, n, f):
        bad = {"op": -1, "konst": -1, "decide": -1, "to_int": STOP, "uninit": -1, "real": -1, "choose": STOP, "assume": 0, "fn": -1, "diff": -1, "fcall": 1,
               "cfg": 0, "cfgs": None}.get(n)

        def g(*a):
            if self.exc is not None: return bad
            try:
                return f(*a)
            except BaseException as e:
                self.exc = e
                return bad
        return g

    def h(self, t):
        i = self.ids.get(t.id)
        if i is None:
            i = TAG | len(self.terms)
            self.terms.append(t)
            self.ids[t.id] = i
        return i

    def t(self, h):
        return self.terms[h & (2 ** 47 - 1)]

    # --- callbacks
    def op(self, o, a, b, c):
        if o == BOOLOP: return self.h(tm.boolc(bool(a)))
        n = ARI[o]
        if n == 1: return self.h(OPF[o](self.t(a), None, None))
        if n == 2: return self.h(OPF[o](self.t(a), self.t(b), None))
        return self.h(OPF[o](self.t(a), self.t(b), self.t(c)))

    def konst(self, x):
        if x != x or abs(x) > 1e299:
            return self.h(tm.lift(Fraction(10) ** 300 * (1 if x > 0 else -1))) if x == x else self.uninit()
        return self.h(tm.lift(float(x)))

    def uninit(self):
        if os.environ.get("AMPE_VERIF_NOTES"): backtrace()
        self.c.obl.append((self.c.uniq("uninitialised read"), "prop", tm.FALSE, None, list(self.c.hyps)))
        self.nu += 1
        return self.h(tm.var("uninitialised%d" % self.nu))

    def sync(self):
        c = self.c
        if self.sol is None:
            self.enc = solve.Enc(solve.Dom(c.hyps))
            self.sol = z3.Solver()
            self.sol.set("timeout", 400)
            self.nh = self.ns = 0
        while self.nh < len(c.hyps):
            self.sol.add(self.enc.tr(c.hyps[self.nh]))
            self.nh += 1

    def side(self):
        while self.ns < len(self.enc.side):
            self.sol.add(self.enc.side[self.ns])
            self.ns += 1

    def possible(self, t):
        self.sync()
        z = self.enc.tr(t)
        self.side()
        self.sol.push()
        self.sol.add(z)
        self.side0 = self.ns
        r = self.sol.check()
        self.sol.pop()
        self.dq += 1
        return True if r == z3.sat else False if r == z3.unsat else None

    # concrete inputs of this path: witnesses for branches the solver gives no quick answer on
    def witness(self, t):
        """-> set of the outcomes of t seen on sampled inputs"""
        c = self.c
        if self.pool is None:
            rng = random.Random(5)
            self.pool = []
            for k in range(400):
                e = sample_env(c.vars, rng)
                try:
                    if all(tm.evalf(c.hyps, e)): self.pool.append(e)
                except KeyError:
                    pass
                if len(self.pool) >= 40 or (k > 100 and not self.pool): break
            self.npool = len(c.hyps)
        if self.npool < len(c.hyps):
            new = c.hyps[self.npool:]
            self.pool = [e for e in self.pool if all(tm.evalf(new, fill(e, c.vars)))]
            self.npool = len(c.hyps)
        if not self.pool:
            # the solver's own point of this path, and points around it
            self.sync()
            self.side()
            if self.sol.check() == z3.sat:
                m = solve.model_env(self.sol.model(), self.enc)
                rng = random.Random(7)
                for k in range(60):
                    e = Env({n: (v * (1 + 0.3 * rng.random() ** 3 * rng.choice((-1, 1)) * (k > 0)) if isinstance(v, float) else v) for n, v in m.items()})
                    e.rng = rng
                    try:
                        if all(tm.evalf(c.hyps, fill(e, c.vars))): self.pool.append(e)
                    except KeyError:
                        pass
        return {bool(tm.evalf([t], fill(e, c.vars))[0]) for e in self.pool}

    def resolve(self, t):
        """which outcomes of t to follow"""
        a = self.possible(t)
        if a is False: return False, True
        b = self.possible(tm.not_(t))
        if b is False: return True, True
        if a is None or b is None:
            w = self.witness(t)
            if a: w.add(True)
            if b: w.add(False)
            if len(w) == 1:
                v = w.pop()
                # taken as a fact of this path from here on, and owed: the solver gets it as a goal of its own
                f = t if v else tm.not_(t)
                if not any(f is u[2] for u in self.c.undecided):
                    self.c.undecided.append(("unreachable branch", "prop", f, None, list(self.c.hyps)))
                return v, False
        return True, "both"

    def decide(self, hid):
        t = self.t(hid)
        if t.sort != "B": t = tm.not_(tm.eq(t, tm.lift(0)))
        if t is tm.TRUE: return 1
        if t is tm.FALSE: return 0
        if t.id in self.known: return self.known[t.id]
        k = self.k
        self.k += 1
        if k < len(self.sched):
            v, forced = self.sched[k]
        else:
            v, forced = self.resolve(t)
            if forced == "both": self.work.append(self.sched + [(False, False)])
            forced = forced is True
            self.sched.append((v, forced))
        if not forced: self.c.hyps.append(t if v else tm.not_(t))
        self.known[t.id] = int(v)
        self.known[tm.not_(t).id] = int(not v)
        return int(v)

    def to_int(self, hid):
        t = self.t(hid)
        if t.op == "c":
            x = tm.cval(t)
            return int(x)          # towards zero
        # value-by-value: every integer the solver finds possible becomes a path
        k = self.k
        self.k += 1
        if k < len(self.sched):
            n = self.sched[k]
        else:
            vals = self.ints(t)
            for n in vals[1:]: self.work.append(self.sched + [n])
            n = vals[0]
            self.sched.append(n)
        r = tm.const(n)
        one = tm.const(1)
        if n > 0: cond = tm.and_(tm.le(r, t), tm.lt(t, r + one))
        elif n < 0: cond = tm.and_(tm.le(t, r), tm.lt(r - one, t))
        else: cond = tm.and_(tm.lt(-one, t), tm.lt(t, one))
        self.c.hyps.append(cond)
        return n

    def ints(self, t):
        self.sync()
        z = self.enc.tr(t)
        self.side()
        vals = []
        self.sol.push()
        while len(vals) < 12:
            if self.sol.check() != z3.sat: break
            m = self.sol.model().eval(z, model_completion=True)
            try:
                x = Fraction(m.as_fraction()) if z3.is_rational_value(m) else Fraction(m.approx(20).as_fraction())
            except Exception:
                break
            n = int(x)
            vals.append(n)
            lo, hi = (n, n + 1) if n > 0 else (n - 1, n) if n < 0 else (-1, 1)
            if n > 0: self.sol.add(z3.Or(z < lo, z >= hi))
            elif n < 0: self.sol.add(z3.Or(z <= lo, z > hi))
            else: self.sol.add(z3.Or(z <= lo, z >= hi))
        full = self.sol.check() == z3.unsat
        self.sol.pop()
        if not full or not vals: raise Unsupported("conversion of an unbounded value to an integer")
        return vals

    def real(self, name, lo, hi, hard):
        name = name.decode()
        c = self.c
        if name in self.seen: return self.h(tm.var(name))
        self.seen.add(name)
        lo = None if abs(lo) > 1e307 else lo
        hi = None if abs(hi) > 1e307 else hi
        if hard == 2: v = c.real(name, pos=True)
        elif hard: v = c.real(name, lo, hi)
        elif lo is None and hi is None: v = c.real(name)
        else:
            v = c.real(name, sample=(lambda rng, lo=lo, hi=hi: rng.uniform(lo, hi)))
        return self.h(v)

    def choose(self, name, lo, hi):
        name = name.decode()
        k = self.k
        self.k += 1
        if k < len(self.sched): n = self.sched[k]
        else:
            n = lo
            for j in range(hi, lo, -1): self.work.append(self.sched + [j])
            self.sched.append(n)
        v = tm.var(name, "I")
        self.c.vars[name] = (lo, hi, False, False, "int")
        self.c.hyps.append(tm.eq(v, tm.const(n, "I")))
        return n

    def assume(self, hid):
        t = self.t(hid)
        if t is tm.FALSE: return 0
        if t is not tm.TRUE: self.c.hyps.append(t)
        return 1

    def eq(self, a, b, label):
        self.c.eq(self.t(a), self.t(b), label.decode())

    def prove(self, a, label):
        self.c.prove(self.t(a), label.decode())

    def fn(self, name, n, args):
        return self.h(tm.uf(name.decode(), *[self.t(args[i]) for i in range(n)]))

    def cfg(self, key, d):
        return int(self.conf.get(key.decode(), d))

    def cfgs(self, key, d):
        s = self.conf.get(key.decode())
        b = ctypes.create_string_buffer((str(s) if s is not None else d.decode()).encode())
        self.keep.append(b)
        return ctypes.addressof(b)

    def note(self, s):
        if os.environ.get("AMPE_VERIF_NOTES"): print("note:", s.decode())

    def fcall(self, name, n, args, ret):
        try:
            fortran_call(self, name.decode(), [args[i] for i in range(n)], ret)
        except CxxStop as e:
            self.note(str(e).encode())
            self.stopmsg = ctypes.create_string_buffer(str(e).encode())
            self.lib.l.verif_set_stop(self.stopmsg)
            return 2
        return 0

    def diff(self, a, b):
        """diff(-1, _): a fresh infinitesimal t (a variable assumed 0); diff(y, t): dy/dt at t = 0"""
        if a == -1:
            self.nt += 1
            t = tm.var("infinitesimal%d" % self.nt)
            self.c.hyps.append(tm.eq(t, tm.const(0)))
            return self.h(t)
        t = self.t(b)
        return self.h(tm.subst(tm.diff(self.t(a), t), {t.id: tm.const(0)}))

    # --- exploration
    def run(self):
        c = self.c
        base, labels = list(c.hyps), dict(c.labels)
        self.lib.l.verif_reset()
        if not hasattr(c, 'undecided'): c.undecided = []
        ends = dict()
        while self.work:
            self.sched = list(self.work.pop())
            self.paths += 1
            if self.paths > self.unit.cap: raise Unsupported("more than %d paths in %s" % (self.unit.cap, self.case))
            self.k, self.nu, self.nt, self.known, self.sol, self.seen, self.pool = 0, 0, 0, {}, None, set(), None
            c.hyps = list(base)
            c.labels = dict(labels)
            n0 = len(c.obl)
            r = self.lib.l.verif_run(self.case.encode(), ctypes.byref(self.api))
            if self.exc is not None:
                e, self.exc = self.exc, None
                raise e
            ends[r] = ends.get(r, 0) + 1
            if r == 2: del c.obl[n0:]
            elif r in (3, 4):
                msg = unsym(self.lib.l.verif_msg().decode())
                if msg.startswith("unmodelled"): raise Unsupported(msg)
                c.obl.append((c.uniq("stops: " + msg), "prop", tm.FALSE, None, list(c.hyps)))
            elif r == 5: raise Unsupported("no such case " + self.case)
        c.hyps, c.labels = base, labels
        for f in self.lib.l.verif_calls().decode().split("\n"):
            if f: c.eng.functions.add(f)
        c.paths = getattr(c, "paths", 0) + self.paths
        c.decide_queries = getattr(c, "decide_queries", 0) + self.dq


class NatRun:
    def __init__(self, c, unit, case, cfg):
        self.c, self.unit, self.case, self.conf = c, unit, case, cfg
        self.lib = unit.lib(c.dim, False)
        self.exc = None
        self.keep = []
        self.api = ApiN()
        for n, ty in ApiN._fields_:
            f = ty(self._guard(n, getattr(self, n)))
            self.keep.append(f)
            setattr(self.api, n, f)

    def _guard(self, n, f):
        bad = {"op": 0., "konst": 0., "decide": -1, "to_int": STOP, "uninit": 0., "real": float("nan"), "choose": STOP, "assume": 0,
               "fn": 0., "diff": 0., "cfg": 0, "cfgs": None}.get(n)

        def g(*a):
            if self.exc is not None: return bad
            try:
                return f(*a)
            except BaseException as e:
                self.exc = e
                return bad
        return g

    def op(self, *a): return 0.
    def konst(self, x): return x
    def decide(self, x): return -1
    def to_int(self, x): return STOP
    def uninit(self): return 0.

    def real(self, name, lo, hi, hard):
        name = name.decode()
        lo = None if abs(lo) > 1e307 else lo
        hi = None if abs(hi) > 1e307 else hi
        if hard == 2: return self.c.real(name, pos=True)
        if hard: return self.c.real(name, lo, hi)
        if lo is None and hi is None: return self.c.real(name)
        return self.c.real(name, sample=(lambda rng: rng.uniform(lo, hi)))

    def choose(self, name, lo, hi):
        return self.c.integer(name.decode(), lo, hi)

    def assume(self, v):
        return 1 if v else 0

    def eq(self, a, b, label): self.c.eq(a, b, label.decode())
    def prove(self, a, label): self.c.prove(bool(a), label.decode())
    def fn(self, name, n, args): return float(self.c.fn(name.decode(), *[args[i] for i in range(n)]))

    cfg = SymRun.cfg
    cfgs = SymRun.cfgs
    note = SymRun.note
    def diff(self, a, b): return 0.
    def fcall(self, *a): raise SymErr("fcall in the native build")

    def run(self):
        c = self.c
        r = self.lib.l.verif_run(self.case.encode(), ctypes.byref(self.api))
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        if r == 2: raise harness.Skip()
        if r in (3, 4) and self.lib.l.verif_msg().startswith(b"unmodelled"): raise SymErr(self.lib.l.verif_msg().decode())
        if r in (3, 4):
            label = c.uniq("stops: " + self.lib.l.verif_msg().decode())
            c.obs.append((label, False, True))
            c.fail.append((label, False, True))
        if r == 5: raise SymErr("no such case " + self.case)


def cxx_run(c, unit, case, **cfg):
    (SymRun if c.sym else NatRun)(c, unit, case, cfg).run()


# ---------------------------------------------------------------- Fortran routines called from C++
def whole(run, v):
    """the value of a symbolic integer on this path"""
    while isinstance(v, T) and v.op == "ite":
        v = v.args[1] if run.decide(run.h(v.args[0])) else v.args[2]
        if isinstance(v, T) and v.op == "c": v = int(tm.cval(v))
    return run.to_int(run.h(v)) if isinstance(v, T) else v


def backtrace():
    """where the C++ code is (debugging aid)"""
    l = ctypes.CDLL(None)
    buf = (ctypes.c_void_p * 60)()
    n = l.backtrace(buf, 60)
    l.backtrace_symbols_fd(buf, n, 1)


class DCell(ctypes.Structure):
    _fields_ = [("id", ctypes.c_int64), ("c", ctypes.c_double)]


class CxxStop(Exception):
    pass


_mem = []


def readable(a, n):
    if not _mem: _mem.append(os.open("/proc/self/mem", os.O_RDONLY))
    try:
        return len(os.pread(_mem[0], n, a)) == n
    except (OSError, OverflowError):
        return False


def fortran_call(run, name, args, ret):
    if os.environ.get("AMPE_VERIF_NOTES"): print("fortran", name, flush=True)
    c = run.c
    prog = harness.program(c.dim)
    f = prog.get(name)
    eng = Engine(prog)
    eng.intrinsics = c.eng.intrinsics
    st = State()
    objs = {}
    vals = []
    back = []
    lib = run.lib.l

    def rdD(p):
        d = DCell.from_address(p)
        if d.id == 0: return run.t(run.konst(d.c)) if d.c == d.c else UNDEF
        if d.id >> 47 != 0x5A5A: return UNDEF
        return run.t(d.id)

    bad = []
    for (pn, pt), a in zip(f.params, args):
        byref = "&" in pt or "*" in pt
        if not byref:
            if not pn.startswith("_"): raise Unsupported("by-value parameter of " + name)
            vals.append(1)              # hidden length of a character argument: the prototypes do not pass it
            continue
        isreal = pt.startswith("real") or "double" in pt
        ischar = "char" in pt
        es = 16 if isreal else 1 if ischar else 4
        if a is None:
            vals.append(0)
            continue
        if not readable(a, es):
            bad.append(pn)
            vals.append(0)
            continue
        base, nm = ctypes.c_void_p(), ctypes.c_char_p()
        n = lib.verif_extent(ctypes.c_void_p(a), ctypes.byref(base), ctypes.byref(nm))
        if n < 0:
            m = re.search(r"\[([^\]]*)\]", pt)
            size = 1
            if ischar or (m and not re.fullmatch(r"(\d+,?)+", m.group(1))): size = None
            elif m:
                for x in m.group(1).split(","): size *= int(x)
                if size == 1: size = None            # old style of assumed-size arrays
            b, label = a, pn
        else:
            b, size, label = base.value, n // es, nm.value.decode()
        k = (b, es)
        o = objs.get(k)
        if o is None:
            o = Obj(label + " (" + pn + ")", size, kind="field", esize=8 if isreal else es)
            if isreal: o.default = lambda off, b=b: rdD(b + 16 * off)
            elif ischar: o.default = lambda off, b=b: ctypes.c_ubyte.from_address(b + off).value
            else: o.default = lambda off, b=b: ctypes.c_int32.from_address(b + 4 * off).value
            objs[k] = o
            back.append((o, b, isreal, es))
        vals.append(Ptr(o, (a - b) // es))
    if bad: raise CxxStop("%s is called with wrong arguments: %s" % (name, ", ".join(bad)))
    eng.pc = []
    r = eng.run(f, vals, st)
    h0 = list(c.hyps)
    for pc, msg in eng.aborts:
        c.obl.append((c.uniq("no STOP: " + msg), "prop", tm.not_(tm.and_(*pc)) if pc else tm.FALSE, None, h0))
    for pc, msg in eng.errors:
        c.obl.append((c.uniq("memory: " + msg), "prop", tm.not_(tm.and_(*pc)) if pc else tm.FALSE, None, h0))
    for pc, what in eng.uninit:
        c.obl.append((c.uniq("uninitialised read: " + what), "prop", tm.not_(tm.and_(*pc)) if pc else tm.FALSE, None, h0))
    c.eng.functions |= eng.functions
    for p in eng.pc: c.hyps.append(p)
    for o, b, isreal, es in back:
        for off, v in st.mem.get(o.id, {}).items():
            if isreal:
                if v is UNDEF: continue
                new = tm.lift(eng.num(v))
                if rdD(b + 16 * off) is new: continue      # only read (perhaps from read-only storage)
                d = DCell.from_address(b + 16 * off)
                d.id, d.c = run.h(new), 0.
            elif es == 4:
                v = eng.num(v)
                if isinstance(v, T): v = whole(run, v)
                if ctypes.c_int32.from_address(b + 4 * off).value != int(v): ctypes.c_int32.from_address(b + 4 * off).value = int(v)
    if ret:
        if f.ret.startswith("real") or "double" in f.ret:
            d = DCell.from_address(ret)
            d.id, d.c = run.h(tm.lift(eng.num(r))), 0.
        elif not f.ret.startswith("void"):
            v = eng.num(r)
            if isinstance(v, T): v = whole(run, v)
            ctypes.c_int32.from_address(ret).value = int(v)
