"""Harness layer: one specification function, two back ends.

SymCtx   runs the real code symbolically (GIMPLE executor) and collects obligations.
NatCtx   runs the real compiled code on concrete inputs (counterexample replay, translator validation).
"""
import ctypes, itertools, math, os, random, re
import numpy as np
from fractions import Fraction
from . import terms as tm
from .terms import T
from . import build
from .exec import Engine, Program, Obj, Ptr, State, Unsupported, Abort, UNDEF

_progs = {}


def program(dim):
    d = build.fortran_dumps()
    k = (d, dim)
    if k not in _progs:
        p = Program()
        for f in sorted(os.listdir(d)):
            if f.endswith(".cfg") and not f.startswith("%dd_" % (5 - dim)):
                p.load(d + "/" + f)
        _progs[k] = p
    return _progs[k]


_libs = {}


def library(dim, release=False):
    d = build.fortran_release() if release else build.fortran_dumps()
    k = (d, dim)
    if k not in _libs:
        _libs[k] = ctypes.CDLL(d + "/lib%dd.so" % dim)
    return _libs[k]


class Skip(Exception):
    """an assumption does not hold for this concrete input"""


class Grid:
    """a patch box, 2d or 3d"""

    def __init__(self, lo, hi):
        self.lo, self.hi = tuple(lo), tuple(hi)
        self.dim = len(self.lo)

    @property
    def box(self):
        r = []
        for a, b in zip(self.lo, self.hi):
            r += [a, b]
        return r

    def cells(self, grow=0):
        return list(itertools.product(*[range(a - grow, b + 1 + grow) for a, b in zip(self.lo, self.hi)]))

    def sides(self, d, grow=0):
        return list(itertools.product(*[range(a - grow, b + 1 + grow + (1 if k == d else 0))
                                        for k, (a, b) in enumerate(zip(self.lo, self.hi))]))

    def __repr__(self):
        return "[%s..%s]" % (self.lo, self.hi)


def flatten(args):
    r = []
    for a in args:
        if isinstance(a, (list, tuple)): r.extend(flatten(a))
        else: r.append(a)
    return r


def sh(i, d, k=1):
    i = list(i)
    i[d] += k
    return tuple(i)


class Field:
    """array with Fortran layout over box grown by ng, centring None or side d, and depth"""

    def __init__(self, ctx, name, grid, ng, side=None, depth=1, init="sym", lo=None, hi=None):
        self.ctx, self.name, self.grid, self.side, self.depth = ctx, name, grid, side, depth
        self.ng = ng
        ngv = ng if isinstance(ng, (tuple, list)) else (ng,) * grid.dim
        self.lb = [a - n for a, n in zip(grid.lo, ngv)]
        self.ub = [b + n + (1 if k == side else 0) for k, (b, n) in enumerate(zip(grid.hi, ngv))]
        self.shape = [u - l + 1 for l, u in zip(self.lb, self.ub)]
        self.n1 = int(np.prod(self.shape))
        self.size = self.n1 * depth

    def off(self, idx, m=0):
        o, s = 0, 1
        for i, l, n in zip(idx, self.lb, self.shape):
            if not (0 <= i - l < n):
                raise IndexError("%s%s outside %s:%s" % (self.name, idx, self.lb, self.ub))
            o += (i - l) * s
            s *= n
        return o + m * self.n1

    def idx(self, off):
        m, o = divmod(off, self.n1)
        r = []
        for l, n in zip(self.lb, self.shape):
            o, i = divmod(o, n)
            r.append(i + l)
        return tuple(r), m

    def vname(self, off):
        i, m = self.idx(off)
        s = "%s[%s]" % (self.name, ",".join(map(str, i)))
        return s + (":%d" % m if self.depth > 1 else "")

    def inside(self, off):
        """is the element in the un-grown box"""
        i, m = self.idx(off)
        return all(a <= x <= b + (1 if k == self.side else 0)
                   for k, (x, a, b) in enumerate(zip(i, self.grid.lo, self.grid.hi)))

    def offs(self):
        return range(self.size)

    def __getitem__(self, idx):
        return self.at(idx)

    def at(self, idx, m=0):
        return self.ctx.rd(self, self.off(tuple(idx), m))

    def old(self, idx, m=0):
        return self.ctx.rd0(self, self.off(tuple(idx), m))

    def set(self, idx, v, m=0):
        self.ctx.wr(self, self.off(tuple(idx), m), v)


class CtxBase:
    sym = False

    def nparams(self, name):
        return len(self.prog.get(name).params)

    def grid(self, *a):
        return Grid(*a)

    def uniq(self, label):
        n = self.labels[label] = self.labels.get(label, 0) + 1
        return label if n == 1 else "%s #%d" % (label, n)

    # mathematical helpers, generic over float / Term -----------------------
    def ssum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r


class SymCtx(CtxBase):
    sym = True

    def __init__(self, dim, prog=None):
        self.dim = dim
        self.labels = {}
        self.prog = prog or program(dim)
        self.eng = Engine(self.prog)
        self.st = State()
        self.hyps = []
        self.obl = []            # (label, kind, a, b / cond, extra hyps)
        self.vars = {}           # name -> (lo, hi, sort) sampling hints
        self.fields = []
        self.init = {}
        self.fcalls = []
        self.out_strings = []

    # inputs ---------------------------------------------------------------
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, sample=None):
        v = tm.var(name)
        self._hint(name, lo, hi, pos, nonneg, sample)
        if lo is not None: self.hyps.append(tm.le(tm.lift(lo), v))
        if hi is not None: self.hyps.append(tm.le(v, tm.lift(hi)))
        if pos: self.hyps.append(tm.lt(tm.const(0), v))
        if nonneg: self.hyps.append(tm.le(tm.const(0), v))
        return v

    def _hint(self, name, lo, hi, pos, nonneg, sample):
        self.vars[name] = (lo, hi, pos, nonneg, sample)

    def integer(self, name, lo, hi):
        v = tm.var(name, "I")
        self.vars[name] = (lo, hi, False, False, "int")
        self.hyps.append(tm.le(tm.const(lo, "I"), v))
        self.hyps.append(tm.le(v, tm.const(hi, "I")))
        return v

    def const(self, x):
        return tm.lift(Fraction(x) if not isinstance(x, float) else x)

    def field(self, name, grid, ng=0, side=None, depth=1, init="sym", ro=False, **hint):
        f = Field(self, name, grid, ng, side, depth, init)
        o = Obj(name, f.size, kind="field", writable=not ro)
        f.obj = o
        hyps = self.hyps

        def default(off):
            nm = f.vname(off)
            if init == "sym":
                if nm not in self.vars:
                    return self.real(nm, **hint)
                return tm.var(nm)
            if callable(init):
                i, m = f.idx(off)
                return tm.lift(init(i, m))
            return tm.lift(init)
        if init is None:
            o.default = None
        else:
            o.default = default
        self.fields.append(f)
        return f

    def cell(self, name, grid, ng=0, depth=1, **k):
        return self.field(name, grid, ng, None, depth, **k)

    def sides(self, name, grid, ng=0, depth=1, **k):
        return [self.field("%s%d" % (name, d), grid, ng, d, depth, **k) for d in range(grid.dim)]

    def vec(self, name, n, **k):
        g = Grid((0,), (n - 1,))
        return self.field(name, g, 0, **k)

    def vecof(self, name, vals):
        g = Grid((0,), (len(vals) - 1,))
        return self.field(name, g, 0, init=lambda i, m: vals[i[0]])

    def ivec(self, name, vals, symhint=None):
        g = Grid((0,), (len(vals) - 1,))
        f = Field(self, name, g, 0)
        o = Obj(name, f.size, kind="field", esize=4)
        o.default = lambda off: vals[off]
        f.obj = o
        f.isint = True
        return f

    def ifield(self, name, grid, ng=0, side=None, depth=1, init=0):
        f = Field(self, name, grid, ng, side, depth)
        o = Obj(name, f.size, kind="field", esize=4)

        def default(off):
            if callable(init):
                i, m = f.idx(off)
                return init(i, m)
            return init
        o.default = default
        f.obj = o
        f.isint = True
        return f

    def rd(self, f, off):
        return self.eng.num(self.eng.load_cell(self.st, f.obj, off))

    def rd0(self, f, off):
        return f.obj.default(off)

    def wr(self, f, off, v):
        self.eng.store_cell(self.st, f.obj, off, v)

    # calls ------------------------------------------------------------------
    def call(self, name, *args):
        f = self.prog.get(name)
        if f is None:
            raise Unsupported("no such routine: " + name)
        vals, strs, outs = [], [], []
        np_ = len(f.params)
        flat = flatten(args)
        nstr = sum(isinstance(a, str) for a in flat)
        if len(flat) + nstr != np_:
            raise Unsupported("%s: expected %d parameters, harness gives %d" % (name, np_ - nstr, len(flat)))
        for a, (pn, pt) in zip(flat, f.params):
            byref = pt.endswith(("&", "*", "& restrict", "* restrict")) or "&" in pt or "*" in pt
            if isinstance(a, Field):
                vals.append(Ptr(a.obj, 0))
            elif isinstance(a, Ref):
                vals.append(Ptr(a.obj, 0))
            elif isinstance(a, str):
                o = Obj("arg:" + pn, len(a), kind="str", esize=1, writable=False)
                o.default = lambda i, a=a: ord(a[i])
                vals.append(Ptr(o, 0))
                strs.append(len(a))
            else:
                v = a
                isreal = pt.startswith("real") or pt.startswith("double") or "double" in pt
                if isreal:
                    v = tm.lift(v)
                elif isinstance(v, T) and v.op == "c":
                    v = int(tm.cval(v))
                if byref:
                    o = Obj("arg:" + pn, 1, kind="arg", esize=8 if isreal else 4)
                    self.st.mem[o.id] = {0: v}
                    self.st.owned.add(o.id)
                    vals.append(Ptr(o, 0))
                else:
                    vals.append(v)
        vals += strs
        self.fcalls.append(name)
        n0 = len(self.eng.pc)
        r = self.eng.run(f, vals, self.st)
        # a STOP on some paths: later obligations hold under the surviving condition
        for p in self.eng.pc[n0:]:
            self.hyps.append(p)
        return self.eng.num(r)

    def ref(self, name, init=None, integer=False):
        return Ref(self, name, init, integer)

    # logic -------------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, T):
            self.hyps.append(c)
        elif not c:
            raise Skip()

    def eq(self, a, b, label):
        label = self.uniq(label)
        self.obl.append((label, "eq", tm.lift(a), tm.lift(b), list(self.hyps)))

    def prove(self, c, label):
        if not isinstance(c, T):
            c = tm.boolc(bool(c))
        label = self.uniq(label)
        self.obl.append((label, "prop", c, None, list(self.hyps)))

    def no_abort(self, label="no STOP"):
        for pc, msg in self.eng.aborts:
            self.obl.append((label + ": " + msg, "prop", tm.not_(tm.and_(*pc)) if pc else tm.FALSE, None,
                             [h for h in self.hyps if not any(h is tm.not_(p) for p in pc)]))

    def memory_clean(self, label="memory"):
        for pc, msg in self.eng.errors:
            self.obl.append((label + ": " + msg, "prop", tm.not_(tm.and_(*pc)) if pc else tm.FALSE, None, list(self.hyps)))
        self.eng.errors = []

    def unchanged(self, f, where=None, label="unchanged"):
        """elements of f (where(idx) true) keep their initial value"""
        cells = self.st.mem.get(f.obj.id, {})
        for off, v in sorted(cells.items()):
            i, m = f.idx(off)
            if where is None or where(i):
                v0 = f.obj.default(off)
                if isinstance(v, int) and isinstance(v0, int):
                    self.prove(v == v0, "%s %s" % (label, f.vname(off)))
                elif v is not v0:
                    self.eq(v, v0, "%s %s" % (label, f.vname(off)))

    # math ---------------------------------------------------------------------
    def lt(self, a, b): return tm.lt(tm.lift(a), tm.lift(b))
    def le(self, a, b): return tm.le(tm.lift(a), tm.lift(b))
    def gt(self, a, b): return tm.gt(tm.lift(a), tm.lift(b))
    def ge(self, a, b): return tm.ge(tm.lift(a), tm.lift(b))
    def and_(self, *a): return tm.and_(*[x if isinstance(x, T) else tm.boolc(x) for x in a])
    def or_(self, *a): return tm.or_(*[x if isinstance(x, T) else tm.boolc(x) for x in a])
    def not_(self, a): return tm.not_(a if isinstance(a, T) else tm.boolc(a))
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def eqc(self, a, b):
        a, b = (a, b) if isinstance(a, T) else (b, a)
        if not isinstance(a, T): return tm.boolc(a == b)
        return tm.eq(a, tm.lift(b, a.sort))
    def ite(self, c, a, b):
        if not isinstance(c, T): return a if c else b
        return tm.ite(c, tm.lift(a), tm.lift(b))
    def select(self, k, vals):
        """vals[k] for an integer term k made of choices between constants"""
        if isinstance(k, int): return vals[k]
        memo = {}

        def go(t):
            r = memo.get(t.id)
            if r is None:
                if t.op == "c":
                    j = int(tm.cval(t))
                    r = tm.lift(vals[j]) if 0 <= j < len(vals) else tm.var("out of range")
                elif t.op == "ite": r = tm.ite(t.args[0], go(t.args[1]), go(t.args[2]))
                else:
                    r = tm.var("out of range")
                    for j in reversed(range(len(vals))): r = tm.ite(tm.eq(t, tm.const(j, "I")), tm.lift(vals[j]), r)
                memo[t.id] = r
            return r
        return go(k)
    def max(self, a, b): return tm.max_(a, b)
    def min(self, a, b): return tm.min_(a, b)
    def abs(self, a): return tm.abs_(a)
    def sqrt(self, a): return tm.sqrt(a)
    def fn(self, name, *a): return tm.uf(name, *a)
    def div(self, a, b): return tm.div(tm.lift(a), tm.lift(b))
    pi = tm.lift(math.pi)


class Ref:
    """scalar passed by reference"""

    def __init__(self, ctx, name, init, integer):
        self.ctx, self.name = ctx, name
        self.integer = integer
        if ctx.sym:
            self.obj = Obj(name, 1, kind="ref", esize=4 if integer else 8)
            if init is not None:
                ctx.st.mem[self.obj.id] = {0: init if integer else tm.lift(init)}
                ctx.st.owned.add(self.obj.id)
        else:
            self.arr = np.zeros(1, dtype=np.int32 if integer else np.float64)
            if init is not None: self.arr[0] = init
            else: self.arr[0] = 77 if integer else 1e30

    @property
    def value(self):
        if self.ctx.sym:
            v = self.ctx.eng.num(self.ctx.eng.load_cell(self.ctx.st, self.obj, 0))
            return v
        return int(self.arr[0]) if self.integer else float(self.arr[0])


class NatCtx(CtxBase):
    """concrete run of the compiled code; env gives input values by name, others are drawn from rng"""
    sym = False

    def __init__(self, dim, env, rng, release=False, lib=None, tol=1e-7, prog=None):
        self.dim = dim
        self.labels = {}
        self.env = dict(env)
        self.rng = rng
        self.lib = lib or library(dim, release)
        self.prog = prog or program(dim)
        self.fail = []
        self.values = {}
        self.tol = tol
        self.used = {}
        self.checked = 0
        self.scale_hint = 1.0
        self.obs = []

    def _val(self, name, lo=None, hi=None, pos=False, nonneg=False, sample=None):
        if name in self.env:
            v = float(self.env[name])
        else:
            if sample is not None and sample != "int" and not callable(sample):
                v = self.rng.choice(list(sample))
            elif callable(sample):
                v = sample(self.rng)
            else:
                a = lo if lo is not None else (0.1 if pos else 0. if nonneg else -1.5)
                b = hi if hi is not None else max(2., float(a) + 2.)
                v = self.rng.uniform(float(a), float(b))
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, sample=None):
        v = self.used[name] if name in self.used else self._val(name, lo, hi, pos, nonneg, sample)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0) or (nonneg and v < 0):
            raise Skip()
        return v

    def integer(self, name, lo, hi):
        v = int(self.env[name]) if name in self.env else self.rng.randint(lo, hi)
        self.used[name] = v
        return v

    def const(self, x):
        return float(x)

    def field(self, name, grid, ng=0, side=None, depth=1, init="sym", ro=False, **hint):
        f = Field(self, name, grid, ng, side, depth, init)
        f.arr = np.zeros(f.size)
        for o in range(f.size):
            if init == "sym":
                f.arr[o] = self.real(f.vname(o), **hint)
            elif init is None:
                f.arr[o] = 1.e30 + o
            elif callable(init):
                i, m = f.idx(o)
                f.arr[o] = float(init(i, m))
            else:
                f.arr[o] = float(init)
        f.arr0 = f.arr.copy()
        return f

    cell = SymCtx.cell
    sides = SymCtx.sides
    vec = SymCtx.vec
    vecof = SymCtx.vecof

    def ivec(self, name, vals, symhint=None):
        g = Grid((0,), (len(vals) - 1,))
        f = Field(self, name, g, 0)
        f.arr = np.array(vals, dtype=np.int32)
        f.arr0 = f.arr.copy()
        f.isint = True
        return f

    def ifield(self, name, grid, ng=0, side=None, depth=1, init=0):
        f = Field(self, name, grid, ng, side, depth)
        f.arr = np.zeros(f.size, dtype=np.int32)
        for o in range(f.size):
            i, m = f.idx(o)
            f.arr[o] = init(i, m) if callable(init) else init
        f.arr0 = f.arr.copy()
        f.isint = True
        return f

    def rd(self, f, off): return f.arr[off].item()
    def rd0(self, f, off): return f.arr0[off].item()
    def wr(self, f, off, v): f.arr[off] = v

    def ref(self, name, init=None, integer=False):
        return Ref(self, name, init, integer)

    def call(self, name, *args):
        f = self.prog.get(name)
        flat = flatten(args)
        cargs, strs, keep = [], [], []
        for a, (pn, pt) in zip(flat, f.params):
            byref = "&" in pt or "*" in pt
            isreal = pt.startswith("real") or "double" in pt
            if isinstance(a, (Field, Ref)):
                cargs.append(ctypes.c_void_p(a.arr.ctypes.data))
            elif isinstance(a, str):
                b = ctypes.create_string_buffer(a.encode())
                keep.append(b)
                cargs.append(b)
                strs.append(ctypes.c_long(len(a)))
            elif byref:
                x = ctypes.c_double(float(a)) if isreal else ctypes.c_int(int(a))
                keep.append(x)
                cargs.append(ctypes.byref(x))
            else:
                cargs.append(ctypes.c_double(float(a)) if isreal else ctypes.c_int(int(a)))
        fn = getattr(self.lib, f.asm)
        rt = f.ret
        if rt.startswith("real") or "double" in rt: fn.restype = ctypes.c_double
        elif rt.startswith("void"): fn.restype = None
        else: fn.restype = ctypes.c_int
        r = fn(*(cargs + strs))
        return r

    def assume(self, c):
        if not c: raise Skip()

    def eq(self, a, b, label):
        self.checked += 1
        label = self.uniq(label)
        a, b = float(a), float(b)
        self.obs.append((label, a, b))
        bad = not (abs(a - b) <= self.tol * max(self.scale_hint, abs(a), abs(b)))
        if b != b or math.isinf(b): bad = False      # the reference itself is undefined here
        if bad:
            self.fail.append((label, a, b))

    def prove(self, c, label):
        self.checked += 1
        label = self.uniq(label)
        self.obs.append((label, bool(c), True))
        if not c:
            self.fail.append((label, False, True))

    def no_abort(self, label=""): pass
    def memory_clean(self, label=""): pass

    def unchanged(self, f, where=None, label="unchanged"):
        for off in range(f.size):
            i, m = f.idx(off)
            if where is None or where(i):
                if f.arr[off] != f.arr0[off] and not (f.arr[off] != f.arr[off] and f.arr0[off] != f.arr0[off]):
                    self.eq(f.arr[off], f.arr0[off], "%s %s" % (label, f.vname(off)))

    SL = 1e-9

    def _sl(self, a, b): return self.SL * max(1., abs(a), abs(b))
    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b + self._sl(a, b)
    def gt(self, a, b): return a > b
    def ge(self, a, b): return a >= b - self._sl(a, b)
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def eqc(self, a, b): return abs(a - b) <= self._sl(a, b)
    def ite(self, c, a, b): return a if c else b
    def select(self, k, vals): return vals[k] if 0 <= k < len(vals) else float("nan")
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def abs(self, a): return abs(a)
    def sqrt(self, a): return math.sqrt(a) if a >= 0 else float("nan")
    def fn(self, name, *a): return tm._FN[name](*a)
    def div(self, a, b): return a / b if b != 0 else float("nan")
    pi = math.pi
