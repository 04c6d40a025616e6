"""SMT back end: translation of terms to z3 and the decision of obligations."""
import time, random, math
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T


def q(fr):
    return z3.RatVal(fr.numerator, fr.denominator)


class Enc:
    """term -> z3, with named atoms for sqrt / division / min-max / transcendental functions"""

    def __init__(self, dom=None):
        self.dom = dom
        self.memo = {}
        self.side = []       # definitional constraints that are always added (sound facts)
        self.atoms = {}      # key -> z3 const
        self.vars = {}
        self.domain = []     # (kind, z3 cond) domain assumptions made: denominators non-zero, sqrt args >= 0
        self.ufs = {}

    def atom(self, kind, key, sort="R"):
        k = (kind, key)
        v = self.atoms.get(k)
        new = v is None
        if new:
            nm = "%s!%d" % (kind, len(self.atoms))
            v = z3.Real(nm) if sort == "R" else z3.Int(nm)
            self.atoms[k] = v
        return v, new

    def key(self, t):
        try:
            return tm.pkey(tm.canon(t))
        except tm.TooBig:
            return ("id", t.id)

    def tr(self, t):
        for s in tm.topo([t]):
            if s.id not in self.memo:
                self.memo[s.id] = self.tr1(s)
        return self.memo[t.id]

    def poly(self, p):
        """z3 expression of a canonical polynomial (tuple of items)"""
        terms = []
        for m, c in (p.items() if isinstance(p, dict) else p):
            e = q(c)
            first = True
            for a, k in m:
                base = self.atomz(a)
                if k < 0:
                    base = self.inv_atom(a)
                for _ in range(abs(k)):
                    e = e * base if not first or c != 1 else base
                    first = False
            terms.append(e)
        if not terms: return q(Fraction(0))
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def atomz(self, a):
        kind, pl = tm.ATOMS[a]
        if kind == "v":
            return self.getvar(pl, "R")
        if kind == "sqrt":
            return self.mk_sqrt(pl, lambda: self.poly(pl))
        if kind == "relu":
            return self.mk_relu(pl, lambda: self.poly(pl))
        if kind == "sum":
            return self.poly(pl)
        if kind == "ite":
            return z3.If(self.cond(pl[0]), self.poly(pl[1]), self.poly(pl[2]))
        if kind.startswith("uf:"):
            return self.mk_uf(kind[3:], pl, [lambda p=p: self.poly(p) for p in pl])
        v, new = self.atom("opq", a)
        return v

    def cond(self, c):
        k = c[0]
        if k == "true": return z3.BoolVal(True)
        if k == "false": return z3.BoolVal(False)
        if k == "not": return z3.Not(self.cond(c[1]))
        if k == "and": return z3.And(*[self.cond(x) for x in c[1:]])
        if k == "<": return self.poly(c[1]) < 0
        if k == "<=": return self.poly(c[1]) <= 0
        if k == "==": return self.poly(c[1]) == 0
        if k == "bv": return z3.Bool(c[1])
        if k == "bite": return z3.If(self.cond(c[1]), self.cond(c[2]), self.cond(c[3]))
        raise KeyError(k)

    def inv_atom(self, a):
        v, new = self.atom("inv", a)
        if new:
            b = self.atomz(a)
            if self.dom is not None and self.dom.atompos(a):
                self.side += [v * b == 1, v > 0, b > 0]
            else:
                self.side.append(z3.Or(b == 0, v * b == 1))
        return v

    def mk_sqrt(self, key, argf):
        v, new = self.atom("sqrt", key)
        if new:
            a = argf()
            self.side.append(z3.Implies(a >= 0, z3.And(v >= 0, v * v == a)))
        return v

    def mk_relu(self, key, argf):
        v, new = self.atom("relu", key)
        if new:
            a = argf()
            self.side.append(z3.Or(z3.And(a >= 0, v == a), z3.And(a <= 0, v == 0)))
        return v

    def mk_uf(self, name, key, argfs):
        v, new = self.atom("uf:" + name, key)
        if new:
            args = [f() for f in argfs]
            S = self.side
            if name == "exp":
                S.append(v > 0)
                S.append(z3.Implies(args[0] <= 0, v <= 1))
                S.append(z3.Implies(args[0] >= 0, v >= 1))
                S.append((v == 1) == (args[0] == 0))
            elif name == "log":
                S += [z3.Implies(args[0] > 0, z3.And((v > 0) == (args[0] > 1), (v == 0) == (args[0] == 1)))]
            elif name == "cosh":
                S += [v >= 1, (v == 1) == (args[0] == 0)]
            elif name == "tanh":
                S += [v > -1, v < 1, (v > 0) == (args[0] > 0), (v < 0) == (args[0] < 0)]
            elif name in ("sin", "cos"):
                S += [v >= -1, v <= 1]
                o, n2 = self.atom("uf:" + ("cos" if name == "sin" else "sin"), key)
                S.append(v * v + o * o == 1)
            elif name == "acos":
                S += [v >= 0, v <= q(Fraction("3.1415926535897933")), z3.Implies(args[0] == -1, v >= q(Fraction("3.1415926535897932")))]
            elif name == "pow":
                S.append(z3.Implies(args[0] > 0, v > 0))
            # functional congruence with the other applications of the same function
            L = self.ufs.setdefault(name, [])
            for (w, wargs) in L:
                S.append(z3.Implies(z3.And(*[x == y for x, y in zip(args, wargs)]), v == w))
                if name in ("exp", "log", "tanh", "atan") :
                    S.append(z3.Implies(args[0] < wargs[0], v < w))
                    S.append(z3.Implies(args[0] > wargs[0], v > w))
                if name == "acos":
                    S.append(z3.Implies(z3.And(args[0] < wargs[0], args[0] >= -1, wargs[0] <= 1), v > w))
                    S.append(z3.Implies(z3.And(args[0] > wargs[0], wargs[0] >= -1, args[0] <= 1), v < w))
            L.append((v, args))
        return v

    def getvar(self, name, sort):
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name) if sort == "R" else z3.Int(name) if sort == "I" else z3.Bool(name)
            self.vars[name] = v
        return v

    def tr1(self, s):
        op = s.op
        g = lambda i: self.memo[s.args[i].id]
        if op == "c":
            return q(s.args[0]) if s.sort == "R" else z3.IntVal(int(s.args[0]))
        if op == "v": return self.getvar(s.args[0], s.sort)
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "+": return g(0) + g(1)
        if op == "-": return g(0) - g(1)
        if op == "*": return g(0) * g(1)
        if op == "neg": return -g(0)
        if op == "<": return g(0) < g(1)
        if op == "<=": return g(0) <= g(1)
        if op == "==": return g(0) == g(1)
        if op == "not": return z3.Not(g(0))
        if op == "and": return z3.And(*[self.memo[a.id] for a in s.args])
        if op == "ite": return z3.If(g(0), g(1), g(2))
        if op == "/":
            b = s.args[1]
            try:
                p = tm.canon(b)
                if len(p) == 1 or p:
                    return g(0) * self.poly(tm.pinv(p))
            except tm.TooBig:
                pass
            v, new = self.atom("invid", b.id)
            if new:
                self.side.append(z3.Or(g(1) == 0, v * g(1) == 1))
            return g(0) * v
        if op in ("max", "min", "abs", "relu"):
            try:
                return self.poly(tm.canon(s))
            except tm.TooBig:
                pass
            if op == "max": return z3.If(g(0) >= g(1), g(0), g(1))
            if op == "min": return z3.If(g(0) <= g(1), g(0), g(1))
            if op == "abs": return z3.If(g(0) >= 0, g(0), -g(0))
            return z3.If(g(0) >= 0, g(0), q(Fraction(0)))
        if op == "sqrt":
            return self.mk_sqrt(self.key(s.args[0]), lambda: g(0))
        if op.startswith("uf:"):
            return self.mk_uf(op[3:], tuple(self.key(a) for a in s.args), [lambda a=a: self.memo[a.id] for a in s.args])
        if op == "toreal": return z3.ToReal(g(0))
        if op == "toint":
            return z3.If(g(0) >= 0, z3.ToInt(g(0)), -z3.ToInt(-g(0)))
        if op == "tdiv":
            d = g(1)
            return z3.If(g(0) >= 0, g(0) / d, -((-g(0)) / d))
        raise KeyError(op)


class Dom:
    """definedness (no 0-division, no sqrt/log of negatives) and structural sign knowledge from the hypotheses"""

    def __init__(self, hyps):
        self.posv, self.nnv = set(), set()
        st = list(hyps)
        while st:
            h = st.pop()
            if h.op == "and": st.extend(h.args)
            elif h.op in ("<", "<=") and h.args[0].op == "c" and h.args[1].op == "v":
                c = tm.cval(h.args[0])
                n = h.args[1].args[0]
                if c > 0 or (c == 0 and h.op == "<"): self.posv.add(n)
                if c >= 0: self.nnv.add(n)
        self.ps, self.nn, self.mc = {}, {}, {}

    def atompos(self, a):
        k, pl = tm.ATOMS[a]
        if k == "v": return pl in self.posv
        if k == "sqrt" or k == "sum": return self.polypos(pl)
        if k in ("uf:exp", "uf:cosh"): return True
        return False

    def polypos(self, p):
        strict = False
        for m, c in p:
            if c < 0: return False
            st = True
            for a, e in m:
                if self.atompos(a): continue
                st = False
                k, pl = tm.ATOMS[a]
                if e % 2 == 0: continue
                if (k == "v" and pl in self.nnv) or k in ("sqrt", "relu"): continue
                return False
            strict = strict or st
        return strict

    def pos(self, t): return self.sign(t) == 2
    def nonneg(self, t): return self.sign(t) >= 1

    def sign(self, t):
        for s in tm.topo([t]):
            if s.id not in self.ps: self.ps[s.id] = self._sign1(s)
        return self.ps[t.id]

    def _sign1(self, s):
        """2 positive, 1 non-negative, 0 unknown, -1 non-positive, -2 negative"""
        op = s.op
        if s.sort == "B": return 0
        if op == "c":
            c = tm.cval(s)
            return 2 if c > 0 else 1 if c == 0 else -2
        if op == "v": return 2 if s.args[0] in self.posv else 1 if s.args[0] in self.nnv else 0
        g = [self.ps[a.id] for a in s.args if isinstance(a, T)]
        if op in ("+", "-"):
            x, y = g[0], (g[1] if op == "+" else -g[1])
            if op == "-" and s.args[1].op == "c" and tm.cval(s.args[1]) == 0: y = 1
            if x >= 1 and y >= 1: return max(x, y)
            if x <= -1 and y <= -1: return min(x, y)
            return 0
        if op == "neg": return -g[0] if g[0] not in (1,) or s.args[0].op != "c" else 1
        if op in ("*", "/"):
            if op == "*" and s.args[0] is s.args[1]: return 2 if abs(g[0]) == 2 else 1
            x, y = g
            if x == 0 or y == 0: return 0
            sg = 1 if x * y > 0 else -1
            return sg * (2 if abs(x) == 2 and abs(y) == 2 else 1)
        if op == "ite": 
            x, y = g[1], g[2]
            if x >= 1 and y >= 1: return min(x, y)
            if x <= -1 and y <= -1: return max(x, y)
            return 0
        if op == "max": return max(g)
        if op == "min": return min(g)
        if op == "abs": return 2 if abs(g[0]) == 2 else 1
        if op == "relu": return 2 if g[0] == 2 else 1
        if op == "sqrt": return 2 if g[0] == 2 else 1
        if op in ("uf:exp", "uf:cosh"): return 2
        if op == "uf:pow": return 2 if g[0] == 2 else 0
        if op == "toreal": return g[0]
        return 0

    def defd(self, t):
        for s in tm.topo([t]):
            if s.id not in self.mc: self.mc[s.id] = self._def1(s)
        return self.mc[t.id]

    def _def1(self, s):
        a = [x for x in s.args if isinstance(x, T)]
        d = [self.mc[x.id] for x in a]
        op = s.op
        if op == "ite":
            if a[0].sort == "B":
                return tm.and_(d[0], tm.ite(a[0], d[1], d[2]))
        r = tm.and_(*d) if d else tm.TRUE
        if op == "/" and abs(self.sign(a[1])) != 2 and not (tm.isc(a[1])):
            r = tm.and_(r, tm.not_(tm.eq(a[1], tm.const(0))))
        elif op == "/" and tm.isc(a[1]) and tm.cval(a[1]) == 0:
            return tm.FALSE
        elif op == "sqrt" and self.sign(a[0]) < 1:
            r = tm.and_(r, tm.le(tm.const(0), a[0]))
        elif op == "uf:log" and self.sign(a[0]) < 2:
            r = tm.and_(r, tm.lt(tm.const(0), a[0]))
        elif op == "uf:pow" and self.sign(a[0]) < 2:
            r = tm.and_(r, tm.lt(tm.const(0), a[0]))
        elif op == "uf:acos":
            r = tm.and_(r, tm.le(tm.const(-1), a[0]), tm.le(a[0], tm.const(1)))
        return r


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.
        self.unsat = 0
        self.by = {}


def model_env(m, enc):
    env = {}
    for n, v in enc.vars.items():
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_rational_value(x): env[n] = float(x.as_fraction())
            elif z3.is_int_value(x): env[n] = x.as_long()
            elif z3.is_algebraic_value(x): env[n] = float(x.approx(20).as_fraction())
            elif z3.is_true(x): env[n] = True
            elif z3.is_false(x): env[n] = False
        except OverflowError:
            pass
    return env


def relevant(hyps, ts):
    """hypotheses connected to the variables of the goal (cone of influence)"""
    vs = set()
    for t in tm.subterms(ts):
        if t.op == "v": vs.add(t.id)
    hv = []
    for h in hyps:
        hv.append((h, {x.id for x in tm.subterms([h]) if x.op == "v"}))
    out, ch = [], True
    left = hv
    while ch:
        ch = False
        nl = []
        for h, s in left:
            if not s or s & vs:
                out.append(h)
                if not s <= vs:
                    vs |= s
                    ch = True
            else:
                nl.append((h, s))
        if len(nl) == len(left): ch = False
        left = nl
    return out


def decide(hyps, kind, a, b, st, timeout=20000, tactic=None):
    """-> ('proved', how) | ('cex', env) | ('unknown', reason)"""
    t0 = time.time()
    try:
        return _decide(hyps, kind, a, b, st, timeout, tactic)
    finally:
        st.time += time.time() - t0


def _count(st, how):
    st.by[how] = st.by.get(how, 0) + 1


_defmemo = {}


def _decide(hyps, kind, a, b, st, timeout, tactic):
    dom = Dom(hyps)
    if kind == "eq" and a.sort == "R" and b.sort == "R":
        how = _poly_identity(a, b, st)
        da, db = dom.defd(a), dom.defd(b)
        if how is None and hyps:
            (a, b), ch = context_simplify([a, b], hyps, dom, st)
            if ch:
                how = _poly_identity(a, b, st)
        if how is None and (a.op == "ite" or b.op == "ite"):
            how = path_split(hyps, dom, a, b, st)
        if how is None:
            how = case_split(hyps, dom, a, b, st)
        if how is None:
            r = _query(hyps, dom, lambda e, gp: (e.poly(gp) != 0) if gp is not None else e.tr(a) != e.tr(b), [a, b],
                       st, timeout, extra=[db], goal=(a, b), gap=(a, b), gpoly=_gpoly(a, b) if db is tm.TRUE and da is tm.TRUE else None)
            if r[0] != "proved": return r
            how = r[1]
        if da is not tm.TRUE and db is not tm.TRUE:
            have = {x.id for x in (db.args if db.op == "and" else [db])}
            da = tm.and_(*[x for x in (da.args if da.op == "and" else [da]) if x.id not in have])
        if da is not tm.TRUE:
            # the code's value is defined wherever the reference is
            k = (da.id, db.id, tuple(h.id for h in hyps))
            r = _defmemo.get(k)
            if r is None:
                r = _query(hyps, dom, lambda e, gp: z3.Not(e.tr(da)), [da], st, timeout, extra=[db], goal=(da, db))
                _defmemo[k] = r
            if r[0] != "proved":
                return (r[0], r[1]) if r[0] == "cex" else ("unknown", "definedness " + str(r[1]))
        return "proved", how
    c = tm.eq(a, b) if kind == "eq" else a
    if has_ite(c) and c is not tm.TRUE and _size(c) < 20000:
        r = _query(hyps, dom, lambda e, gp: z3.Not(e.tr(c)), [c], st, 3000, quick=True)
        if r[0] != "unknown": return r
        (c,), ch = context_simplify([c], hyps, dom, st, noite=True)
        how = prop_split(hyps, dom, c, st)
        if how is not None: return "proved", how
    if c is tm.TRUE:
        st.queries += 1
        _count(st, "z3-smt")
        s = z3.Solver()
        s.add(z3.Not(z3.BoolVal(True)))
        return ("proved", "const") if s.check() == z3.unsat else ("unknown", "?")
    return _query(hyps, dom, lambda e, gp: z3.Not(e.tr(c)), [c], st, timeout, goal=(c,))


def context_simplify(ts, hyps, dom, st, limit=200, tmo=300, noite=False):
    """resolve max/min/abs/relu/ite conditions that the hypotheses decide"""
    conds = []
    hs = None
    sol = None
    memo = {}
    enc = None

    def implied(c, alt):
        nonlocal sol, enc
        if sol is None:
            enc = Enc(dom)
            sol = z3.Solver()
            sol.set("timeout", tmo)
            for h in relevant(hyps, ts): sol.add(enc.tr(h))
        for x, val in ((c, True), (alt, False)):
            sol.push()
            sol.add(z3.Not(enc.tr(x)))
            for sd in enc.side: sol.add(sd)
            st.queries += 1
            r = sol.check()
            sol.pop()
            if r == z3.unsat: return val
        return None
    n = 0
    ch = False
    for s in tm.topo(ts):
        if not s.args or s.op in ("c", "v"):
            memo[s.id] = s
            continue
        args = [memo[x.id] if isinstance(x, T) else x for x in s.args]
        c = None
        if s.op in ("max", "min"): c, alt = tm.le(args[0], args[1]), tm.le(args[1], args[0])
        elif s.op in ("relu", "abs"): c, alt = tm.le(tm.const(0), args[0]), tm.le(args[0], tm.const(0))
        elif s.op == "ite": c, alt = args[0], tm.not_(args[0])
        r = tm.rebuild(s, args)
        if c is not None and r.op == s.op and n < limit and _size(c) < 200 and not (noite and has_ite(c)):
            n += 1
            v = True if c is tm.TRUE else False if c is tm.FALSE else implied(c, alt)
            if v is not None:
                ch = True
                if s.op == "max": r = args[1] if v else args[0]
                elif s.op == "min": r = args[0] if v else args[1]
                elif s.op == "relu": r = args[0] if v else tm.const(0)
                elif s.op == "abs": r = args[0] if v else tm.neg(args[0])
                else: r = args[1] if v else args[2]
        memo[s.id] = r
    return [memo[t.id] for t in ts], ch


def _poly_identity(a, b, st):
    # 1. raw identity: the solver's own polynomial normaliser, atoms uninterpreted
    try:
        if _size(a) + _size(b) < 1500:
            enc = Enc()
            d = enc.tr(a) - enc.tr(b)
            st.queries += 1
            r = z3.simplify(d, som=True, mul_to_power=True, max_steps=400000)
            if z3.is_rational_value(r) and r.numerator_as_long() == 0:
                _count(st, "z3-poly")
                return "z3-poly"
    except z3.Z3Exception:
        pass
    # 2. cleared denominators / sqrt powers reduced, then the solver
    try:
        p = tm.clear_denominators(tm.canon(tm.sub(a, b)))
        if not p:
            s = z3.Solver()
            s.add(Enc().poly(p) != 0)
            st.queries += 1
            if s.check() == z3.unsat:
                _count(st, "z3-after-normalisation")
                return "z3-after-normalisation"
    except tm.TooBig:
        pass
    return None


def has_ite(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        for s in tm.topo([t]):
            if s.id not in memo:
                memo[s.id] = s.op == "ite" or any(isinstance(x, T) and memo[x.id] for x in s.args)
        r = memo[t.id]
    return r


def _first_atom(t):
    """the condition to split on first: outermost ite, then the innermost condition deciding it"""
    while True:
        while t.op != "ite":
            nx = [x for x in t.args if isinstance(x, T) and has_ite(x)]
            if not nx: return None
            t = nx[0]
        c = t.args[0]
        while c.op in ("not", "and"):
            nx = [x for x in c.args if has_ite(x)] or list(c.args)
            c = nx[0]
        if not has_ite(c): return c
        t = c


def path_split(hyps, dom, a, b, st, limit=3000, smt=20):
    """Shannon expansion over the branch conditions, one solver decision per leaf; None when a leaf is not proved"""
    memo = {}
    left = [limit, smt]

    def go(a, b, path):
        if a is b: return True
        k = (a.id, b.id)
        if k in memo: return memo[k]
        left[0] -= 1
        if left[0] < 0: return False
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
            c = a.args[0]
            r = go(a.args[1], b.args[1], path + [c]) and go(a.args[2], b.args[2], path + [tm.not_(c)])
        else:
            c = _first_atom(a) if has_ite(a) else _first_atom(b) if has_ite(b) else None
            if c is None:
                r = _poly_identity(a, b, st) is not None
                if not r and left[1] > 0:
                    left[1] -= 1
                    # this path may be infeasible, or the values agree on it
                    q1 = _query(hyps + path, dom, lambda e, gp: e.tr(a) != e.tr(b), [a, b] + path, st, 3000)
                    return q1[0] == "proved"        # depends on the path: not memoised
            else:
                n = tm.not_(c)
                r = True
                for m, pc in (({c.id: tm.TRUE, n.id: tm.FALSE}, c), ({c.id: tm.FALSE, n.id: tm.TRUE}, n)):
                    if not go(tm.subst(a, m), tm.subst(b, m), path + [pc]):
                        r = False
                        break
        memo[k] = r
        return r
    if go(a, b, []):
        _count(st, "path-split")
        return "path-split"
    return None


def as_ites(t):
    """max, min and positive part written as choices"""
    memo = {}
    for s in tm.topo([t]):
        args = [memo[x.id] if isinstance(x, T) else x for x in s.args]
        if s.op == "max": r = tm.ite(tm.lt(args[1], args[0]), args[0], args[1])
        elif s.op == "min": r = tm.ite(tm.lt(args[0], args[1]), args[0], args[1])
        elif s.op == "relu": r = tm.ite(tm.lt(args[0], tm.const(0)), tm.const(0), args[0])
        elif s.args and s.op not in ("c", "v"): r = tm.rebuild(s, args)
        else: r = s
        memo[s.id] = r
    return memo[t.id]


def case_split(hyps, dom, a, b, st, leaves=48, tmo=400):
    """feasible combinations of the branch conditions found anywhere inside a and b, one polynomial identity for each"""
    if _size(a) + _size(b) > 6000: return None
    a, b = as_ites(a), as_ites(b)
    if not (has_ite(a) or has_ite(b)): return None
    left = [leaves]

    def feasible(path):
        if lin_unsat(path, st): return False
        return _query(hyps + path, dom, lambda e, gp: e.tr(tm.TRUE), path, st, tmo, quick=True)[0] != "proved"

    def go(a, b, path):
        if a is b: return True
        c = _first_atom(a) if has_ite(a) else _first_atom(b) if has_ite(b) else None
        if c is None:
            left[0] -= 1
            if left[0] < 0: return False
            if _poly_identity(a, b, st) is not None: return True
            left[0] -= 8
            return _query(hyps + path, dom, lambda e, gp: e.tr(a) != e.tr(b), [a, b] + path, st, 2000, quick=True)[0] == "proved"
        n = tm.not_(c)
        for m, pc in (({c.id: tm.TRUE, n.id: tm.FALSE}, c), ({c.id: tm.FALSE, n.id: tm.TRUE}, n)):
            if left[0] < 0: return False
            if path and not feasible(path + [pc]): continue
            if not go(tm.subst(a, m), tm.subst(b, m), path + [pc]): return False
        return True
    if go(a, b, []):
        _count(st, "case-split")
        return "case-split"
    return None


def lin_unsat(cs, st, timeout=3000):
    """conjunction of the terms cs is unsatisfiable already when every nonlinear monomial is an independent real"""
    mv = {}

    def mono(m):
        v = mv.get(m)
        if v is None:
            v = mv[m] = z3.Real("m%d" % len(mv))
        return v

    def lp(p):
        it = p.items() if isinstance(p, dict) else p
        ts = [q(k) * mono(m) if m else q(k) for m, k in it]
        return z3.Sum(ts) if ts else q(Fraction(0))

    def cond(c):
        k = c[0]
        if k == "true": return z3.BoolVal(True)
        if k == "false": return z3.BoolVal(False)
        if k == "not": return z3.Not(cond(c[1]))
        if k == "and": return z3.And(*[cond(x) for x in c[1:]])
        if k == "<": return lp(c[1]) < 0
        if k == "<=": return lp(c[1]) <= 0
        if k == "==": return lp(c[1]) == 0
        if k == "bv": return z3.Bool(c[1])
        return z3.Bool("c%d" % len(mv) + repr(hash(c)))
    s = z3.Solver()
    s.set("timeout", timeout)
    try:
        for c in cs:
            if c.sort == "I": return False
            s.add(cond(tm.canon(c)))
    except (tm.TooBig, KeyError, AttributeError):
        return False
    st.queries += 1
    return s.check() == z3.unsat


def prop_split(hyps, dom, c, st, limit=4000, smt=60):
    """split a proposition over the branch conditions inside it; leaves decided by the solver"""
    left = [limit, smt, 0]
    memo = set()

    def go(c, path):
        if c is tm.TRUE: return True
        key = (c.id, frozenset(p.id for p in path)) if len(path) < 8 else None
        if key in memo: return True
        left[0] -= 1
        if left[0] < 0: return False
        if c is not tm.FALSE:
            a = _first_atom(c) if has_ite(c) else None
        else:
            a = None
        if a is None:
            if lin_unsat(path + [tm.not_(c)], st): return True
            left[2] += 1
            if c is tm.FALSE and not path: return False
            if left[1] <= 0: return False
            left[1] -= 1
            r = _query(hyps + path, dom, lambda e, gp: z3.Not(e.tr(c)), [c] + path, st, 6000)
            if r[0] != "proved": left[0] = -1
            return r[0] == "proved"
        n = tm.not_(a)
        for m, pc in (({a.id: tm.TRUE, n.id: tm.FALSE}, a), ({a.id: tm.FALSE, n.id: tm.TRUE}, n)):
            sub = [tm.subst(x, m) for x in path]
            if any(x is tm.FALSE for x in sub): continue
            if not go(tm.subst(c, m), [x for x in sub if x is not tm.TRUE] + [pc]): return False
        if key: memo.add(key)
        return True
    if go(c, []):
        _count(st, "path-split")
        return "path-split"
    return None


def _gpoly(a, b):
    try:
        p = tm.clear_denominators(tm.canon(tm.sub(a, b)))
        return p if len(p) < 400 else None
    except tm.TooBig:
        return None


def _size(t):
    return len(tm.subterms([t]))


def _query(hyps, dom, goalf, cone, st, timeout, extra=(), goal=(), gap=None, gpoly=None, quick=False):
    extra = [x for x in extra if x is not tm.TRUE]
    hs = relevant(hyps, list(cone) + extra)
    enc = Enc(dom)
    s = z3.Solver()
    s.set("timeout", int(timeout * 0.6))
    for h in hs: s.add(enc.tr(h))
    for h in extra: s.add(enc.tr(h))
    s.add(goalf(enc, gpoly))
    n = 0
    while n < len(enc.side):
        s.add(enc.side[n])
        n += 1
    st.queries += 1
    r = s.check()
    if r == z3.unsat:
        _count(st, "z3-smt")
        return "proved", "z3-smt"
    if r == z3.sat:
        env = model_env(s.model(), enc)
        have = {h.id for h in hs}
        rest = [h for h in hyps if h.id not in have]
        if rest:
            # the whole path must be possible, and the replay has to follow it
            s.set("timeout", 4000)
            s.push()
            for h in rest: s.add(enc.tr(h))
            while n < len(enc.side):
                s.add(enc.side[n])
                n += 1
            st.queries += 1
            r = s.check()
            if r == z3.unsat:
                _count(st, "z3-smt")
                return "proved", "z3-smt"
            if r == z3.sat: env = model_env(s.model(), enc)
            else: s.pop()
        # a better-conditioned counterexample, for the replay
        try:
            s.push()
            for v in enc.vars.values():
                if z3.is_real(v): s.add(v <= 8, v >= -8)
            for h in dom.posv:
                if h in enc.vars: s.add(enc.vars[h] >= q(Fraction(1, 8)))
            if gap:
                d = enc.tr(gap[0]) - enc.tr(gap[1])
                s.add(z3.Or(d > q(Fraction(1, 16)), d < q(Fraction(-1, 16))))
                while n < len(enc.side):
                    s.add(enc.side[n])
                    n += 1
            s.set("timeout", 4000)
            if s.check() == z3.sat:
                env = model_env(s.model(), enc)
            s.pop()
        except z3.Z3Exception:
            pass
        return "cex", env
    if quick: return "unknown", "timeout"
    try:
        s2 = z3.Then("simplify", "solve-eqs", "elim-term-ite", "purify-arith", "qfnra").solver()
        s2.set("timeout", int(timeout * 0.4))
        s2.add(s.assertions())
        st.queries += 1
        r = s2.check()
        if r == z3.unsat:
            _count(st, "z3-qfnra")
            return "proved", "z3-qfnra"
        if r == z3.sat:
            return "cex", model_env(s2.model(), enc)
    except z3.Z3Exception:
        pass
    r = run_cvc5(s, int(timeout * 0.5))
    st.queries += 1
    if r == "unsat":
        _count(st, "cvc5")
        return "proved", "cvc5"
    return "unknown", "timeout"


def run_cvc5(s, timeout):
    import subprocess, tempfile, os
    txt = "(set-logic QF_NIRA)\n" + s.to_smt2()
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "--nl-ext-tplanes", "-"], input=txt, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout / 1000. + 5)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return "unknown"
    if "(error" in r.stdout: return "unknown"
    o = r.stdout.strip().splitlines()
    return o[0] if o and o[0] in ("sat", "unsat") else "unknown"
