"""Hash-consed terms over Real / Int / Bool, and a canonical polynomial form.

Reals are exact: floating-point rounding is outside every claim made with this
engine (see DESIGN.md).  A canonical form (Laurent polynomials over atoms) is
used (a) to name shared sub-terms (sqrt, division, min/max, ite, transcendental
functions) in the solver encoding and (b) as a fall-back preprocessing step.
"""
from fractions import Fraction
import math

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "id", "sort", "_canon", "__weakref__")

    def __repr__(self):
        return show(self)

    # arithmetic -----------------------------------------------------------
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __truediv__(a, b): return div(a, lift(b, a.sort))
    def __rtruediv__(a, b): return div(lift(b, a.sort), a)
    def __neg__(a): return neg(a)
    def __pow__(a, n):
        r = lift(1, a.sort)
        for _ in range(abs(int(n))):
            r = r * a
        return r if n >= 0 else lift(1) / r
    def __lt__(a, b): return cmp_("<", a, lift(b, a.sort))
    def __le__(a, b): return cmp_("<=", a, lift(b, a.sort))
    def __gt__(a, b): return cmp_("<", lift(b, a.sort), a)
    def __ge__(a, b): return cmp_("<=", lift(b, a.sort), a)


def _mk(op, args, sort):
    k = (op, tuple(x.id if isinstance(x, T) else x for x in args), sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.id = _n[0]
        t._canon = None
        _n[0] += 1
        _tab[k] = t
    return t


def const(x, sort="R"):
    return _mk("c", (Fraction(x),), sort)


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def boolc(b):
    return TRUE if b else FALSE


def var(name, sort="R"):
    return _mk("v", (name,), sort)


def lift(x, sort="R"):
    if isinstance(x, T):
        if x.sort == "B" and sort != "B":
            return ite(x, const(1, sort), const(0, sort))
        return x
    if isinstance(x, bool):
        if sort == "B":
            return boolc(x)
        return const(int(x), sort)
    if isinstance(x, float):
        return const(rationalize(x), sort)
    return const(x, sort)


_rat = {}


def rationalize(x):
    """The simplest rational whose nearest double is x (so a folded 1./3. is 1/3)."""
    r = _rat.get(x)
    if r is not None:
        return r
    f = Fraction(x)
    r = f
    if f.denominator != 1:
        # walk the continued fraction convergents
        a = f
        h0, h1 = 0, 1
        k0, k1 = 1, 0
        for _ in range(40):
            q = a.numerator // a.denominator
            h0, h1 = h1, q * h1 + h0
            k0, k1 = k1, q * k1 + k0
            cand = Fraction(h1, k1)
            if k1 > 10 ** 9:
                break
            if float(cand) == x:
                r = cand
                break
            if a == q:
                break
            a = 1 / (a - q)
        if r.denominator > 10 ** 6:
            # decimal literal (1.e-16, 8.314462 ...)
            s = Fraction(repr(x)) if "inf" not in repr(x) and "nan" not in repr(x) else f
            if float(s) == x:
                r = s
    _rat[x] = r
    return r


def isc(t):
    return isinstance(t, T) and t.op == "c"


def cval(t):
    return t.args[0]


def add(a, b):
    a, b = lift(a, b.sort if isinstance(b, T) else "R"), lift(b, a.sort if isinstance(a, T) else "R")
    if isc(a) and isc(b):
        return const(cval(a) + cval(b), a.sort)
    if isc(a) and cval(a) == 0:
        return b
    if isc(b) and cval(b) == 0:
        return a
    return _mk("+", (a, b), a.sort)


def neg(a):
    if isc(a):
        return const(-cval(a), a.sort)
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", (a,), a.sort)


def sub(a, b):
    if isc(b) and cval(b) == 0:
        return a
    if a is b:
        return const(0, a.sort)
    if isc(a) and isc(b):
        return const(cval(a) - cval(b), a.sort)
    return _mk("-", (a, b), a.sort)


def mul(a, b):
    if isc(a) and isc(b):
        return const(cval(a) * cval(b), a.sort)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if cval(x) == 0:
                return x
            if cval(x) == 1:
                return y
    return _mk("*", (a, b), a.sort)


def div(a, b):
    if isc(b) and cval(b) != 0:
        if isc(a):
            return const(cval(a) / cval(b), a.sort)
        return mul(const(1 / cval(b), a.sort), a)
    if isc(a) and cval(a) == 0 and not isc(b):
        return a
    return _mk("/", (a, b), a.sort)


def cmp_(op, a, b):
    # op in < <= ==
    a = lift(a, b.sort if isinstance(b, T) else "R")
    b = lift(b, a.sort)
    if isc(a) and isc(b):
        x, y = cval(a), cval(b)
        return boolc(x < y if op == "<" else x <= y if op == "<=" else x == y)
    if a is b:
        return boolc(op != "<")
    if op == "==" and a.id > b.id:
        a, b = b, a
    return _mk(op, (a, b), "B")


def eq(a, b): return cmp_("==", a, b)
def lt(a, b): return cmp_("<", a, b)
def le(a, b): return cmp_("<=", a, b)
def gt(a, b): return cmp_("<", b, a)
def ge(a, b): return cmp_("<=", b, a)


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "<": return _mk("<=", (a.args[1], a.args[0]), "B")
    if a.op == "<=": return _mk("<", (a.args[1], a.args[0]), "B")
    return _mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    seen, o2 = set(), []
    for x in out:
        if x.id not in seen:
            seen.add(x.id)
            o2.append(x)
    for x in o2:
        if not_(x).id in seen:
            return FALSE
    if not o2: return TRUE
    if len(o2) == 1: return o2[0]
    return _mk("and", tuple(o2), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isinstance(a, T) and a.sort == "B":
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    return _mk("ite", (c, a, b), a.sort)


def relu(a):
    if isc(a):
        return const(max(cval(a), 0), a.sort)
    return _mk("relu", (a,), a.sort)


def max_(a, b):
    a, b = lift(a), lift(b)
    if isc(a) and isc(b): return const(max(cval(a), cval(b)), a.sort)
    if a is b: return a
    return _mk("max", (a, b), a.sort)


def min_(a, b):
    a, b = lift(a), lift(b)
    if isc(a) and isc(b): return const(min(cval(a), cval(b)), a.sort)
    if a is b: return a
    return _mk("min", (a, b), a.sort)


def abs_(a):
    a = lift(a)
    if isc(a): return const(abs(cval(a)), a.sort)
    return _mk("abs", (a,), a.sort)


def sqrt(a):
    a = lift(a)
    if isc(a) and cval(a) >= 0:
        n, d = cval(a).numerator, cval(a).denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    return _mk("sqrt", (a,), "R")


def uf(name, *args):
    args = tuple(lift(a) for a in args)
    if "'" in name:      # mixed derivatives in one order
        q = name.split("'")
        name = "'".join([q[0]] + sorted(q[1:]))
    if name in ("exp", "cosh") and isc(args[0]) and cval(args[0]) == 0: return const(1)
    if name in ("sin", "tanh", "atan", "asin", "erf", "sinh") and isc(args[0]) and cval(args[0]) == 0: return const(0)
    if name == "cos" and isc(args[0]) and cval(args[0]) == 0: return const(1)
    if name == "log" and isc(args[0]) and cval(args[0]) == 1: return const(0)
    if name == "acos" and isc(args[0]) and cval(args[0]) == 1: return const(0)
    if all(isc(a) for a in args) and name in _FN:
        # a library function of literals: its double value, as the compiler would fold it
        try:
            v = _FN[name](*[float(cval(a)) for a in args])
            if v == v and abs(v) != math.inf: return const(rationalize(v))
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    return _mk("uf:" + name, args, "R")


def exp(a): return uf("exp", a)
def log(a): return uf("log", a)


def show(t, depth=6):
    if not isinstance(t, T): return str(t)
    if t.op == "c": return str(t.args[0])
    if t.op == "v": return str(t.args[0])
    if depth == 0: return "..."
    return "(" + t.op + " " + " ".join(show(a, depth - 1) for a in t.args) + ")"


def subterms(ts):
    seen, st, out = set(), list(ts), []
    while st:
        t = st.pop()
        if not isinstance(t, T) or t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        st.extend(a for a in t.args if isinstance(a, T))
    return out


def variables(ts):
    return sorted({t for t in subterms(ts) if t.op == "v"}, key=lambda t: t.id)


def topo(ts):
    """children-first order"""
    seen, out = set(), []
    st = [(t, 0) for t in ts]
    while st:
        t, ph = st.pop()
        if ph:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, 1))
        for a in t.args:
            if isinstance(a, T) and a.id not in seen:
                st.append((a, 0))
    return out


def subst(t, m):
    """m: var term id -> term"""
    memo = {}
    for s in topo([t]):
        if s.id in m:
            memo[s.id] = m[s.id]
        elif s.op in ("c", "v", "true", "false"):
            memo[s.id] = s
        else:
            memo[s.id] = rebuild(s, [memo[a.id] for a in s.args])
    return memo[t.id]


DIFFERENTIABLE = {}     # uf name -> number of arguments with derivative functions "name'k"


def diff(t, v):
    """d t / d v, v a variable term"""
    zero, one = const(0), const(1)
    memo = {}
    for s in topo([t]):
        op, a = s.op, s.args
        if s is v: r = one
        elif op in ("c", "v") or s.sort != "R": r = zero
        else:
            d = [memo[x.id] for x in a]
            if all(x is zero for x in d): r = zero
            elif op == "+": r = add(*d)
            elif op == "-": r = sub(*d)
            elif op == "neg": r = neg(d[0])
            elif op == "*": r = add(mul(d[0], a[1]), mul(a[0], d[1]))
            elif op == "/": r = div(sub(mul(d[0], a[1]), mul(a[0], d[1])), mul(a[1], a[1])) if d[1] is not zero else div(d[0], a[1])
            elif op == "ite": r = ite(a[0], d[1], d[2])
            elif op == "max": r = ite(lt(a[0], a[1]), d[1], d[0])
            elif op == "min": r = ite(lt(a[1], a[0]), d[1], d[0])
            elif op == "abs": r = ite(lt(a[0], zero), neg(d[0]), d[0])
            elif op == "relu": r = ite(lt(zero, a[0]), d[0], zero)
            elif op == "sqrt": r = div(d[0], mul(const(2), s))
            elif op == "uf:exp": r = mul(d[0], s)
            elif op == "uf:log": r = div(d[0], a[0])
            elif op == "uf:sin": r = mul(d[0], uf("cos", a[0]))
            elif op == "uf:cos": r = neg(mul(d[0], uf("sin", a[0])))
            elif op == "uf:tanh": r = mul(d[0], sub(one, mul(s, s)))
            elif op == "uf:cosh": r = mul(d[0], uf("sinh", a[0]))
            elif op == "uf:sinh": r = mul(d[0], uf("cosh", a[0]))
            elif op == "uf:atan": r = div(d[0], add(one, mul(a[0], a[0])))
            elif op == "uf:acos": r = neg(div(d[0], sqrt(sub(one, mul(a[0], a[0])))))
            elif op == "uf:pow" and d[1] is zero: r = mul(d[0], mul(a[1], uf("pow", a[0], sub(a[1], one))))
            elif op.startswith("uf:"):
                r = zero
                for k, x in enumerate(d):
                    if x is not zero: r = add(r, mul(x, uf(op[3:] + "'%d" % k, *a)))
            else: raise TooBig("derivative of " + op)
        memo[s.id] = r
    return memo[t.id]


def rebuild(s, a):
    op = s.op
    if op == "+": return add(*a)
    if op == "-": return sub(*a)
    if op == "*": return mul(*a)
    if op == "/": return div(*a)
    if op == "neg": return neg(*a)
    if op == "ite": return ite(*a)
    if op in ("<", "<=", "=="): return cmp_(op, *a)
    if op == "not": return not_(*a)
    if op == "and": return and_(*a)
    if op == "max": return max_(*a)
    if op == "min": return min_(*a)
    if op == "abs": return abs_(*a)
    if op == "relu": return relu(*a)
    if op == "sqrt": return sqrt(*a)
    if op.startswith("uf:"): return uf(op[3:], *a)
    return _mk(op, tuple(a), s.sort)


# ---------------------------------------------------------------- numeric evaluation
def stand_in(name, *x, exp=math.exp):
    """value of an uninterpreted function: smooth, strictly convex in each argument, consistent with its derivatives
    (name'k'l: derivative with respect to arguments k and l)"""
    import random, zlib
    base, *ders = name.split("'")
    r = random.Random(zlib.crc32(base.encode()))
    s = 0.
    for j in range(3):
        a, p = r.uniform(0.2, 1.), r.uniform(-.5, .5)
        w = [r.choice((-1, 1)) * r.uniform(0.3, 0.9) for _ in x]
        for k in ders: a = a * w[int(k)]
        e = p + sum(float(wi) * xi for wi, xi in zip(w, x))
        s = s + a * exp(max(-60., min(60., e)))
    return s / (1 + s) if base.startswith(("kks", "ceq")) else s


class Functions(dict):
    def __init__(self, d, exp):
        dict.__init__(self, d)
        self.exp = exp

    def __missing__(self, k): return lambda *x: stand_in(k, *x, exp=self.exp)


_FN = Functions({
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "acos": lambda x: math.acos(max(-1., min(1., x))), "asin": math.asin, "atan": math.atan, "atan2": math.atan2,
    "tanh": math.tanh, "cosh": math.cosh, "sinh": math.sinh, "pow": math.pow,
    "trunc": lambda x: float(int(x)), "floor": math.floor, "erf": math.erf,
}, math.exp)


def evalhp(ts, env):
    """evaluate terms with 60-digit arithmetic"""
    import mpmath
    with mpmath.workdps(60):
        m = mpmath
        fn = {"exp": m.exp, "log": lambda x: m.log(x) if x > 0 else m.nan, "sin": m.sin, "cos": m.cos, "tan": m.tan,
              "acos": lambda x: m.acos(max(m.mpf(-1), min(m.mpf(1), x))), "asin": m.asin, "atan": m.atan, "atan2": m.atan2,
              "tanh": m.tanh, "cosh": m.cosh, "sinh": m.sinh, "pow": lambda x, y: m.power(x, y) if x >= 0 else m.nan,
              "trunc": lambda x: m.mpf(int(x)), "floor": m.floor, "erf": m.erf}
        fn = Functions(fn, m.exp)
        return evalf(ts, {k: (m.mpf(v) if not isinstance(v, (bool, int)) else v) for k, v in env.items()},
                     fn, lambda c: m.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else m.mpf(c),
                     lambda x: m.sqrt(x) if x >= 0 else m.nan, m.nan)


def evalf(ts, env, _FN=None, num=float, sqrtf=None, nan=float("nan")):
    """evaluate terms with floats; env: var name -> float"""
    if _FN is None: _FN = globals()["_FN"]
    if sqrtf is None: sqrtf = lambda x: math.sqrt(x) if x >= 0 else nan
    memo = {}
    for t in topo(ts):
        op = t.op
        if op == "c": v = num(t.args[0]) if t.sort == "R" else int(t.args[0])
        elif op == "v": v = env[t.args[0]]
        elif op == "true": v = True
        elif op == "false": v = False
        else:
            a = [memo[x.id] for x in t.args]
            try:
                if op == "+": v = a[0] + a[1]
                elif op == "-": v = a[0] - a[1]
                elif op == "*": v = a[0] * a[1]
                elif op == "/": v = a[0] / a[1]
                elif op == "neg": v = -a[0]
                elif op == "ite": v = a[1] if a[0] else a[2]
                elif op == "<": v = a[0] < a[1]
                elif op == "<=": v = a[0] <= a[1]
                elif op == "==": v = a[0] == a[1]
                elif op == "not": v = not a[0]
                elif op == "and": v = all(a)
                elif op == "max": v = max(a)
                elif op == "min": v = min(a)
                elif op == "abs": v = abs(a[0])
                elif op == "relu": v = a[0] if a[0] > 0 else num(0)
                elif op == "sqrt": v = sqrtf(a[0])
                elif op == "toreal": v = num(a[0])
                elif op == "toint": v = int(a[0])
                elif op == "tdiv": v = abs(a[0]) // abs(a[1]) * (1 if (a[0] >= 0) == (a[1] > 0) else -1)
                elif op.startswith("uf:"): v = _FN[op[3:]](*a)
                else: raise KeyError(op)
            except (ZeroDivisionError, OverflowError, ValueError):
                v = nan
        memo[t.id] = v
    return [memo[t.id] for t in ts]


# ---------------------------------------------------------------- canonical polynomials
class TooBig(Exception):
    pass


ATOMS = []           # id -> (kind, payload)
_atomtab = {}
MAXMON = 6000


def atom(kind, payload):
    k = (kind, payload)
    i = _atomtab.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(k)
        _atomtab[k] = i
    return i


def pkey(p):
    return tuple(sorted(p.items()))


def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items()))


def pmul(p, q, _norm=True):
    if len(p) * len(q) > MAXMON * 4:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXMON:
        raise TooBig()
    return preduce(r) if _norm else r


def preduce(p):
    """rewrite sqrt-atom powers to {0,1}"""
    todo = None
    for m in p:
        for a, e in m:
            k = ATOMS[a][0]
            if (k == "sqrt" and e not in (0, 1)) or (k == "sum" and e > 0):
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    out = {}
    for m, c in p.items():
        base, extra = [], {(): c}
        for a, e in m:
            if ATOMS[a][0] == "sqrt" and e not in (0, 1):
                k, r = divmod(e, 2)
                P = dict(ATOMS[a][1])
                if r:
                    base.append((a, 1))
                extra = pmul(extra, ppow(P, k))
            elif ATOMS[a][0] == "sum" and e > 0:
                extra = pmul(extra, ppow(dict(ATOMS[a][1]), e))
            else:
                base.append((a, e))
        out = padd(out, pmul({tuple(sorted(base)): Fraction(1)}, extra))
    return out


def ppow(p, k):
    if k < 0:
        return ppow(pinv(p), -k)
    r = pconst(1)
    for _ in range(k):
        r = pmul(r, p)
    return r


def pscale(p):
    """(content c, p/c) with leading coefficient 1 in canonical order"""
    m0 = min(p)
    c = p[m0]
    return c, {m: v / c for m, v in p.items()}


def pinv(p):
    if not p:
        return {((atom("inv0", ()), 1),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        return preduce({tuple((a, -e) for a, e in m): 1 / c})
    c, q = pscale(p)
    # pull out the common monomial
    common = None
    for m in q:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
            for a, e in d.items():
                if e < 0:
                    common[a] = min(e, common.get(a, 0))
    for m in q:
        d = dict(m)
        for a in list(common):
            if a not in d and common[a] > 0:
                common[a] = 0
    com = tuple(sorted((a, e) for a, e in common.items() if e != 0))
    if com:
        icom = tuple((a, -e) for a, e in com)
        q = pmul(q, {icom: Fraction(1)})
        return pmul({tuple((a, -e) for a, e in com): 1 / c}, pinv(q))
    s = atom("sum", pkey(q))
    return {((s, -1),): 1 / c}


def prelu(p):
    if not p: return {}
    if len(p) == 1 and () in p:
        return pconst(max(p[()], 0))
    c, q = pscale(p)
    # relu(c*q), c<0: relu(-y) = relu(y) - y
    a = {((atom("relu", pkey(q)), 1),): Fraction(1)}
    if c > 0:
        return {m: v * c for m, v in a.items()}
    k = -c
    r = padd(a, q, -1)
    return {m: v * k for m, v in r.items()}


def canon(t):
    for s in topo([t]):
        if s._canon is None:
            s._canon = _canon1(s)
    return t._canon


def _canon1(s):
    op = s.op
    A = [a._canon for a in s.args if isinstance(a, T)]
    if s.sort == "B":
        if op in ("<", "<=", "=="):
            d = padd(A[0], A[1], -1)
            if not d or (len(d) == 1 and () in d):
                v = d.get((), Fraction(0))
                b = v < 0 if op == "<" else v <= 0 if op == "<=" else v == 0
                return ("true",) if b else ("false",)
            c, q = pscale(d)
            # sign normalise : c*q < 0
            if op == "==":
                return ("==", pkey(q))
            if c > 0:
                return (op, pkey(q))
            # q > 0  -> not (q <= 0)
            return ("not", ("<=" if op == "<" else "<", pkey(q)))
        if op == "not":
            return _cnot(A[0])
        if op == "and":
            return ("and",) + tuple(sorted(set(A), key=repr))
        if op == "v":
            return ("bv", s.args[0])
        if op == "ite":
            return ("bite",) + tuple(A)
        return (op,)
    if op == "c": return pconst(s.args[0])
    if op == "v": return {((atom("v", s.args[0]), 1),): Fraction(1)}
    if op == "+": return padd(A[0], A[1])
    if op == "-": return padd(A[0], A[1], -1)
    if op == "neg": return {m: -c for m, c in A[0].items()}
    if op == "*": return pmul(A[0], A[1])
    if op == "/": return pmul(A[0], pinv(A[1]))
    if op == "max": return padd(A[1], prelu(padd(A[0], A[1], -1)))
    if op == "min": return padd(A[0], prelu(padd(A[0], A[1], -1)), -1)
    if op == "relu": return prelu(A[0])
    if op == "abs": return padd({m: 2 * c for m, c in prelu(A[0]).items()}, A[0], -1)
    if op == "sqrt":
        p = A[0]
        if len(p) == 1 and () in p:
            t = sqrt(const(p[()]))
            if isc(t): return pconst(cval(t))
        return {((atom("sqrt", pkey(p)), 1),): Fraction(1)}
    if op == "ite":
        c, x, y = A
        if c == ("true",): return x
        if c == ("false",): return y
        if pkey(x) == pkey(y): return x
        if c[0] == "not":
            c, x, y = c[1], y, x
        if c[0] in ("<", "<="):
            # q < 0 ? x : y  with x - y == k*q  ->  continuous: y - k*relu(-q)
            q = dict(c[1])
            d = padd(x, y, -1)
            m0 = min(q)
            if m0 in d:
                k = d[m0] / q[m0]
                if not padd(d, q, -k):
                    return padd(y, prelu({m: -v for m, v in q.items()}), -k)
        return {((atom("ite", (c, pkey(x), pkey(y))), 1),): Fraction(1)}
    return {((atom(op, tuple(pkey(a) for a in A)), 1),): Fraction(1)}


def _cnot(a):
    if a == ("true",): return ("false",)
    if a == ("false",): return ("true",)
    if a[0] == "not": return a[1]
    return ("not", a)


def clear_denominators(p):
    """multiply by every negative power (denominators are assumed non-zero)."""
    for _ in range(60):
        mins = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
        if not mins:
            return p
        # choose the atom that is not nested inside another sum atom: any order works, take max id
        a = max(mins)
        k = -mins[a]
        out = {}
        if ATOMS[a][0] == "sum":
            P = dict(ATOMS[a][1])
            pows = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(a, 0)
                f = pows.get(k + e)
                if f is None:
                    f = pows[k + e] = ppow(P, k + e)
                out = padd(out, pmul({tuple(sorted(d.items())): c}, f))
        else:
            out = pmul(p, {((a, k),): Fraction(1)})
        p = out
        if len(p) > MAXMON:
            raise TooBig()
    raise TooBig()


def is_zero_identically(t):
    return not clear_denominators(canon(t))
