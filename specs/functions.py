"""Interpolation, well, averaging functions and stiffness index maps (functions.f)"""
from fractions import Fraction as Q
from symx.runner import spec

TYPES = "qphwlm3sc"
SECOND = "qphwl" + "c"
FULL = dict(q="quadratic", p="pbg", h="harmonic", w="wang", l="lin", m="moelans", s="sin", c="constant")


def names(t):
    return t


def clamp01(c, x): return c.max(0, c.min(1, x))


def H(c, x, t):
    """reference interpolation polynomials, as functions of the clamped argument"""
    z = c.max(0, x)
    u = c.min(1, z)
    if t == "q": return z * z
    if t == "p": return u * u * u * (10 - 15 * u + 6 * u * u)
    if t == "h": return u * u * (3 - 2 * u)
    if t == "w": return z * z * (2 - z)
    if t == "l": return u
    if t == "m": return c.div(u * u, 2 * u * (u - 1) + 1)
    if t == "3": return z * z * z
    if t == "s": return c.div(c.fn("log", c.fn("cosh", 10 * z)), c.fn("log", c.fn("cosh", c.const(10))))
    if t == "c": return c.const(1)


def dH(c, x, t):
    z = c.max(0, x)
    u = c.min(1, z)
    if t == "q": return 2 * z
    if t == "p": return 30 * u * u * (1 - u) * (1 - u)
    if t == "h": return 6 * u * (1 - u)
    if t == "w": return 4 * z - 3 * z * z
    if t == "l": return c.ite(c.and_(c.gt(x, 0), c.lt(x, 1)), c.const(1), c.const(0))
    if t == "m":
        d = 2 * u * (u - 1) + 1
        return c.div(2 * u * (1 - u), d * d)
    if t == "3": return 3 * z * z
    if t == "s": return c.div(10 * c.fn("tanh", 10 * z), c.fn("log", c.fn("cosh", c.const(10))))
    if t == "c": return c.const(0)


def ddH(c, x, t):
    """one-sided second derivative; at the kinks of dH the value on the side of the physical interval"""
    ge0 = c.ge(x, 0)
    in01 = c.and_(c.ge(x, 0), c.le(x, 1))
    if t == "q": return c.ite(ge0, c.const(2), c.const(0))
    if t == "p": return c.ite(in01, 60 * x * (1 - x) * (1 - 2 * x), c.const(0))
    if t == "h": return c.ite(in01, 6 * (1 - 2 * x), c.const(0))
    if t == "w": return c.ite(ge0, 4 - 6 * x, c.const(0))
    return c.const(0)


@spec("C01", dims=(2,), cfgs=[dict(t=t) for t in TYPES])
def interp_value(c, dim, t):
    x = c.real("phi", sample=lambda r: r.choice([-0.3, 0., 1., 1.4, r.uniform(-2, 3), r.random(), r.random()]))
    c.eq(c.call("interp_func", x, FULL.get(t, t)), H(c, x, t), "h(phi)")


@spec("C01", dims=(2,), cfgs=[dict(t=t) for t in TYPES if t != "c"])
def interp_limits(c, dim, t):
    """the phase weights: 0 in the absent phase, 1 in the pure phase, in between inside, clamped below 0"""
    x = c.real("phi")
    y = c.real("psi")
    h0 = c.call("interp_func", c.const(0), t)
    h1 = c.call("interp_func", c.const(1), t)
    if t != "s":
        c.eq(h0, 0, "h(0)")
        c.eq(h1, 1, "h(1)")
    else:
        c.eq(h1, 1, "h(1)")
        c.eq(h0, 0, "h(0)")
    hx = c.call("interp_func", x, t)
    hy = c.call("interp_func", y, t)
    if t != "s":
        c.prove(c.implies(c.and_(c.ge(x, 0), c.le(x, 1)), c.and_(c.ge(hx, 0), c.le(hx, 1))), "0<=h<=1 on [0,1]")
    c.prove(c.implies(c.le(x, 0), c.eqc(hx, h0)), "h clamped below 0")
    if t in "phlm":
        c.prove(c.implies(c.ge(x, 1), c.eqc(hx, h1)), "h clamped above 1")
        # h(phi)+h(1-phi)=1 : the two-phase weights are a partition of unity
        c.eq(hx + c.call("interp_func", 1 - x, t), 1, "h(phi)+h(1-phi)")
    if t in "q3lhp":
        c.prove(c.implies(c.le(x, y), c.le(hx, hy)), "h monotone")


@spec("C01", dims=(2,), cfgs=[dict(t=t) for t in TYPES])
def interp_derivative(c, dim, t):
    x = c.real("phi", sample=lambda r: r.choice([-0.3, 1.4, r.uniform(-2, 3), r.random(), r.random()]))
    c.eq(c.call("deriv_interp_func", x, FULL.get(t, t)), dH(c, x, t), "h'(phi)")


@spec("C01", dims=(2,), cfgs=[dict(t=t) for t in SECOND])
def interp_second_derivative(c, dim, t):
    x = c.real("phi", sample=lambda r: r.choice([-0.3, 1.4, r.uniform(-2, 3), r.random(), r.random()]))
    c.eq(c.call("second_deriv_interp_func", x, FULL.get(t, t)), ddH(c, x, t), "h''(phi)")


@spec("C01", dims=(2,), cfgs=[dict(t=t) for t in "qphw3m"])
def derivative_is_derivative(c, dim, t):
    """h(x)-h(y) against h': polynomial h' is recovered exactly by Gauss quadrature (mean value identity)"""
    x = c.real("x", 0, 1)
    y = c.real("y", 0, 1)
    if t == "m":
        # rational h: compare through the product rule of u^2 = h*d
        d = lambda u: 2 * u * (u - 1) + 1
        h = c.call("interp_func", x, t)
        dh = c.call("deriv_interp_func", x, t)
        c.eq(dh * d(x) + h * (4 * x - 2), 2 * x, "(h d)'")
        return
    # Boole's rule is exact up to degree 5
    n = [(7, 0), (32, 1), (12, 2), (32, 3), (7, 4)]
    s = 0
    for w, k in n:
        s = s + c.const(Q(w, 90)) * c.call("deriv_interp_func", x + (y - x) * c.const(Q(k, 4)), t)
    c.eq(c.call("interp_func", y, t) - c.call("interp_func", x, t), (y - x) * s, "h(y)-h(x)=int h'")
    if t in "qphw":
        s = 0
        for w, k in n:
            s = s + c.const(Q(w, 90)) * c.call("second_deriv_interp_func", x + (y - x) * c.const(Q(k, 4)), t)
        c.eq(c.call("deriv_interp_func", y, t) - c.call("deriv_interp_func", x, t), (y - x) * s, "h'(y)-h'(x)=int h''")


@spec("C01", dims=(2,), cfgs=[dict(a="p", b="l"), dict(a="p", b="p"), dict(a="l", b="l"), dict(a="h", b="h")])
def interp_ratio(c, dim, a, b):
    """ratio * h_b = h_a, and the same for the complements 1-h"""
    x = c.real("phi", sample=lambda r: r.choice([-0.3, 0., 1., 1.4, r.uniform(-2, 3), r.random(), r.random()]))
    r = c.call("interp_ratio_func", x, a, b)
    k = c.call("compl_interp_ratio_func", x, a, b)
    c.eq(r * H(c, x, b), H(c, x, a), "ratio*h_b=h_a")
    c.eq(k * (1 - H(c, x, b)), 1 - H(c, x, a), "compl ratio*(1-h_b)=1-h_a")
    u = clamp01(c, x)
    if a != b:
        c.eq(r, u * u * (10 - 15 * u + 6 * u * u), "ratio")
        c.eq(k, (1 - u) * (1 - u) * (1 + 3 * u + 6 * u * u), "compl ratio")
    else:
        c.eq(r, 1, "ratio")
        c.eq(k, 1, "compl ratio")


@spec("C01", dims=(2,), cfgs=[dict(t=t) for t in "ds"])
def wells(c, dim, t):
    x = c.real("phi")
    y = c.real("psi")
    w = c.call("well_func", x, t)
    c.eq(w, 16 * x * x * (1 - x) * (1 - x) if t == "d" else (1 - x) * (1 - x), "w(phi)")
    c.prove(c.ge(w, 0), "w>=0")
    c.eq(c.call("well_func", c.const(1), t), 0, "w(1)")
    if t == "d":
        c.eq(c.call("well_func", c.const(0), t), 0, "w(0)")
        c.eq(c.call("well_func", c.const(0.5), t), 1, "w(1/2)")
        c.eq(c.call("well_func", 1 - x, t), w, "w symmetric")
    c.eq(c.call("deriv_well_func", x, t), 32 * x * (1 - x) * (1 - 2 * x) if t == "d" else 2 * (x - 1), "w'(phi)")
    c.eq(c.call("second_deriv_well_func", x, t), 32 * (1 - 6 * x + 6 * x * x) if t == "d" else 2, "w''(phi)")
    n = [(7, 0), (32, 1), (12, 2), (32, 3), (7, 4)]
    for f, g in (("well_func", "deriv_well_func"), ("deriv_well_func", "second_deriv_well_func")):
        s = 0
        for q, k in n:
            s = s + c.const(Q(q, 90)) * c.call(g, x + (y - x) * c.const(Q(k, 4)), t)
        c.eq(c.call(f, y, t) - c.call(f, x, t), (y - x) * s, "%s(y)-(x)=int %s" % (f, g))


@spec("C01", dims=(2,))
def triple_well(c, dim):
    """Folch-Plapp triple well: constrained derivatives of sum p^2(1-p)^2, sum to zero, vanish at the pure phases"""
    p = [c.real("p%d" % k) for k in range(3)]
    F = lambda a, b, d: c.call("deriv_triple_well_func", a, b, d)
    s = F(*p) + F(p[1], p[2], p[0]) + F(p[2], p[0], p[1])
    c.eq(s, 0, "sum over phases")
    c.eq(F(p[0], p[1], p[2]), F(p[0], p[2], p[1]), "symmetric in the other two")
    dw = [c.call("deriv_well_func", q, "d") for q in p]
    c.eq(F(*p), c.const(Q(1, 3)) * (2 * dw[0] - dw[1] - dw[2]), "projected derivative of the three double wells")


@spec("C01", dims=(2,), cfgs=[dict(t="a"), dict(t="h"), dict(t="arithmetic"), dict(t="harmonic")])
def averages(c, dim, t):
    a = c.real("a", sample=lambda r: r.choice([r.random(), 0., r.uniform(-1, 2), 1e-17]))
    b = c.real("b", sample=lambda r: r.choice([r.random(), 0., r.uniform(-1, 2)]))
    A = lambda x, y: c.call("average_func", x, y, t)
    m = A(a, b)
    c.eq(m, A(b, a), "symmetric")
    tiny = c.const(Q(1, 10 ** 16))
    c.prove(c.implies(c.and_(c.ge(a, 0), c.ge(b, 0)), c.and_(c.ge(m, 0), c.le(m, c.max(a, b)))), "0<=avg<=max")
    if t[0] == "a":
        c.eq(m, c.div(a + b, 2), "mean")
        c.eq(A(a, a), a, "avg(a,a)")
    else:
        ok = c.and_(c.ge(a, tiny), c.ge(b, tiny))
        c.eq(m, c.ite(ok, c.div(2 * a * b, a + b), c.const(0)), "harmonic mean")
        c.prove(c.implies(c.ge(a, tiny), c.eqc(A(a, a), a)), "avg(a,a)")
        c.prove(c.implies(ok, c.ge(m, c.min(a, b))), "avg>=min")


@spec("C01", dims=(2,), cfgs=[dict(t="a"), dict(t="h")])
def average_derivative(c, dim, t):
    """derivative of the average with respect to one argument, given the average and that argument's neighbour"""
    a = c.real("a", pos=True)
    b = c.real("b", pos=True)
    tiny = c.const(Q(1, 10 ** 16))
    c.assume(c.and_(c.ge(a, tiny), c.ge(b, tiny)))
    m = c.call("average_func", a, b, t)
    # exact difference quotients of the average: (avg(x,b)-avg(a,b))/(x-a)
    d = c.call("deriv_average_func", a, m, t)
    if t == "a":
        c.eq(d, c.const(Q(1, 2)), "d avg")
    else:
        c.eq(d, c.div(m * m, 2 * a * a), "d avg")
        c.eq(d, c.div(2 * b * b, (a + b) * (a + b)), "d(2ab/(a+b))/da")


@spec("C01", dims=(2,))
def limited_inverse(c, dim):
    """inverse bounded by 1e4 in magnitude, exact away from 0"""
    v = c.real("v", sample=lambda r: r.choice([r.uniform(-2, 2), 1e-4, 3e-5, 0., -3e-5]))
    r = c.call("limitedinverse", v)
    c.prove(c.implies(c.gt(c.abs(v), c.const(Q(1, 10000))), c.eqc(r * v, c.const(1))), "1/v")
    c.prove(c.le(c.abs(r), c.const(Q(10001))), "bounded")
    c.prove(c.implies(c.and_(c.ge(v, 0), c.le(v, c.const(Q(1, 20000)))), c.eqc(r, c.const(10000))), "cap")


@spec("C02", dims=(2, 3))
def stiffness_indices(c, dim):
    """Voigt index and packed upper-triangle storage index are symmetric bijections, for every index pair"""
    n = dim
    i, j = c.integer("i", 1, n), c.integer("j", 1, n)
    k, l = c.integer("k", 1, n), c.integer("l", 1, n)
    S = lambda a, b: c.call("single_index_stiffness%dd" % dim, a, b)
    s, q = S(i, j), S(k, l)
    nv = 3 if dim == 2 else 6
    c.eq(s, S(j, i), "symmetric")
    c.prove(c.and_(c.ge(s, 1), c.le(s, nv)), "range")
    same = c.or_(c.and_(c.eqc(i, k), c.eqc(j, l)), c.and_(c.eqc(i, l), c.eqc(j, k)))
    c.prove(c.implies(c.eqc(s, q), same), "injective on unordered pairs")
    c.prove(c.implies(c.eqc(i, j), c.eqc(s, i)), "diagonal first")
    if dim == 3:
        c.prove(c.implies(c.and_(c.eqc(i, 2), c.eqc(j, 3)), c.eqc(s, 4)), "Voigt 23->4")
        c.prove(c.implies(c.and_(c.eqc(i, 1), c.eqc(j, 3)), c.eqc(s, 5)), "Voigt 13->5")
        c.prove(c.implies(c.and_(c.eqc(i, 1), c.eqc(j, 2)), c.eqc(s, 6)), "Voigt 12->6")
    I, J = c.integer("I", 1, nv), c.integer("J", 1, nv)
    K, L = c.integer("K", 1, nv), c.integer("L", 1, nv)
    P = lambda a, b: c.call("storage_index_stiffness%dd" % dim, a, b)
    p, r = P(I, J), P(K, L)
    c.eq(p, P(J, I), "storage symmetric")
    c.prove(c.and_(c.ge(p, 1), c.le(p, nv * (nv + 1) // 2)), "storage range")
    same = c.or_(c.and_(c.eqc(I, K), c.eqc(J, L)), c.and_(c.eqc(I, L), c.eqc(J, K)))
    c.prove(c.implies(c.eqc(p, r), same), "storage injective on unordered pairs")
    # row-major upper triangle
    c.prove(c.implies(c.and_(c.eqc(I, 1), c.eqc(J, 1)), c.eqc(p, 1)), "first")
    c.prove(c.implies(c.and_(c.le(I, J), c.eqc(K, I), c.eqc(L, J + 1)), c.eqc(r, p + 1)), "rows contiguous")
