"""temperature: sources, heat capacity, initial fields, right-hand side"""
from symx.runner import spec
from symx.ref import *


@spec("C08", cfgs=[dict(ng=0, k=1, ph=1), dict(ng=1, k=1, ph=1), dict(ng=0, k=0, ph=0)])
def temperature_rhs(c, dim, ng, k, ph):
    """alpha lap(T) + L/cp dphi/dt"""
    g = G(dim)
    dx, al, L = c.vec("dx", dim, pos=True), c.real("alpha"), c.real("latent")
    T, cp, pr, rhs = c.cell("T", g, 1 + ng), c.cell("cp", g, ng, pos=True), c.cell("phi_rhs", g, 1 - ng), c.cell("rhs", g, ng)
    c.call("computerhstemp", g.box, dx, al, L, T, 1 + ng, cp, ng, ph, pr, 1 - ng, rhs, ng)

    def r(i):
        v = al * c.ssum(c.div(T[sh(i, a)] - 2 * T[i] + T[sh(i, a, -1)], dx[(a,)] * dx[(a,)]) for a in range(dim))
        return v + c.div(L * pr[i], cp[i]) if ph else v
    out(c, rhs, g.cells(), r)
    same(c, dx, T, cp, pr)


@spec("C08", cfgs=[dict(ng=0), dict(ng=1)])
def source(c, dim, ng):
    g = G(dim)
    co, rhs, cp, s = c.cell("c", g, ng), c.cell("rhs", g, 1 - ng), c.cell("cp", g, ng, pos=True), c.vec("source", 2)
    c.call("source_temperature", g.box, co, ng, rhs, 1 - ng, cp, ng, s, 2)
    out(c, rhs, g.cells(), lambda i: c.div(s[(0,)] * co[i] + s[(1,)] * (1 - co[i]), cp[i]))
    same(c, co, cp, s)


def distance2(c, i, g, dim, dx, xlo, ce, ll, per):
    """squared distance of a cell centre to the centre, to its nearest image in the periodic directions"""
    v = 0
    for a in range(dim):
        d = xlo[(a,)] + dx[(a,)] * (i[a] - g.lo[a] + q(c, 1, 2)) - ce[(a,)]
        x = c.abs(d)
        if per[a]: x = c.min(c.min(x, c.abs(d + ll[(a,)])), c.abs(d - ll[(a,)]))
        v = v + x * x
    return v


PER = [dict(per=(0, 0, 0), ng=0), dict(per=(1, 0, 1), ng=1), dict(per=(0, 1, 0), ng=0), dict(per=(1, 1, 1), ng=0)]


@spec("C08", cfgs=PER, cost=2)
def gaussian_temperature(c, dim, per, ng):
    """base + (peak - base) exp(-d^2/(2 sigma^2))"""
    g = G(dim, "line" if sum(per[:dim]) < 3 else "one")
    dx, xlo, ce = c.vec("dx", dim, pos=True), c.vec("xlo", dim), c.vec("center", dim)
    ll = c.vecof("ll", [c.real("l%d" % a, pos=True) if per[a] else c.const(0) for a in range(dim)])
    T, s, b, p = c.cell("T", g, ng), c.real("sigma", pos=True), c.real("base"), c.real("peak")
    c.call("initgaussian", dx, xlo, g.box, T, ng, ce, ll, s, b, p)
    out(c, T, g.cells(ng), lambda i: b + (p - b) * c.fn("exp", -c.div(distance2(c, i, g, dim, dx, xlo, ce, ll, per), 2 * s * s)))
    same(c, dx, xlo, ce, ll)


@spec("C08", cfgs=PER, cost=2)
def gaussian_source(c, dim, per, ng):
    g = G(dim, "line" if sum(per[:dim]) < 3 else "one")
    dx, xlo, ce = c.vec("dx", dim, pos=True), c.vec("xlo", dim), c.vec("center", dim)
    ll = c.vecof("ll", [c.real("l%d" % a, pos=True) if per[a] else c.const(0) for a in range(dim)])
    rhs, cp, s, p = c.cell("rhs", g, ng), c.cell("cp", g, 1 - ng, pos=True), c.real("sigma", pos=True), c.real("heat")
    c.call("initgaussiansource", dx, xlo, g.box, rhs, ng, cp, 1 - ng, ce, ll, s, p)
    out(c, rhs, g.cells(), lambda i: c.div(p * c.fn("exp", -c.div(distance2(c, i, g, dim, dx, xlo, ce, ll, per), 2 * s * s)), cp[i]))
    same(c, dx, xlo, ce, ll, cp)


@spec("C08", cfgs=[dict(n=1, pw=(0,), ng=0), dict(n=1, pw=(0, 1, -2), ng=1), dict(n=2, pw=(0, 2), ng=0), dict(n=3, pw=(1, -1), ng=0)])
def heat_capacity(c, dim, n, pw, ng):
    """mixture: sum over species of c_m sum_p a_mp T^p, the last species taking the remaining fraction"""
    g = G(dim, "line")
    co, T, cp = c.cell("c", g, ng, n), c.cell("T", g, 1 - ng, pos=True), c.cell("cp", g, ng)
    k = len(pw)
    A = c.vec("coeffs", (n + 1) * k)
    c.call("heat_capacity_nkr", g.box, co, ng, n, T, 1 - ng, cp, ng, c.ivec("powers", pw), k, A, (n + 1) * k)

    def pwr(x, p):
        v = c.const(1)
        for _ in range(abs(p)): v = v * x
        return v if p >= 0 else c.div(c.const(1), v)

    def r(i):
        fr = [co.at(i, m) for m in range(n)]
        fr.append(1 - c.ssum(fr))
        return c.ssum(fr[m] * c.ssum(A[(m * k + p,)] * pwr(T[i], pw[p]) for p in range(k)) for m in range(n + 1))
    out(c, cp, g.cells(), r)
    same(c, co, T, A)


@spec("C08", cfgs=[dict(ng=0), dict(ng=1)])
def melting_line(c, dim, ng):
    g = G(dim)
    T, co = c.cell("T", g, ng), c.cell("c", g, 1 - ng)
    t, r, s = c.real("tref"), c.real("cref"), c.real("slope")
    c.call("linearmeltingline", g.box, T, ng, co, 1 - ng, t, r, s)
    out(c, T, g.cells(), lambda i: t + s * (co[i] - r))
    same(c, co)


@spec("C08", cfgs=[dict(ng=0), dict(ng=1)])
def gradient_temperature(c, dim, ng):
    """T = T_ref + G . (x - x_ref) at every cell centre, ghost cells included"""
    g = G(dim)
    T, dx, xlo, rp, gr, t = c.cell("T", g, ng), c.vec("dx", dim, pos=True), c.vec("xlo", dim), c.vec("refpos", dim), c.vec("grad", dim), c.real("tref")
    c.call("initgradient", dx, xlo, g.box, T, ng, rp, t, gr)
    out(c, T, g.cells(ng), lambda i: t + c.ssum(gr[(a,)] * (xlo[(a,)] + dx[(a,)] * (i[a] - g.lo[a] + q(c, 1, 2)) - rp[(a,)]) for a in range(dim)))
    same(c, dx, xlo, rp, gr)
