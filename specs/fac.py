"""operators of the elliptic FAC solver"""
import itertools
from symx.runner import spec
from symx.ref import *

GH = [(0, 1, 0), (1, 0, 1), (1, 2, 0), (0, 0, 0), (2, 1, 1), (1, 1, 2)]


def gw(dim, k, least=0): return tuple(x + least for x in GH[k % len(GH)][:dim])


def opfield(c, g, mx, fl, m, sf, u, i):
    """m div(flux) + sf u in cell i"""
    d = c.ssum(c.div(fl[a].at(sh(i, a)) - fl[a].at(i), mx[(a,)]) for a in range(g.dim))
    return m[i] * d + (sf if not hasattr(sf, "at") else sf[i]) * u.old(i)


@spec("C12", cfgs=[dict(k=0, sz="a"), dict(k=1, sz="one"), dict(k=4, sz="neg")])
def fac_flux(c, dim, k, sz):
    """flux = D du/dx at every side of the patch"""
    g = G(dim, sz)
    fl, D, u = c.sides("flux", g, gw(dim, k)), c.sides("D", g, gw(dim, k + 1)), c.cell("u", g, gw(dim, k + 2, 1))
    dx = c.vec("dx", dim, pos=True)
    c.call("efo_compfluxvardc%dd" % dim, fl, gw(dim, k), D, gw(dim, k + 1), u, gw(dim, k + 2, 1), g.box, dx)
    for a in range(dim): out(c, fl[a], g.sides(a), lambda s: c.div(D[a].at(s) * (u[s] - u[sh(s, a, -1)]), dx[(a,)]))
    same(c, D, u, dx)


def sf_arg(c, g, var, k):
    if not var: return c.real("sf"), []
    F = c.cell("sf", g, gw(g.dim, k))
    return F, gw(g.dim, k)


@spec("C12", cfgs=[dict(var=v, k=k, off=o, vd=d, sz=s) for v, k, s in ((0, 0, "a"), (1, 1, "a"), (1, 3, "neg"), (0, 2, "line")) for d in (0, 1) for o in (0, 1)])
def fac_red_black_relaxation(c, dim, var, k, off, vd, sz):
    """cells with index sum of the parity of the colour get the value that zeroes their own residual (diagonal frozen flux), the
    other cells keep theirs; maxres is the largest residual among the relaxed cells"""
    g = G(dim, sz)
    fl, rhs, m, u = c.sides("flux", g, gw(dim, k)), c.cell("rhs", g, gw(dim, k + 1)), c.cell("m", g, gw(dim, k + 2)), c.cell("u", g, gw(dim, k + 3))
    D = c.sides("D", g, gw(dim, k + 4)) if vd else c.real("D")
    sf, sg = sf_arg(c, g, var, k + 5)
    dx, res = c.vec("dx", dim, pos=True), c.ref("maxres", c.const(-1))
    c.call("efo_rbgswithfluxmax%s%s%dd" % ("vardc" if vd else "condc", "varsf" if var else "consf", dim), fl, gw(dim, k), D, gw(dim, k + 4) if vd else [],
           rhs, gw(dim, k + 1), sf, sg, m, gw(dim, k + 2), u, gw(dim, k + 3), g.box, dx, off, res)
    pts = [i for i in g.cells() if sum(i) % 2 == off]
    mr = 0

    def r(i): return rhs[i] - opfield(c, g, dx, fl, m, sf, u, i)

    def new(i):
        d = c.ssum(c.div(D[a].at(sh(i, a)) + D[a].at(i) if vd else 2 * D, dx[(a,)] * dx[(a,)]) for a in range(dim))
        den = m[i] * d - (sf[i] if var else sf)
        return u.old(i) - c.div(r(i), den)
    out(c, u, pts, new)
    for i in pts: mr = c.max(mr, c.abs(r(i)))
    c.eq(res.value, mr, "maxres")
    same(c, fl, rhs, m, dx)
    if vd: same(c, D)
    if var: same(c, sf)


@spec("C12", cfgs=[dict(sz=s, o=o) for s in ("a", "neg", "b") for o in ((0, 1), (1, 0))])
def fac_two_colours_cover_the_patch(c, dim, sz, o):
    """a red and a black sweep with the same flux relax every cell exactly once"""
    g = G(dim, sz)
    fl, rhs, m, u = c.sides("flux", g, 0), c.cell("rhs", g, 0), c.cell("m", g, 0), c.cell("u", g, 1)
    dx, D, sf = c.vec("dx", dim, pos=True), c.real("D", pos=True), c.real("sf")
    z, w = (0,) * dim, (1,) * dim
    for off in o:
        c.call("efo_rbgswithfluxmaxcondcconsf%dd" % dim, fl, z, D, rhs, z, sf, m, z, u, w, g.box, dx, off, c.ref("maxres%d" % off, c.const(0)))

    def new(i):
        r = rhs[i] - opfield(c, g, dx, fl, m, sf, u, i)
        return u.old(i) - c.div(r, m[i] * c.ssum(c.div(2 * D, dx[(a,)] * dx[(a,)]) for a in range(dim)) - sf)
    out(c, u, g.cells(), new)


@spec("C12", cfgs=[dict(var=v, k=k, sz=s) for v in (0, 1) for k, s in ((0, "a"), (2, "b"), (3, "neg"), (5, "one"))])
def fac_residual(c, dim, var, k, sz):
    """residual = rhs - m div(flux) - sf u"""
    g = G(dim, sz)
    fl, rhs, m, u = c.sides("flux", g, gw(dim, k)), c.cell("rhs", g, gw(dim, k + 1)), c.cell("m", g, gw(dim, k + 2)), c.cell("u", g, gw(dim, k + 3))
    r = c.cell("residual", g, gw(dim, k + 4))
    sf, sg = sf_arg(c, g, var, k + 5)
    dx = c.vec("dx", dim, pos=True)
    c.call("efo_compres%sca%dd" % ("vars" if var else "cons", dim), fl, gw(dim, k), rhs, gw(dim, k + 1), r, gw(dim, k + 4), sf, sg, m, gw(dim, k + 2), u, gw(dim, k + 3), g.box, dx)
    out(c, r, g.cells(), lambda i: rhs[i] - opfield(c, g, dx, fl, m, sf, u, i))
    same(c, fl, rhs, m, u, dx)
    if var: same(c, sf)


@spec("C12", cfgs=[dict(var=v, k=k, sz=s) for v in (0, 1) for k, s in ((0, "a"), (2, "b"), (5, "one"))])
def fac_accumulate_operator(c, dim, var, k, sz):
    """accum -= m div(flux) + sf u"""
    g = G(dim, sz)
    fl, m, u = c.sides("flux", g, gw(dim, k)), c.cell("m", g, gw(dim, k + 2)), c.cell("u", g, gw(dim, k + 3))
    r = c.cell("accum", g, gw(dim, k + 4))
    sf, sg = sf_arg(c, g, var, k + 5)
    dx = c.vec("dx", dim, pos=True)
    c.call("accumop%sca%dd" % ("vars" if var else "cons", dim), fl, gw(dim, k), r, gw(dim, k + 4), sf, sg, m, gw(dim, k + 2), u, gw(dim, k + 3), g.box, dx)
    out(c, r, g.cells(), lambda i: r.old(i) - opfield(c, g, dx, fl, m, sf, u, i))
    same(c, fl, m, u, dx)
    if var: same(c, sf)


@spec("C12", cfgs=[dict(k=0)])
def fac_relaxed_residual_vanishes(c, dim, k):
    """flux, one relaxation, flux again: the residual of a relaxed cell with no relaxed neighbour is zero"""
    g = G(dim, "a" if dim == 2 else "c")
    fl, rhs, m, u = c.sides("flux", g, 0), c.cell("rhs", g, 0), c.cell("m", g, 0), c.cell("u", g, 1)
    D, r = c.sides("D", g, 0), c.cell("residual", g, 0)
    dx, sf = c.vec("dx", dim, pos=True), c.real("sf")
    z, w = (0,) * dim, (1,) * dim
    c.call("efo_compfluxvardc%dd" % dim, fl, z, D, z, u, w, g.box, dx)
    c.call("efo_rbgswithfluxmaxvardcconsf%dd" % dim, fl, z, D, z, rhs, z, sf, m, z, u, w, g.box, dx, 0, c.ref("maxres", c.const(0)))
    c.call("efo_compfluxvardc%dd" % dim, fl, z, D, z, u, w, g.box, dx)
    c.call("efo_compresconsca%dd" % dim, fl, z, rhs, z, r, z, sf, m, z, u, w, g.box, dx)
    for i in g.cells():
        if sum(i) % 2 == 0:
            d = m[i] * c.ssum(c.div(D[a].at(sh(i, a)) + D[a].at(i), dx[(a,)] * dx[(a,)]) for a in range(dim)) - sf
            c.prove(c.implies(c.not_(c.eqc(d, 0)), c.eqc(r[i], 0)), "residual%s" % (i,))


@spec("C12", cfgs=[dict(vd=v, rt=r, k=k) for v in (0, 1) for r, k in (((2, 2, 2), 0), ((2, 3, 1), 2), ((1, 2, 3), 1))], thorough=[dict(vd=v, rt=(3, 2, 4), k=1) for v in (0, 1)])
def fac_coarse_fine_flux(c, dim, vd, rt, k):
    """coarse-fine flux (Ewing, Lazarov, Vassilevski): weighted sum of the normal difference (2/(1+r)) and the difference between
    opposite fine cells behind the same coarse face (1/(1+r)); other sides keep their flux"""
    rt = rt[:dim]
    lo, n = (2, -2, 4), [r * (1 + (b == 1)) for b, r in enumerate(rt)]
    g = Grid(lo[:dim], tuple(a + b - 1 for a, b in zip(lo[:dim], n[:dim])))
    for loc in range(2 * dim):
        a, up = loc // 2, loc % 2
        r = rt[a]
        fl = [c.field("flux%d%d" % (loc, b), g, gw(dim, k, 1), b) for b in range(dim)]
        D = c.sides("D", g, gw(dim, k + 1)) if vd else c.real("D")
        u = c.cell("u", g, gw(dim, k + 2, 1))
        dx = c.vec("dx", dim, pos=True)
        bl, bu = list(g.lo), list(g.hi)
        bl[a] = bu[a] = g.hi[a] + 1 if up else g.lo[a] - 1
        for b in range(dim):
            if b != a: bl[b] -= (loc + b) % 2 * rt[b]          # boundary boxes may stick out of the patch
        c.call("efo_ewingfixflux%s%dd" % ("vardc" if vd else "condc", dim), fl, gw(dim, k, 1), D, gw(dim, k + 1) if vd else [], u, gw(dim, k + 2, 1), g.box, loc,
               c.ivec("ratio%d" % loc, list(rt)), c.ivec("bl%d" % loc, bl), c.ivec("bu%d" % loc, bu), dx)
        f = g.hi[a] + 1 if up else g.lo[a]

        def new(s):
            i = sh(s, a, -1) if up else s                  # interior cell at the side
            j = tuple(x if b == a else lo[b] + (x - lo[b]) // rt[b] * rt[b] + (rt[b] - 1 - (x - lo[b]) % rt[b]) for b, x in enumerate(i))
            d = c.div((D[a].at(s) if vd else D) * (u[j] - u[i]), dx[(a,)])
            return (2 * fl[a].old(s) + (-d if up else d)) / (1 + r)
        out(c, fl[a], [s for s in g.sides(a) if s[a] == f], new)
        for b in range(dim):
            if b != a: same(c, fl[b])


@spec("C12", cfgs=[dict(w=w, k=k, sz=s) for w, k, s in (("d", 0, "a"), ("s", 2, "one"), ("d", 5, "neg"))])
def fac_implicit_phase_coefficient(c, dim, w, k, sz):
    """C = 1 + factor * mobility * g''(phi)"""
    g = G(dim, sz)
    u, m, C, f = c.cell("u", g, gw(dim, k)), c.cell("m", g, 0), c.cell("C", g, 0), c.real("factor")
    c.call("setc%dd" % dim, u, gw(dim, k), m, f, C, g.box, w)
    g2 = {"d": lambda x: 32 * (1 + 6 * x * (x - 1)), "s": lambda x: c.const(2)}[w]
    out(c, C, g.cells(), lambda i: 1 + f * m[i] * g2(u[i]))
    same(c, u, m)
