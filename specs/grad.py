"""Differences, gradients, gradient norms, side/cell averaging"""
from symx.runner import spec
from symx.ref import *


@spec("C03", cfgs=[dict(ngd=0, ngg=0), dict(ngd=1, ngg=2), dict(ngd=0, ngg=0, sz="one")])
def grad_cell(c, dim, ngd, ngg, sz="a"):
    g = G(dim, sz)
    d = c.sides("diff", g, ngd)
    h = c.vec("h", dim, pos=True)
    gr = [c.cell("grad%d" % a, g, ngg) for a in range(dim)]
    c.call("grad_cell", g.box, d, ngd, h, gr, ngg)
    for a in range(dim):
        out(c, gr[a], g.cells(), lambda i: c.div(d[a][i] + d[a][sh(i, a)], 2 * h[(a,)]))
    same(c, d, h)


def side_grad_ref(c, d, h, s, a, i):
    """component a of the gradient at side s with lower cell i-e_s"""
    if a == s: return c.div(d[a][i], h[(a,)])
    j = sh(i, s, -1)
    return c.div(d[a][j] + d[a][sh(j, a)] + d[a][i] + d[a][sh(i, a)], 4 * h[(a,)])


@spec("C03", cfgs=[dict(ngd=1, ngg=0), dict(ngd=2, ngg=1)])
def grad_side(c, dim, ngd, ngg):
    g = G(dim)
    d = c.sides("diff", g, ngd)
    h = c.vec("h", dim, pos=True)
    gr = [[c.field("g%ds%d" % (a, s), g, ngg, side=s) for a in range(dim)] for s in range(dim)]
    c.call("grad_side", g.box, d, ngd, h, [x for s in gr for x in s], ngg)
    for s in range(dim):
        for a in range(dim):
            out(c, gr[s][a], g.sides(s), lambda i: side_grad_ref(c, d, h, s, a, i))
    same(c, d, h)


@spec("C03", dims=(2,), cfgs=[dict(ngd=1, ngg=0), dict(ngd=2, ngg=1)])
def grad_side_isotropic(c, dim, ngd, ngg):
    g = G(dim)
    d = c.sides("diff", g, ngd)
    h = c.vec("h", dim, pos=True)
    gr = [[c.field("g%ds%d" % (a, s), g, ngg, side=s) for a in range(dim)] for s in range(dim)]
    bx = lambda n: [y for a in range(dim) for y in (g.lo[a] - n, g.hi[a] + n)]
    c.call("grad_side_isotropic", g.box, d, bx(ngd), h, [x for s in gr for x in s], bx(ngg))
    for s in range(dim):
        for a in range(dim):
            def r(i):
                if a != s: return side_grad_ref(c, d, h, s, a, i)
                t = 1 - s
                return c.div(d[s][sh(i, t, -1)] + 10 * d[s][i] + d[s][sh(i, t)], 12 * h[(s,)])
            out(c, gr[s][a], g.sides(s), r)
    same(c, d, h)


@spec("C03")
def gradients_exact_on_linear_fields(c, dim):
    """differences then gradients of a linear field give its slope at every cell and side"""
    g = G(dim)
    sl = [c.real("slope%d" % a) for a in range(dim)]
    b = c.real("b")
    hv = [c.real("hh%d" % a, pos=True) for a in range(dim)]
    h = c.vecof("h", hv)
    lin = lambda i, m: b + c.ssum(sl[a] * hv[a] * i[a] for a in range(dim))
    phi = c.cell("phi", g, 2, init=lin)
    d = c.sides("diff", g, 1, init=None)
    gbx = lambda n: [y for a in range(dim) for y in (g.lo[a] - n, g.hi[a] + n)]
    c.call("diffs", gbx(0), phi, 2, d, 1)
    gc = [c.cell("gc%d" % a, g, 0, init=None) for a in range(dim)]
    c.call("grad_cell", g.box, d, 1, h, gc, 0)
    gs = [[c.field("g%ds%d" % (a, s), g, 0, side=s, init=None) for a in range(dim)] for s in range(dim)]
    c.call("grad_side", g.box, d, 1, h, [x for s in gs for x in s], 0)
    for a in range(dim):
        for i in g.cells(): c.eq(gc[a][i], sl[a], "cell gradient %d%s" % (a, i))
        for s in range(dim):
            for i in g.sides(s): c.eq(gs[s][a][i], sl[a], "side %d gradient %d%s" % (s, a, i))


@spec("C03")
def velocity(c, dim):
    """interface velocity phi_t/|grad phi|, regularised by a threshold"""
    g = G(dim)
    gr = [c.cell("g%d" % a, g, 0) for a in range(dim)]
    pd, v = c.cell("phidot", g, 0), c.cell("vel", g, 0)
    t = c.real("threshold", pos=True)
    c.call("velocity", g.box, t, gr, pd, v)
    out(c, v, g.cells(), lambda i: c.div(pd[i], c.sqrt(norm2([x[i] for x in gr]) + t * t)))
    same(c, gr, pd)


@spec("C03", cfgs=[dict(ngs=0, ngc=0), dict(ngs=1, ngc=2)])
def side2cell(c, dim, ngs, ngc):
    g = G(dim)
    s = c.sides("side", g, ngs)
    f = c.cell("cell", g, ngc)
    c.call("side2cell", g.box, s, ngs, f, ngc)
    out(c, f, g.cells(), lambda i: c.div(c.ssum(s[a][i] + s[a][sh(i, a)] for a in range(dim)), c.const(2 * dim)))
    same(c, s)


@spec("C03", cfgs=[dict(ngphi=1, ngr=0), dict(ngphi=2, ngr=1), dict(ngphi=1, ngr=0, sz="one")])
def laplacian(c, dim, ngphi, ngr, sz="a"):
    g = G(dim, sz)
    rhs, phi = c.cell("rhs", g, ngr), c.cell("phi", g, ngphi)
    dx = c.vec("dx", dim, pos=True)
    co = c.real("coeff")
    c.call("laplacian", g.box, dx, co, phi, ngphi, rhs, ngr)
    out(c, rhs, g.cells(), lambda i: co * c.ssum(
        c.div(phi[sh(i, a)] - 2 * phi[i] + phi[sh(i, a, -1)], dx[(a,)] * dx[(a,)]) for a in range(dim)))
    same(c, phi, dx)


@spec("C03")
def settozero(c, dim):
    g = G(dim)
    f = c.cell("f", g, 2)
    c.call("settozero", g.lo, g.hi, [x - 2 for x in g.lo], [x + 2 for x in g.hi], f)
    out(c, f, g.cells(), lambda i: c.const(0))
