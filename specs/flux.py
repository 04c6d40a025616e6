"""side fluxes"""
import itertools
from symx.runner import spec
from symx.ref import *


def dphi(c, F, i, a, m=0): return F.at(i, m) - F.at(sh(i, a, -1), m)


def flux_setup(c, dim, depth, ng, ngd, ngf, sz="line"):
    g = G(dim, sz)
    dx = c.vec("dx", dim, pos=True)
    F = c.cell("data", g, ng, depth)
    D = c.sides("D", g, ngd, depth * depth)
    fl = c.sides("flux", g, ngf, depth)
    return g, dx, F, D, fl


CF = [dict(depth=1, ng=1, ngd=0, ngf=0), dict(depth=2, ng=2, ngd=1, ngf=1), dict(depth=3, ng=1, ngd=0, ngf=0)]


@spec("C04", cfgs=CF)
def add_flux(c, dim, depth, ng, ngd, ngf):
    """flux_i += sum_j D_ij d(data_j)/dx"""
    g, dx, F, D, fl = flux_setup(c, dim, depth, ng, ngd, ngf, "a" if depth < 3 else "line")
    c.call("add_flux", g.box, dx, F, ng, depth, D, ngd, fl, ngf)
    for a in range(dim):
        out(c, fl[a], g.sides(a), lambda s, i: fl[a].old(s, i) + c.div(c.ssum(D[a].at(s, i + j * depth) * dphi(c, F, s, a, j) for j in range(depth)), dx[(a,)]))
    same(c, dx, F, D)


@spec("C04", cfgs=[dict(depth=1, ng=1, ngd=1, ngf=0), dict(depth=2, ng=2, ngd=1, ngf=1)])
def add_flux_iso(c, dim, depth, ng, ngd, ngf):
    """as add_flux, weighted over the side and its transverse neighbours (weights sum to 1)"""
    g, dx, F, D, fl = flux_setup(c, dim, depth, ng, ngd, ngf)
    c.call("add_flux_iso", g.box, dx, F, ng, depth, D, ngd, fl, ngf)
    w0 = 10 if dim == 2 else 8
    for a in range(dim):
        def r(s, i):
            t = 0
            for j in range(depth):
                x = lambda p: D[a].at(p, i + j * depth) * dphi(c, F, p, a, j)
                t = t + w0 * x(s) + c.ssum(x(sh(s, b, k)) for b in range(dim) if b != a for k in (1, -1))
            return fl[a].old(s, i) + c.div(t, 12 * dx[(a,)])
        out(c, fl[a], g.sides(a), r)
    same(c, dx, F, D)


def _physb(dim):
    P = [(0,) * (2 * dim), (1,) * (2 * dim)]
    for k in range(2 * dim): P.append(tuple(int(j == k) for j in range(2 * dim)))
    return P


@spec("C04", cfgs=[dict(depth=1, k=k) for k in range(6)] + [dict(depth=1, k=k, only=(3,)) for k in (6, 7)] + [dict(depth=2, k=2, sz="a")])
def add_flux_4th(c, dim, depth, k, sz="a"):
    """fourth-order side derivative, second-order at sides lying on a physical boundary"""
    g, dx, F, D, fl = flux_setup(c, dim, depth, 2, 0, 1, sz)
    pb = _physb(dim)[k]
    c.call("add_flux_4th", g.box, dx, F, 2, depth, D, 0, fl, 1, c.ivec("physb", pb))
    for a in range(dim):
        def r(s, i):
            bdry = (pb[2 * a] and s[a] == g.lo[a]) or (pb[2 * a + 1] and s[a] == g.hi[a] + 1)
            t = 0
            for j in range(depth):
                d = dphi(c, F, s, a, j)
                if not bdry: d = c.div(15 * d - (F.at(sh(s, a, 1), j) - F.at(sh(s, a, -2), j)), c.const(12))
                t = t + D[a].at(s, i + j * depth) * d
            return fl[a].old(s, i) + c.div(t, dx[(a,)])
        out(c, fl[a], g.sides(a), r)
    same(c, dx, F, D)


@spec("C04", cfgs=[dict(which=w) for w in ("add_flux", "add_flux_iso", "add_flux_4th")])
def flux_of_linear_data(c, dim, which):
    """for data linear in space and a constant coefficient every scheme gives coefficient * slope; for uniform data none changes the flux"""
    g = G(dim)
    sl = [c.real("slope%d" % a) for a in range(dim)]
    hv = [c.real("h%d" % a, pos=True) for a in range(dim)]
    b, k = c.real("b"), c.real("k")
    F = c.cell("data", g, 2, init=lambda i, m: b + c.ssum(sl[a] * hv[a] * i[a] for a in range(dim)))
    D = c.sides("D", g, 1, init=lambda i, m: k)
    fl = c.sides("flux", g, 0)
    dx = c.vecof("dx", hv)
    c.call(which, g.box, dx, F, 2, 1, D, 1, fl, 0, *([c.ivec("pb", [1, 0] * dim)] if which == "add_flux_4th" else []))
    for a in range(dim): out(c, fl[a], g.sides(a), lambda s: fl[a].old(s) + k * sl[a])


@spec("C04", cfgs=[dict(ng=1, ngf=0), dict(ng=2, ngf=1)])
def gradient_flux(c, dim, ng, ngf):
    g = G(dim)
    F, fl = c.cell("phase", g, ng), c.sides("flux", g, ngf)
    h, e = c.vec("h", dim, pos=True), c.real("epsilon")
    c.call("gradient_flux", g.box, h, e, F, ng, fl, ngf)
    for a in range(dim): out(c, fl[a], g.sides(a), lambda s: c.div(e * e * dphi(c, F, s, a), h[(a,)]))
    same(c, F, h)


@spec("C04", dims=(2,), cfgs=[dict(fn="gradient_flux_wide", w=6, ng=1, ngf=0), dict(fn="gradient_flux_wide", w=6, ng=2, ngf=1),
                              dict(fn="compute_flux_isotropic", w=10, ng=1, ngf=0), dict(fn="compute_flux_isotropic", w=10, ng=2, ngf=1)])
def gradient_flux_averaged(c, dim, fn, w, ng, ngf):
    g = G(dim)
    F, fl = c.cell("phase", g, ng), c.sides("flux", g, ngf)
    h, e = c.vec("h", dim, pos=True), c.real("epsilon")
    c.call(fn, g.box, h, e, F, ng, fl, ngf)
    for a in range(dim):
        t = 1 - a
        out(c, fl[a], g.sides(a), lambda s: c.div(e * e * (dphi(c, F, sh(s, t, -1), a) + w * dphi(c, F, s, a) + dphi(c, F, sh(s, t), a)), (w + 2) * h[(a,)]))
    same(c, F, h)


def side_gradient(c, F, h, s, a, dim):
    d = []
    for b in range(dim):
        if b == a: d.append(c.div(dphi(c, F, s, a), h[(a,)]))
        else:
            j = sh(s, a, -1)
            d.append(c.div(F[sh(j, b)] - F[sh(j, b, -1)] + F[sh(s, b)] - F[sh(s, b, -1)], 4 * h[(b,)]))
    return d


@spec("C04", dims=(2,), cfgs=[dict(qlen=1, k=4), dict(qlen=4, k=4), dict(qlen=2, k=6)], cost=3)
def anisotropic_flux_2d(c, dim, qlen, k, sz="one"):
    """eps(theta)^2 grad(phi) + eps eps' (-phi_y, phi_x) with eps = epsilon (1 + nu cos(k (theta - theta0)))"""
    g = G(dim, sz)
    F, Q_, fl = c.cell("phase", g, 1), c.cell("q", g, 1, qlen), c.sides("flux", g, 0)
    h, e, nu = c.vec("h", dim, pos=True), c.real("epsilon"), c.real("nu")
    for a in range(dim):
        for s in g.sides(a):
            dx = c.abs(side_gradient(c, F, h, s, a, dim)[0])
            c.assume(c.or_(c.gt(dx, q(c, 2, 10 ** 12)), c.lt(dx, q(c, 1, 2 * 10 ** 12))))
    c.call("anisotropic_gradient_flux", g.box, h, e, nu, k, F, 1, Q_, 1, qlen, fl, 0)
    one = c.const(1)
    for a in range(dim):
        def r(s):
            px, py = side_gradient(c, F, h, s, a, dim)
            theta = c.ite(c.gt(c.abs(px), q(c, 1, 10 ** 12)), c.fn("atan", c.div(py, px)), c.pi / 2)
            qq = c.max(-one, c.min(one, (Q_.at(sh(s, a, -1), 0) + Q_.at(s, 0)) / 2))
            th0 = c.fn("acos", qq) * (2 if qlen == 4 else 1)
            ep = e * (1 + nu * c.fn("cos", k * (theta - th0)))
            de = -k * e * nu * c.fn("sin", k * (theta - th0))
            return ep * ep * px - ep * de * py if a == 0 else ep * ep * py + ep * de * px
        out(c, fl[a], g.sides(a), r)
    same(c, F, Q_, h)


def dgamma(c, qv, n):
    from specs.quat import mul4
    cj = [qv[0], -qv[1], -qv[2], -qv[3]]
    p = mul4(qv, mul4([c.const(0)] + n, cj))
    n4 = c.ssum(x * x * x * x for x in p[1:])
    d = [c.const(0)] + [x * (x * x - n4) for x in p[1:]]
    return mul4(cj, mul4(d, qv))[1:], n4


@spec("C04", dims=(3,))
def anisotropy_gradient(c, dim):
    """derivative of the cubic anisotropy function sum n_i^4 in the crystal frame, rotated back"""
    qv, n = c.vec("q", 4), c.vec("n", 3)
    nn = c.vecof("nn", [c.const(0)] + [n[(k,)] for k in range(3)])
    dg, n4 = c.vec("dg", 4, init=None), c.ref("n4")
    c.call("compute_dgamma", qv, nn, dg, n4)
    w, w4 = dgamma(c, [qv[(k,)] for k in range(4)], [n[(k,)] for k in range(3)])
    c.eq(n4.value, w4, "n4")
    for k in range(3): c.eq(dg[(k + 1,)], w[k], "component %d" % k)


class Gamma:
    """compute_dgamma (decided on its own by anisotropy_gradient) replaced by unknown functions of its inputs"""

    def __init__(self, c):
        self.c = c
        if c.sym: c.eng.intrinsics["compute_dgamma_"] = c.eng.intrinsics["compute_dgamma"] = self.run

    def run(self, eng, args, st):
        from symx import terms as tm
        rd = lambda p, k: tm.lift(eng.num(eng.load_cell(st, p.obj, p.off + k)))
        x = [rd(args[0], k) for k in range(4)] + [rd(args[1], k) for k in range(1, 4)]
        eng.store_cell(st, args[2].obj, args[2].off, tm.const(0))
        for k in range(3): eng.store_cell(st, args[2].obj, args[2].off + k + 1, tm.uf("dgamma%d" % k, *x))
        eng.store_cell(st, args[3].obj, args[3].off, tm.uf("dgamma4", *x))

    def __call__(self, qv, n):
        if self.c.sym:
            from symx import terms as tm
            x = [tm.lift(y) for y in qv + n]
            return [tm.uf("dgamma%d" % k, *x) for k in range(3)], tm.uf("dgamma4", *x)
        return dgamma(self.c, qv, n)


@spec("C04", dims=(3,), cost=3)
def anisotropic_flux_3d(c, dim):
    """gamma^2 grad(phi) + 16 eps eps4 gamma |grad phi| dgamma, gamma = eps (1 - 3 eps4) (1 + 4 eps4/(1 - 3 eps4) n4)"""
    g = G(dim, "one")
    F, Q_, fl = c.cell("phase", g, 1), c.cell("q", g, 1, 4), c.sides("flux", g, 0)
    h, e, e4 = c.vec("h", dim, pos=True), c.real("epsilon"), c.real("eps4")
    c.assume(c.lt(e4, q(c, 1, 3)))
    Gm = Gamma(c)
    for a in range(dim):
        for s in g.sides(a):
            c.assume(c.gt(norm2(side_gradient(c, F, h, s, a, dim)), q(c, 2, 10 ** 12)))
    c.call("anisotropic_gradient_flux", g.box, h, e, e4, 4, F, 1, Q_, 1, 4, fl, 0)
    for a in range(dim):
        def r(s):
            d = side_gradient(c, F, h, s, a, dim)
            gn = c.sqrt(norm2(d))
            dg, n4 = Gm([(Q_.at(sh(s, a, -1), m) + Q_.at(s, m)) / 2 for m in range(4)], [c.div(x, gn) for x in d])
            gm = e * (1 - 3 * e4) * (1 + c.div(4 * e4, 1 - 3 * e4) * n4)
            return gm * gm * d[a] + 16 * e * gm * e4 * gn * dg[a]
        out(c, fl[a], g.sides(a), r)
    same(c, F, Q_, h)
