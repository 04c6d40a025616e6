"""concentration fluxes and right-hand side"""
from symx.runner import spec
from symx.ref import *
from specs.flux import dphi


def mid(F, i, a, m=0): return (F.at(sh(i, a, -1), m) + F.at(i, m)) / 2


@spec("C06", cfgs=[dict(ng=1, ngd=0, ngf=0), dict(ng=2, ngd=1, ngf=1)])
def concentration_flux(c, dim, ng, ngd, ngf):
    """D grad(c) + K grad(phi) at every side"""
    g = G(dim)
    dx, co, phi = c.vec("dx", dim, pos=True), c.cell("conc", g, ng), c.cell("phi", g, 3 - ng)
    D, K, fl = c.sides("D", g, ngd), c.sides("K", g, 1 - ngd), c.sides("flux", g, ngf)
    c.call("concentrationflux", g.box, dx, co, ng, phi, 3 - ng, D, ngd, K, 1 - ngd, fl, ngf)
    for a in range(dim): out(c, fl[a], g.sides(a), lambda s: c.div(D[a].at(s) * dphi(c, co, s, a) + K[a].at(s) * dphi(c, phi, s, a), dx[(a,)]))
    same(c, dx, co, phi, D, K)


def lap(c, F, i, dx, dim, m=0): return c.ssum(c.div(F.at(sh(i, a), m) - 2 * F.at(i, m) + F.at(sh(i, a, -1), m), dx[(a,)] * dx[(a,)]) for a in range(dim))


@spec("C06", cfgs=[dict(ng=2, ngf=1), dict(ng=3, ngf=2)])
def cahn_hilliard_flux(c, dim, ng, ngf):
    """flux += M grad mu, mu = d/dc [w (c-ca)^2 (cb-c)^2] - kappa lap(c)"""
    g = G(dim, "a" if dim == 2 else "line")
    dx, co, fl = c.vec("dx", dim, pos=True), c.cell("conc", g, ng), c.sides("flux", g, ngf)
    M, ca, cb, w, k = (c.real(x) for x in ("M", "ca", "cb", "w", "kappa"))
    c.call("add_cahnhilliarddoublewell_flux", g.box, dx, co, ng, M, ca, cb, w, k, fl, ngf)

    def mu(i):
        x = co[i]
        return 2 * w * (x - ca) * (cb - x) * (cb + ca - 2 * x) - k * lap(c, co, i, dx, dim)
    for a in range(dim): out(c, fl[a], g.sides(a), lambda s: fl[a].old(s) + c.div(M * (mu(s) - mu(sh(s, a, -1))), dx[(a,)]), rest=False)
    same(c, dx, co)


@spec("C06", cfgs=[dict(n=1, ng=2, ngp=1, ngd=1, ngf=1), dict(n=2, ng=2, ngp=1, ngd=1, ngf=1), dict(n=3, ng=3, ngp=2, ngd=2, ngf=2)])
def wang_sintering_flux(c, dim, n, ng, ngp, ngd, ngf):
    """flux += M D grad mu, mu = 2A c(1-c)(1-2c) + 2B (c - 3 sum phi^2 + 2 sum phi^3) - kappa lap(c)"""
    g = G(dim, "line")
    dx, co, phi, D, fl = c.vec("dx", dim, pos=True), c.cell("conc", g, ng), c.cell("phi", g, ngp, n), c.sides("D", g, ngd), c.sides("flux", g, ngf)
    s2, s3 = c.cell("phi2sum", g, ngp), c.cell("phi3sum", g, ngp)
    M, A, B, k = (c.real(x) for x in ("M", "A", "B", "kappa"))
    c.call("add_wang_sintering_flux", g.box, dx, co, ng, D, ngd, phi, ngp, n, M, A, B, k, fl, ngf, s2, s3)

    def mu(i):
        x = co[i]
        p = [phi.at(i, m) for m in range(n)]
        return 2 * A * x * (1 - x) * (1 - 2 * x) + 2 * B * (x - 3 * c.ssum(y * y for y in p) + 2 * c.ssum(y * y * y for y in p)) - k * lap(c, co, i, dx, dim)
    for a in range(dim): out(c, fl[a], g.sides(a), lambda s: fl[a].old(s) + c.div(M * D[a].at(s) * (mu(s) - mu(sh(s, a, -1))), dx[(a,)]), rest=False)
    same(c, dx, co, phi, D)


@spec("C06", cfgs=[dict(ng=1, ngd=0), dict(ng=2, ngd=1)])
def spinodal_flux(c, dim, ng, ngd):
    g = G(dim)
    dx, co, ca, cb = c.vec("dx", dim, pos=True), c.cell("conc", g, ng), c.cell("ca", g, 3 - ng), c.cell("cb", g, ng)
    D, eta, k, fl = c.sides("D", g, ngd), c.cell("eta", g, 3 - ng), c.real("kappa"), c.sides("flux", g, 1 - ngd)
    c.call("concentrationflux_spinodal", g.box, dx, co, ng, 1, ca, 3 - ng, cb, ng, D, ngd, eta, 3 - ng, k, fl, 1 - ngd)
    for a in range(dim):
        out(c, fl[a], g.sides(a), lambda s: c.div(D[a].at(s) * dphi(c, co, s, a) - k * (mid(ca, s, a) - mid(cb, s, a)) * dphi(c, eta, s, a), dx[(a,)]))
    same(c, dx, co, ca, cb, D, eta)


@spec("C06", cfgs=[dict(ng=0, ngf=0), dict(ng=1, ngf=1)])
def concentration_rhs(c, dim, ng, ngf):
    """M div(flux); summed over the patch only the fluxes through its boundary remain: nothing is created or lost inside"""
    g = G(dim, "b")
    dx, fl, M, rhs = c.vec("dx", dim, pos=True), c.sides("flux", g, ngf), c.real("M"), c.cell("rhs", g, ng)
    c.call("computerhsconcentration", g.box, dx, fl, ngf, M, rhs, ng)
    out(c, rhs, g.cells(), lambda i: M * c.ssum(c.div(fl[a].at(sh(i, a)) - fl[a].at(i), dx[(a,)]) for a in range(dim)))
    b = 0
    for a in range(dim):
        for s in g.sides(a):
            if s[a] == g.hi[a] + 1: b = b + c.div(fl[a].at(s), dx[(a,)])
            if s[a] == g.lo[a]: b = b - c.div(fl[a].at(s), dx[(a,)])
    c.eq(c.ssum(rhs[i] for i in g.cells()), M * b, "balance")
    same(c, dx, fl)


@spec("C06", cfgs=[dict(t="a", ng=1), dict(t="h", ng=2)])
def flux_from_temperature_gradient(c, dim, t, ng):
    g = G(dim)
    dx, T, mq, fl = c.vec("dx", dim, pos=True), c.cell("T", g, ng, pos=True), c.sides("mq", g, ng - 1), c.sides("flux", g, 2 - ng)
    c.call("addconcentrationfluxfromgradt", g.box, dx, T, ng, mq, ng - 1, fl, 2 - ng, t)
    for a in range(dim):
        out(c, fl[a], g.sides(a), lambda s: fl[a].old(s) - c.div(mq[a].at(s) * dphi(c, T, s, a), dx[(a,)] * c.call("average_func", T[sh(s, a, -1)], T[s], t)))
    same(c, dx, T, mq)


def grad_at_side(c, F, s, a, dx, dim, m=0):
    """gradient at a side: difference across it, and the mean of the central differences of its two cells along it"""
    r = []
    for b in range(dim):
        if b == a: r.append(c.div(dphi(c, F, s, a, m), dx[(a,)]))
        else:
            l = sh(s, a, -1)
            r.append(c.div(F.at(sh(s, b), m) - F.at(sh(s, b, -1), m) + F.at(sh(l, b), m) - F.at(sh(l, b, -1), m), 4 * dx[(b,)]))
    return r


def corner_grad_at_side(c, F, s, a, dx, dim, m=0):
    """as above, the transverse derivative taken between the four diagonal neighbours"""
    r = []
    tr = [b for b in range(dim) if b != a]
    for b in range(dim):
        if b == a: r.append(c.div(dphi(c, F, s, a, m), dx[(a,)]))
        else:
            o = [x for x in tr if x != b][0]
            r.append(c.div(c.ssum(k * mid(F, sh(sh(s, b, k), o, l), a, m) for k in (1, -1) for l in (1, -1)), 4 * dx[(b,)]))
    return r


def cut(c, n2):
    """away from the threshold (a single precision literal in the code)"""
    t = q(c, 1, 10 ** 16)
    c.assume(c.or_(c.gt(n2, 2 * t), c.lt(2 * n2, t)))
    return c.gt(n2, t)


@spec("C06", cfgs=[dict(n=1, ngp=1, ngc=1), dict(n=2, ngp=2, ngc=2)], cost=2)
def antitrapping(c, dim, n, ngp, ngc):
    """flux += alpha (cl - cs) dphi/dt n, n the interface normal"""
    g = G(dim, "one")
    dx, phi, cl, ca, dt, al = c.vec("dx", dim, pos=True), c.cell("phi", g, ngp), c.cell("cl", g, ngc, n), c.cell("ca", g, ngc, n), c.cell("dphidt", g, 3 - ngp), c.real("alpha")
    fl = c.sides("flux", g, ngc - 1, n)
    R = {}
    for a in range(dim):
        for s in g.sides(a):
            gr = grad_at_side(c, phi, s, a, dx, dim)
            n2 = norm2(gr)
            R[a, tuple(s)] = cut(c, n2), lambda m, a=a, s=s, gr=gr, n2=n2: c.div(al * gr[a] * (mid(cl, s, a, m) - mid(ca, s, a, m)) * mid(dt, s, a), c.sqrt(n2))
    c.call("addconcentrationfluxfromantitrapping", g.box, dx, phi, ngp, cl, ca, ngc, n, dt, 3 - ngp, al, fl, ngc - 1)
    for a in range(dim):
        def r(s, m):
            cond, f = R[a, tuple(s)]
            return c.ite(cond, fl[a].old(s, m) + f(m), fl[a].old(s, m))
        out(c, fl[a], g.sides(a), r)
    same(c, dx, phi, cl, ca, dt)


@spec("C06", cfgs=[dict(ng=1, only=(2,)), dict(ng=2, only=(2,)), dict(ng=1, only=(3,))], cost=3)
def antitrapping_three_phases(c, dim, ng):
    """sum over the two solids of alpha (-n_liquid . n_solid) (cl - cs) dphi_s/dt n_liquid"""
    g = G(dim, "one")
    dx, phi, dt, al = c.vec("dx", dim, pos=True), c.cell("phi", g, ng, 3), c.cell("dphidt", g, 3 - ng, 3), c.real("alpha")
    C = [c.cell(x, g, ng) for x in ("cl", "ca", "cb")]
    fl = c.sides("flux", g, ng - 1)
    R = {}
    for a in range(dim):
        for s in g.sides(a):
            gr = [grad_at_side(c, phi, s, a, dx, dim, m) for m in range(3)]
            R[a, tuple(s)] = [(cut(c, norm2(x)), x) for x in gr]
    c.call("addconcentrationfluxfromantitrapping3phases", g.box, dx, phi, ng, *C, ng, dt, 3 - ng, al, fl, ng - 1)
    for a in range(dim):
        def r(s):
            (c0, g0), *sol = R[a, tuple(s)]
            v = fl[a].old(s)
            for p, (cp, gp) in enumerate(sol, 1):
                f = -c.div(c.ssum(x * y for x, y in zip(gp, g0)), c.sqrt(norm2(gp)) * c.sqrt(norm2(g0)))
                v = v + c.ite(c.and_(c0, cp), al * f * c.div(g0[a], c.sqrt(norm2(g0))) * (mid(C[0], s, a) - mid(C[p], s, a)) * mid(dt, s, a, p), c.const(0))
            return v
        out(c, fl[a], g.sides(a), r)
    same(c, dx, phi, dt, *C)


@spec("C06", cfgs=[dict(n=2, ng=1), dict(n=3, ng=2)], cost=2)
def antitrapping_multi_order(c, dim, n, ng):
    """the liquid is the last order parameter; the solids' rates add up"""
    g = G(dim, "one")
    dx, phi, dt, al = c.vec("dx", dim, pos=True), c.cell("phi", g, ng, n), c.cell("dphidt", g, 3 - ng, n), c.real("alpha")
    cl, ca = c.cell("cl", g, ng), c.cell("ca", g, ng)
    fl = c.sides("flux", g, ng - 1)
    gs = grad_at_side if dim == 2 else corner_grad_at_side
    R = {}
    for a in range(dim):
        for s in g.sides(a):
            gr = [gs(c, phi, s, a, dx, dim, m) for m in range(n)]
            sol = [c.ssum(x[b] for x in gr[:-1]) for b in range(dim)]
            R[a, tuple(s)] = cut(c, norm2(gr[-1])), cut(c, norm2(sol)), gr[-1]
    c.call("addconcentrationfluxfromantitrappingmultiorderp", g.box, dx, phi, ng, n, cl, ca, ng, dt, 3 - ng, al, fl, ng - 1)
    for a in range(dim):
        def r(s):
            c0, c1, gl = R[a, tuple(s)]
            f = c.div(al * gl[a] * (mid(cl, s, a) - mid(ca, s, a)) * c.ssum(mid(dt, s, a, p) for p in range(n - 1)), c.sqrt(norm2(gl)))
            return c.ite(c.and_(c0, c1), fl[a].old(s) - f, fl[a].old(s))
        out(c, fl[a], g.sides(a), r)
    same(c, dx, phi, dt, cl, ca)
