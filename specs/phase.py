"""right-hand sides of the order parameters"""
from symx.runner import spec
from symx.ref import *


def div_flux(c, fl, dx, i, dim, m=0): return c.ssum(c.div(fl[a].at(sh(i, a), m) - fl[a].at(i, m), dx[(a,)]) for a in range(dim))
def dinterp(c, x, t): return c.call("deriv_interp_func", x, t)
def interp(c, x, t): return c.call("interp_func", x, t)


PB = [dict(orient=0, three=0), dict(orient=1, three=0), dict(orient=0, three=1), dict(orient=1, three=1, ng=1),
      dict(orient=1, three=1, w="s", ew="d", h="p", t1="q", t2="p")]


@spec("C05", cfgs=PB)
def rhs_pbg(c, dim, orient, three, ng=0, w="d", ew="s", h="q", t1="p", t2="q"):
    """div(flux) - w g'(phi) - w_eta h'(phi) g(eta) - H T p1'(phi) |grad q| - 1/2 epsq^2 p2'(phi) |grad q|^2"""
    g = G(dim)
    dx = c.vec("dx", dim, pos=True)
    fl = c.sides("flux", g, ng)
    phi, eta, T, og, rhs = c.cell("phi", g, 1), c.cell("eta", g, ng), c.cell("temp", g, 1 - ng), c.cell("og", g, ng), c.cell("rhs", g, 1 - ng)
    mf, eq, ws, es = c.real("misf"), c.real("epsq"), c.real("ws"), c.real("es")
    if {"p", "q"} & {h, t1, t2} or "d" in (w, ew): pass
    c.call("computerhspbg", g.box, dx, mf, eq, fl, ng, T, 1 - ng, ws, es, phi, 1, eta, ng, og, ng, rhs, 1 - ng, w, ew, h, t1, t2, orient, three)

    def r(i):
        v = div_flux(c, fl, dx, i, dim) - ws * c.call("deriv_well_func", phi[i], w)
        if three: v = v - es * dinterp(c, phi[i], h) * c.call("well_func", eta[i], ew)
        if orient: v = v - mf * T[i] * dinterp(c, phi[i], t1) * og[i] - c.div(eq * eq, c.const(2)) * dinterp(c, phi[i], t2) * og[i] * og[i]
        return v
    out(c, rhs, g.cells(), r)
    same(c, dx, fl, phi, eta, T, og)


@spec("C05", cfgs=[dict(ng=0), dict(ng=1)])
def rhs_three_phases(c, dim, ng):
    """projected on the plane where the components sum to zero"""
    g = G(dim, "a" if dim == 2 else "c")
    dx = c.vec("dx", dim, pos=True)
    fl = c.sides("flux", g, ng, 3)
    phi, rhs = c.cell("phi", g, 1, 3), c.cell("rhs", g, ng, 3)
    ws = c.real("ws")
    c.call("computerhsthreephases", g.box, dx, fl, ng, ws, phi, 1, rhs, ng)

    def raw(i, m): return div_flux(c, fl, dx, i, dim, m) - ws * c.call("deriv_triple_well_func", phi.at(i, m), phi.at(i, (m + 1) % 3), phi.at(i, (m + 2) % 3))
    def r(i, m): return raw(i, m) - c.div(raw(i, 0) + raw(i, 1) + raw(i, 2), c.const(3))
    out(c, rhs, g.cells(), r)
    for i in g.cells(): c.eq(rhs.at(i, 0) + rhs.at(i, 1) + rhs.at(i, 2), 0, "sum of the right-hand sides %s" % (i,))
    same(c, dx, fl, phi)


@spec("C05", cfgs=[dict(n=1, ng=0), dict(n=2, ng=0), dict(n=3, ng=1)])
def rhs_multi_order(c, dim, n, ng):
    """div(flux_p) - m (phi_p^3 - phi_p + 2 gamma phi_p sum_{q /= p} phi_q^2): minus the derivative of the multi-well energy"""
    g = G(dim, "c")
    dx = c.vec("dx", dim, pos=True)
    fl = c.sides("flux", g, ng, n)
    phi, rhs, s2 = c.cell("phi", g, 1, n), c.cell("rhs", g, ng, n), c.cell("phi2sum", g, 0)
    ga, m_ = c.real("gamma"), c.real("m")
    c.call("computerhsmultiorder", g.box, n, dx, fl, ng, ga, m_, phi, 1, s2, rhs, ng)

    def r(i, p):
        x = phi.at(i, p)
        return div_flux(c, fl, dx, i, dim, p) - m_ * (x * x * x - x + 2 * ga * x * c.ssum(phi.at(i, k) * phi.at(i, k) for k in range(n) if k != p))
    out(c, rhs, g.cells(), r) if n > 1 else out(c, rhs, g.cells(), lambda i: r(i, 0))
    same(c, dx, fl, phi)


@spec("C05", cfgs=[dict(w="d", h="q", ng=0), dict(w="s", h="p", ng=1)])
def rhs_eta(c, dim, w, h, ng):
    g = G(dim)
    dx = c.vec("dx", dim, pos=True)
    fl = c.sides("flux", g, ng)
    phi, eta, T, rhs = c.cell("phi", g, 1), c.cell("eta", g, 1 + ng), c.cell("temp", g, ng), c.cell("rhs", g, ng)
    es = c.real("es")
    c.call("computerhseta", g.box, dx, fl, ng, T, ng, es, phi, 1, eta, 1 + ng, rhs, ng, w, h)
    out(c, rhs, g.cells(), lambda i: div_flux(c, fl, dx, i, dim) - es * interp(c, phi[i], h) * c.call("deriv_well_func", eta[i], w))
    same(c, dx, fl, phi, eta, T)


@spec("C05", cfgs=[dict(h="q", ng=1), dict(h="p", ng=0), dict(h="l", ng=0)])
def rhs_free_energy(c, dim, h, ng):
    """driving force h'(phi) (fl - fa)"""
    g = G(dim)
    fl, fa, phi, rhs = c.cell("fl", g, 0), c.cell("fa", g, 0), c.cell("phi", g, ng), c.cell("rhs", g, 1 - ng)
    c.call("phaserhs_fenergy", g.box, fl, fa, phi, ng, rhs, 1 - ng, h)
    out(c, rhs, g.cells(), lambda i: rhs.old(i) + dinterp(c, phi[i], h) * (fl[i] - fa[i]))
    same(c, fl, fa, phi)


@spec("C05", cfgs=[dict(n=2), dict(n=3), dict(n=4)])
def rhs_free_energy_multiorder(c, dim, n):
    """minus the derivative of h_s fa + h_l fl with h_s = sum_{p<n} phi_p^2 / sum phi^2, h_l = phi_n^2 / sum phi^2"""
    g = G(dim, "line")
    fl, fa, phi, rhs = c.cell("fl", g, 0), c.cell("fa", g, 0), c.cell("phi", g, 1, n), c.cell("rhs", g, 1, n)
    for i in g.cells(): c.assume(c.gt(norm2([phi.at(i, m) for m in range(n)]), c.const(0)))
    c.call("phaserhs_fenergy_multiorderp", g.box, fl, fa, phi, 1, n, rhs, 1, *(["p"] if c.nparams("phaserhs_fenergy_multiorderp") > 2 * dim + 7 else []))

    def r(i, m):
        P = [phi.at(i, k) for k in range(n)]
        s = norm2(P)
        d = 2 * P[m] * (c.div(P[n - 1] * P[n - 1], s * s) if m < n - 1 else c.div(norm2(P[:-1]), s * s))
        return rhs.old(i, m) + d * (fl[i] - fa[i]) * (1 if m < n - 1 else -1)
    out(c, rhs, g.cells(), r)
    for i in g.cells():
        P = [phi.at(i, k) for k in range(n)]
        c.eq(c.ssum(P[m] * (rhs.at(i, m) - rhs.old(i, m)) for m in range(n)), 0, "scaling all order parameters does no work %s" % (i,))
    same(c, fl, fa, phi)


@spec("C05", cfgs=[dict(hp="p", he="q", ng=1), dict(hp="q", he="p", ng=0)])
def rhs_eta_free_energy(c, dim, hp, he, ng):
    g = G(dim)
    fl, fa, fb = c.cell("fl", g, 0), c.cell("fa", g, 0), c.cell("fb", g, 0)
    phi, eta, rhs = c.cell("phi", g, ng), c.cell("eta", g, 1 - ng), c.cell("rhs", g, ng)
    c.call("etarhs_fenergy", g.box, fl, fa, fb, phi, ng, eta, 1 - ng, rhs, ng, hp, he)
    out(c, rhs, g.cells(), lambda i: rhs.old(i) + interp(c, phi[i], hp) * dinterp(c, eta[i], he) * (fa[i] - fb[i]))
    same(c, fl, fa, fb, phi, eta)


def near(c, got, want, scale, label):
    """equal up to the single-precision literals of the source"""
    c.prove(c.and_(c.le(got - want, scale * q(c, 1, 10 ** 6)), c.le(want - got, scale * q(c, 1, 10 ** 6))), label)


@spec("C05", cfgs=[dict(ng=0), dict(ng=1)])
def rhs_bias_well(c, dim, ng):
    """rhs += alpha/pi atan(gamma (te - T)) phi (1 - phi)"""
    g = G(dim)
    phi, T, te, rhs = c.cell("phi", g, 1), c.cell("temp", g, ng), c.cell("te", g, 1 - ng), c.cell("rhs", g, ng)
    al, ga = c.real("alpha"), c.real("gamma")
    c.call("computerhsbiaswell", g.box, phi, 1, T, ng, al, ga, te, 1 - ng, rhs, ng)
    for i in g.cells():
        u = al * c.fn("atan", ga * (te[i] - T[i])) * phi[i] * (1 - phi[i])
        near(c, rhs[i], rhs.old(i) + c.div(u, c.pi), c.abs(u), "rhs%s" % (i,))
    S = set(g.cells())
    c.unchanged(rhs, lambda i: tuple(i) not in S)
    same(c, phi, T, te)


@spec("C05", cfgs=[dict(ng=0), dict(ng=1)])
def rhs_bias_well_beckermann(c, dim, ng):
    g = G(dim)
    phi, T, te, rhs = c.cell("phi", g, 1), c.cell("temp", g, ng), c.cell("te", g, 1 - ng), c.cell("rhs", g, ng)
    al = c.real("alpha")
    c.call("computerhsbiaswellbeckermann", g.box, phi, 1, T, ng, al, te, 1 - ng, rhs, ng)
    out(c, rhs, g.cells(), lambda i: rhs.old(i) + al * (te[i] - T[i]) * phi[i] * (1 - phi[i]))
    same(c, phi, T, te)


@spec("C05", cfgs=[dict(h="q", ng=0), dict(h="p", ng=1)])
def rhs_delta_temperature(c, dim, h, ng):
    """rhs += L/tm (tm - <T>) h'(phi), <T> weighting the cell 3/4 and its neighbours 1/4 in total"""
    g = G(dim)
    phi, T, rhs = c.cell("phi", g, ng), c.cell("temp", g, 1), c.cell("rhs", g, 1 - ng)
    tm_, L = c.real("tm", pos=True), c.real("L")
    c.call("computerhsdeltatemperature", g.box, phi, ng, T, 1, tm_, L, rhs, 1 - ng, h)
    for i in g.cells():
        nb = [T[sh(i, a, k)] for a in range(dim) for k in (1, -1)]
        w = q(c, 3, 4) * T[i] + c.div(c.ssum(nb), c.const(8 * dim))
        d = dinterp(c, phi[i], h)
        u = c.div(L, tm_) * (tm_ - w) * d
        if dim == 2: c.eq(rhs[i], rhs.old(i) + u, "rhs%s" % (i,))
        else:
            f = c.div(L, tm_) * d
            c.eq(rhs[i] - rhs.old(i), f * tm_ - f * (q(c, 3, 4) * T[i] + WOFF(c) * c.ssum(nb)), "rhs%s" % (i,))
    S = set(g.cells())
    c.unchanged(rhs, lambda i: tuple(i) not in S)
    same(c, phi, T)


def WOFF(c):
    """1/24 as the 3d source writes it (single precision)"""
    import struct
    f = lambda x: struct.unpack("f", struct.pack("f", x))[0]
    return c.const(f(f(0.25) / f(6.)))


@spec("C05", cfgs=[dict(h="q", ng=0), dict(h="p", ng=1)])
def dphidt_delta_temperature(c, dim, h, ng):
    g = G(dim)
    phi, rhs = c.cell("phi", g, ng), c.cell("rhs", g, 1 - ng)
    tm_, L, mo = c.real("tm", pos=True), c.real("L"), c.real("mob")
    c.call("computedphidtemperaturedeltatemperature", g.box, phi, ng, tm_, L, mo, rhs, 1 - ng, h)
    out(c, rhs, g.cells(), lambda i: c.div(mo * L, tm_) * dinterp(c, phi[i], h))
    same(c, phi)


@spec("C05", cfgs=[dict(ng=1, ngr=0), dict(ng=2, ngr=1)])
def frame_velocity(c, dim, ng, ngr):
    g = G(dim)
    F, rhs, dx, v = c.cell("phase", g, ng), c.cell("rhs", g, ngr), c.vec("dx", dim, pos=True), c.real("vel")
    c.call("addvdphidx", g.box, dx, F, ng, v, rhs, ngr)
    out(c, rhs, g.cells(), lambda i: rhs.old(i) + c.div(v * (F[sh(i, 0)] - F[sh(i, 0, -1)]), 2 * dx[(0,)]))
    same(c, F, dx)


@spec("C05", cfgs=[dict(pb=0, sz="a"), dict(pb=1, sz="a"), dict(pb=0, sz="one"), dict(pb=1, sz="one"), dict(pb=2, sz="b")])
def frame_velocity_upwind3(c, dim, pb, sz):
    """third-order upwind; second-order centred in the last column at a physical boundary"""
    g = G(dim, sz)
    F, rhs, dx, v = c.cell("phase", g, 2), c.cell("rhs", g, 1), c.vec("dx", dim, pos=True), c.real("vel")
    c.call("addvdphidx_upwind3", g.box, dx, F, 2, v, rhs, 1, pb)

    def r(i):
        f = lambda k: F[sh(i, 0, k)]
        if pb == 1 and i[0] == g.hi[0]: return rhs.old(i) + c.div(v * (f(1) - f(-1)), 2 * dx[(0,)])
        return rhs.old(i) + c.div(v * (-2 * f(-1) - 3 * f(0) + 6 * f(1) - f(2)), 6 * dx[(0,)])
    out(c, rhs, g.cells(), r)
    same(c, F, dx)


@spec("C05", cfgs=[dict(n=1), dict(n=2), dict(n=3)])
def projection(c, dim, n):
    """phi + correction lies on the plane sum phi = 1, the error loses its component along (1,..,1)"""
    g = G(dim)
    phi, co, er = c.cell("phi", g, 1, n), c.cell("corr", g, 0, n), c.cell("err", g, 2, n)
    c.call("projectphi%dd" % dim, g.box, n, phi, 1, co, 0, er, 2)
    s = lambda i: c.div(c.ssum(phi.at(i, m) for m in range(n)) - 1, c.const(n))
    e = lambda i: c.div(c.ssum(er.old(i, m) for m in range(n)), c.const(n))
    out(c, co, g.cells(), (lambda i, m: -s(i)))
    out(c, er, g.cells(), (lambda i, m: er.old(i, m) - e(i)))
    for i in g.cells():
        c.eq(c.ssum(phi.at(i, m) + co.at(i, m) for m in range(n)), 1, "constraint %s" % (i,))
        c.eq(c.ssum(er.at(i, m) for m in range(n)), 0, "error in the plane %s" % (i,))
    same(c, phi)


@spec("C05", cfgs=[dict()])
def exact_solution(c, dim):
    """tanh profile used for the convergence test and its right-hand side"""
    g = G(dim, "line")
    ex, rhs = c.cell("exact", g, 1), c.cell("rhs", g, 0)
    dx, xl = c.vec("dx", dim, pos=True), c.vec("xlower", dim)
    m, de, om, ga = c.real("m"), c.real("delta", pos=True), c.real("omega"), c.real("gamma")
    c.call("phasesetexactandrhs%dd" % dim, g.box, ex, rhs, dx, xl, m, de, om, ga)
    th = lambda i: q(c, 1, 2) * (1 + c.fn("tanh", c.div(xl[(0,)] + dx[(0,)] * (i[0] - g.lo[0] + q(c, 1, 2)), 2 * de)))
    out(c, ex, g.cells(), th)

    def r(i):
        t, f = th(i), 32 * ga * m * om
        return -f * t * (1 - t) * (1 - 2 * t) + t + f * (1 + 6 * t * (t - 1)) * t
    out(c, rhs, g.cells(), r)
    same(c, dx, xl)


@spec("C05", cfgs=[dict(h="q", ng=0, ngc=0), dict(h="p", ng=1, ngc=2)], props=("C06",))
def concentration_from_phases(c, dim, h, ng, ngc):
    """c = (1 - h) cl + h cs"""
    g = G(dim)
    phi, cl, cs, co = c.cell("phi", g, ng), c.cell("cl", g, ngc), c.cell("cs", g, ngc), c.cell("c", g, 1)
    c.call("compute_concentration_from_phase_concentrations", g.box, phi, ng, cl, cs, ngc, co, 1, h)

    def r(i):
        x = interp(c, phi[i], h)
        return (1 - x) * cl[i] + x * cs[i]
    out(c, co, g.cells(), r)
    same(c, phi, cl, cs)
