"""diffusion coefficients of concentration and orientation"""
from symx.runner import spec
from symx.ref import *
from specs.flux import dphi
from specs.phase import dinterp, interp


def avg(c, F, s, a, t, m=0): return c.call("average_func", F.at(sh(s, a, -1), m), F.at(s, m), t)
def arrhenius(c, d, q0, R, T, s, a): return d * c.fn("exp", c.div(-2 * q0, R * (T[sh(s, a, -1)] + T[s])))
def reals(c, *n): return [c.real(x) for x in n]


CF = [dict(h="p", t="a", ng=1, ngd=0), dict(h="l", t="h", ng=2, ngd=1)]


@spec("C07", cfgs=CF)
def pfm_diffusion(c, dim, h, t, ng, ngd):
    """(1-h) D_l(T) + h D_s(T), Arrhenius in the mean temperature of the side"""
    g = G(dim)
    phi, T, D = c.cell("phi", g, ng), c.cell("T", g, 3 - ng, pos=True), c.sides("D", g, ngd)
    dl, ql, da, qa = reals(c, "dl", "ql", "da", "qa")
    R = c.real("R", pos=True)
    c.call("concentration_pfmdiffusion", g.box, phi, ng, D, ngd, T, 3 - ng, dl, ql, da, qa, R, h, t)
    for a in range(dim):
        def r(s):
            w = interp(c, avg(c, phi, s, a, t), h)
            return (1 - w) * arrhenius(c, dl, ql, R, T, s, a) + w * arrhenius(c, da, qa, R, T, s, a)
        out(c, D[a], g.sides(a), r)
    same(c, phi, T)


@spec("C07", cfgs=CF)
def pfm_diffusion_scalar(c, dim, h, t, ng, ngd):
    g = G(dim)
    phi, D = c.cell("phi", g, ng), c.sides("D", g, ngd)
    dl, da = reals(c, "dl", "da")
    c.call("concentration_pfmdiffusion_scalar", g.box, phi, ng, D, ngd, dl, da, h, t)
    for a in range(dim):
        def r(s):
            w = interp(c, avg(c, phi, s, a, t), h)
            return (1 - w) * dl + w * da
        out(c, D[a], g.sides(a), r)
    same(c, phi)


def hsum(c, F, s, a, t, h, lo=0, hi=None):
    """interpolated total of a group of order parameters at a side"""
    return interp(c, c.ssum(avg(c, F, s, a, t, m) for m in range(lo, F.depth if hi is None else hi)), h)


@spec("C07", cfgs=[dict(h="p", t="a", n=1, ng=1, ngd=0), dict(h="l", t="a", n=3, ng=2, ngd=1), dict(h="q", t="h", n=2, ng=1, ngd=0)])
def pfm_diffusion_scalar_2phases(c, dim, h, t, n, ng, ngd):
    g = G(dim, "line")
    L, A, D = c.cell("phiL", g, ng), c.cell("phiA", g, ng, n), c.sides("D", g, ngd)
    dl, da = reals(c, "dl", "da")
    c.call("concentration_pfmdiffusion_scalar_2phases", g.box, L, A, n, ng, D, ngd, dl, da, h, t)
    for a in range(dim): out(c, D[a], g.sides(a), lambda s: hsum(c, L, s, a, t, h) * dl + hsum(c, A, s, a, t, h) * da)
    same(c, L, A)


@spec("C07", dims=(2,), cfgs=CF)
def pfm_diffusion_three_phases(c, dim, h, t, ng, ngd):
    g = G(dim, "line")
    phi, T, D = c.cell("phi", g, ng, 3), c.cell("T", g, 3 - ng, pos=True), c.sides("D", g, ngd)
    K = reals(c, "dl", "ql", "da", "qa", "db", "qb")
    R = c.real("R", pos=True)
    c.call("concentration_pfmdiffusion_threephases", g.box, phi, ng, D, ngd, T, 3 - ng, *K, R, h, t)
    for a in range(dim): out(c, D[a], g.sides(a), lambda s: c.ssum(interp(c, avg(c, phi, s, a, t, m), h) * arrhenius(c, K[2 * m], K[2 * m + 1], R, T, s, a) for m in range(3)))
    same(c, phi, T)


def grown(g, a, n):
    """sides normal to a, the patch grown by n along the other directions"""
    import itertools
    r = [range(g.lo[b], g.hi[b] + 2) if b == a else range(g.lo[b] - n, g.hi[b] + 1 + n) for b in range(len(g.lo))]
    return list(itertools.product(*r))


@spec("C07", cfgs=CF + [dict(h="q", t="a", ng=1, ngd=1)])
def diffusion_of_temperature(c, dim, h, t, ng, ngd):
    """liquid and solid contributions kept apart, over the sides grown by the ghost width of the coefficient"""
    g = G(dim, "line")
    ngt = max(1, 3 - ng)
    phi, T, L, A = c.cell("phi", g, ng), c.cell("T", g, ngt, pos=True), c.sides("DL", g, ngd), c.sides("DA", g, ngd)
    dl, ql, da, qa = reals(c, "dl", "ql", "da", "qa")
    R = c.real("R", pos=True)
    c.call("concentration_pfmdiffusion_of_temperature", g.box, phi, ng, L, A, ngd, T, ngt, dl, ql, da, qa, R, h, t)
    for a in range(dim):
        w = lambda s: interp(c, avg(c, phi, s, a, t), h)
        out(c, L[a], grown(g, a, ngd), lambda s: (1 - w(s)) * arrhenius(c, dl, ql, R, T, s, a))
        out(c, A[a], grown(g, a, ngd), lambda s: w(s) * arrhenius(c, da, qa, R, T, s, a))
    same(c, phi, T)


@spec("C07", cfgs=[dict(h="p", t="a", n=2, ng=1, ngd=0), dict(h="l", t="a", n=3, ng=2, ngd=1), dict(h="q", t="h", n=3, ng=1, ngd=0)])
def diffusion_multi_phases(c, dim, h, t, n, ng, ngd):
    """the last order parameter is the liquid"""
    g = G(dim, "line")
    phi, T, L, A = c.cell("phi", g, ng, n), c.cell("T", g, 3 - ng, pos=True), c.sides("DL", g, ngd), c.sides("DA", g, ngd)
    dl, ql, da, qa = reals(c, "dl", "ql", "da", "qa")
    R = c.real("R", pos=True)
    c.call("concentration_pfmdiffusion_of_temperature_multiphases", g.box, phi, n, ng, L, A, ngd, T, 3 - ng, dl, ql, da, qa, R, h, t)
    for a in range(dim):
        out(c, L[a], g.sides(a), lambda s: hsum(c, phi, s, a, t, h, n - 1, n) * arrhenius(c, dl, ql, R, T, s, a), rest=False)
        out(c, A[a], g.sides(a), lambda s: hsum(c, phi, s, a, t, h, 0, n - 1) * arrhenius(c, da, qa, R, T, s, a), rest=False)
    same(c, phi, T)


N3 = [dict(h="p", t="a", na=1, nb=1, ng=1, ngd=0), dict(h="l", t="a", na=2, nb=2, ng=2, ngd=1), dict(h="q", t="h", na=1, nb=3, ng=1, ngd=0)]


@spec("C07", cfgs=N3)
def diffusion_three_phases(c, dim, h, t, na, nb, ng, ngd):
    g = G(dim, "line")
    P = [c.cell("phiL", g, ng), c.cell("phiA", g, ng, na), c.cell("phiB", g, ng, nb)]
    T = c.cell("T", g, 3 - ng, pos=True)
    D = [c.sides(x, g, ngd) for x in ("DL", "DA", "DB")]
    K = reals(c, "dl", "ql", "da", "qa", "db", "qb")
    R = c.real("R", pos=True)
    c.call("concentration_pfmdiffusion_of_temperature_threephases", g.box, P[0], 1, P[1], na, P[2], nb, ng, *D, ngd, T, 3 - ng, *K, R, h, t)
    for k in range(3):
        for a in range(dim): out(c, D[k][a], g.sides(a), lambda s: hsum(c, P[k], s, a, t, h) * arrhenius(c, K[2 * k], K[2 * k + 1], R, T, s, a))
    same(c, T, *P)


@spec("C07", cfgs=N3)
def diffusion_scalar_three_phases(c, dim, h, t, na, nb, ng, ngd):
    g = G(dim, "line")
    P = [c.cell("phiL", g, ng), c.cell("phiA", g, ng, na), c.cell("phiB", g, ng, nb)]
    D = c.sides("D", g, ngd)
    K = reals(c, "dl", "da", "db")
    c.call("concentration_pfmdiffusion_scalar_3phases", g.box, P[0], 1, P[1], na, P[2], nb, ng, D, ngd, *K, h, t)
    for a in range(dim): out(c, D[a], g.sides(a), lambda s: c.ssum(hsum(c, P[k], s, a, t, h) * K[k] for k in range(3)))
    same(c, *P)


@spec("C07", cfgs=CF)
def beckermann(c, dim, h, t, ng, ngd):
    """D_s + (D_l - D_s) (1-h) / (1 - h + k h)"""
    g = G(dim, "line")
    phi, k, D = c.cell("phi", g, ng), c.cell("k", g, ng - 1, pos=True), c.sides("D", g, ngd)
    dl, ds = reals(c, "dl", "ds")
    if t == "h":
        for i in g.cells(ng): c.assume(c.gt(phi[i], 0))
    W = {}
    c.call("concentrationdiffusion_beckermann", g.box, phi, ng, D, ngd, k, ng - 1, dl, ds, h, t) if ng > 1 else None
    if ng == 1:
        kk = c.cell("kk", g, 1, pos=True)
        c.call("concentrationdiffusion_beckermann", g.box, phi, ng, D, ngd, kk, 1, dl, ds, h, t)
        k = kk
    for a in range(dim):
        def r(s):
            w = interp(c, avg(c, phi, s, a, t), h)
            return ds + c.div((dl - ds) * (1 - w), 1 - w + k[s] * w)
        out(c, D[a], g.sides(a), r)
    same(c, phi, k)


@spec("C07", cfgs=[dict(three=1, ngd=0, only=(2,)), dict(three=0, ngd=1)])
def diffusion_coefficients(c, dim, three, ngd):
    """phase diffusivities at the side temperature"""
    g = G(dim)
    T = c.cell("T", g, 1, pos=True)
    n = 3 if dim == 2 else 2
    D = [c.sides(x, g, ngd) for x in ("DL", "DA", "DB")[:n]]
    K = reals(c, *("dl", "ql", "da", "qa", "db", "qb")[:2 * n])
    R = c.real("R", pos=True)
    c.call("concentration_diffcoeff_of_temperature", g.box, *D, ngd, T, 1, *K, R, *([three] if dim == 2 else []))
    for k in range(n):
        for a in range(dim):
            if k < 2 or three: out(c, D[k][a], g.sides(a), lambda s: arrhenius(c, K[2 * k], K[2 * k + 1], R, T, s, a))
            else: same(c, D[k][a])
    same(c, T)


def pair_diffusion(c, A, B, i, same_phase):
    """16 times (8 for same-phase pairs counted once) the product of squares of the excess over 1/100, normalised to 1 at equal fractions"""
    t = q(c, 1, 100)
    f = Q(1) / (Q(1, 2) - Q(1, 100))
    f4 = c.const(f ** 4)
    v = 0
    for p in range(A.depth):
        for r in range(p + 1 if same_phase else 0, B.depth):
            x, y = A.at(i, p), B.at(i, r)
            v = v + c.ite(c.and_(c.gt(x, t), c.gt(y, t)), (x - t) * (x - t) * (y - t) * (y - t), c.const(0))
    return f4 * v / 2


from fractions import Fraction as Q

NAB = [dict(na=1, nb=1, sp=0, ng=1, ngd=0), dict(na=2, nb=2, sp=1, ng=1, ngd=1), dict(na=1, nb=2, sp=0, ng=2, ngd=1)]


@spec("C07", cfgs=NAB)
def interface_diffusion_of_temperature(c, dim, na, nb, sp, ng, ngd):
    """every cell of the patch adds its pair contribution to all its sides"""
    g = G(dim, "one" if na * nb > 2 else "line")
    A, T = c.cell("phia", g, ng, na), c.cell("T", g, ng, pos=True)
    B = A if sp else c.cell("phib", g, ng, nb)
    DA = c.sides("DA", g, ngd)
    DB = DA if sp else c.sides("DB", g, ngd)
    d0, q0 = reals(c, "d0", "q0")
    R = c.real("R", pos=True)
    c.call("ab_diffusion_of_temperature", g.box, A, na, B, nb, ng, DA, DB, ngd, T, ng, d0, q0, R, sp)
    cells = set(map(tuple, g.cells()))
    w = lambda i: pair_diffusion(c, A, B, i, sp) * d0 * c.fn("exp", c.div(-q0, R * T[i]))
    for D in ([DA] if sp else [DA, DB]):
        for a in range(dim): out(c, D[a], g.sides(a), lambda s: D[a].old(s) + c.ssum(w(i) for i in (sh(s, a, -1), tuple(s)) if tuple(i) in cells))
    same(c, A, B, T)


@spec("C07", cfgs=[dict(ngd=0)])
def interface_diffusion_does_not_depend_on_patches(c, dim, ngd):
    """a side receives the contributions of both its cells wherever the patch boundary lies"""
    g = G(dim, "one")
    A, B, T = c.cell("phia", g, 1), c.cell("phib", g, 1), c.cell("T", g, 1, pos=True)
    DA, DB = c.sides("DA", g, ngd), c.sides("DB", g, ngd)
    d0, q0 = reals(c, "d0", "q0")
    R = c.real("R", pos=True)
    c.call("ab_diffusion_of_temperature", g.box, A, 1, B, 1, 1, DA, DB, ngd, T, 1, d0, q0, R, 0)
    w = lambda i: pair_diffusion(c, A, B, i, 0) * d0 * c.fn("exp", c.div(-q0, R * T[i]))
    for a in range(dim): out(c, DA[a], g.sides(a), lambda s: DA[a].old(s) + w(sh(s, a, -1)) + w(s), name="patch boundary side %d of DA" % a)


@spec("C07", cfgs=[dict(na=1, nb=1, sp=0, ng=1, ngd=1), dict(na=2, nb=2, sp=1, ng=1, ngd=1), dict(na=1, nb=2, sp=0, ng=2, ngd=2)])
def interface_diffusion(c, dim, na, nb, sp, ng, ngd):
    g = G(dim, "one" if dim == 3 or na * nb > 2 else "line")
    A = c.cell("phia", g, ng, na)
    B = A if sp else c.cell("phib", g, ng, nb)
    D = c.sides("D", g, ngd)
    d0 = c.real("d0")
    c.call("add_ab_diffusion", g.box, A, na, B, nb, ng, D, ngd, d0, sp)
    for a in range(dim): out(c, D[a], g.sides(a), lambda s: D[a].old(s) + d0 * (pair_diffusion(c, A, B, sh(s, a, -1), sp) + pair_diffusion(c, A, B, s, sp)), rest=False)
    same(c, A, B)


@spec("C07", cfgs=[dict(ng=1, ngd=1), dict(ng=2, ngd=2)])
def interface_diffusion_single(c, dim, ng, ngd):
    g = G(dim, "line")
    A, D, d0 = c.cell("phi", g, ng), c.sides("D", g, ngd), c.real("d0")
    c.call("add_ab_diffusion_single", g.box, A, ng, D, ngd, d0)
    w = lambda i: 8 * d0 * A[i] * A[i] * (1 - A[i]) * (1 - A[i])
    for a in range(dim): out(c, D[a], g.sides(a), lambda s: D[a].old(s) + w(sh(s, a, -1)) + w(s), rest=False)
    same(c, A)


@spec("C07", cfgs=[dict(depth=1, h="q", t="a", f="m", ng=1, ngd=0), dict(depth=2, h="p", t="h", f="t", ng=2, ngd=1), dict(depth=4, h="p", t="h", f="s", ng=1, ngd=0)], cost=2)
def orientation_diffusion_derivative(c, dim, depth, h, t, f, ng, ngd):
    """derivative of 2 H T p(phi)/|grad q| with respect to the phase of the two cells next to the side; 0 where either cell is liquid"""
    g = G(dim, "line" if dim == 2 or depth == 1 else "one")
    phi, T = c.cell("phi", g, ng), c.cell("T", g, 3 - ng)
    GQ, D = c.sides("gradq", g, ngd, depth * dim), c.sides("D", g, 1 - ngd, 2)
    mf, fl = c.real("misf"), c.real("floor", pos=True)
    th = q(c, 1, 10 ** 16)
    c.call("quatdiffusionderiv", g.box, mf, T, 3 - ng, phi, ng, depth, GQ, ngd, D, 1 - ngd, fl, f, h, t)
    for a in range(dim):
        def r(s, m):
            l, u = phi[sh(s, a, -1)], phi[s]
            x = avg(c, phi, s, a, t)
            n2 = norm2([GQ[a].at(s, k) for k in range(depth * dim)])
            gi = c.call("eval_grad_normi", n2, f, fl * fl, c.div(c.const(1), fl))
            v = mf * (T[sh(s, a, -1)] + T[s]) / 2 * dinterp(c, x, h) * gi * c.call("deriv_average_func", x, u if m else l, t)
            return c.ite(c.or_(c.lt(l, th), c.lt(u, th)), c.const(0), v)
        out(c, D[a], g.sides(a), r)
    same(c, phi, T, GQ)
