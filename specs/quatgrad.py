"""orientation differences, gradients and gradient norms; symmetry-aware variants"""
from symx.runner import spec
from symx.ref import *
from symx.harness import Grid
from specs.quat import rotations, rot, NROT, S


def gbox(g, n=0): return [y for a in range(g.dim) for y in (g.lo[a] - n, g.hi[a] + n)]


def dpts(g, d, grow=1):
    """sides in direction d of the patch, other directions grown"""
    import itertools
    return list(itertools.product(*[range(g.lo[a] - (0 if a == d else grow), g.hi[a] + 2 if a == d else g.hi[a] + 1 + grow) for a in range(g.dim)]))


DEPTHS = [dict(depth=1, ngq=2, ngd=1), dict(depth=2, ngq=2, ngd=2), dict(depth=4, ngq=3, ngd=1)]


@spec("C03", cfgs=DEPTHS)
def quatdiffs(c, dim, depth, ngq, ngd):
    g = G(dim)
    f = c.cell("q", g, ngq, depth)
    d = c.sides("diff", g, ngd, depth)
    c.call("quatdiffs", g.box, depth, f, ngq, d, ngd)
    for a in range(dim):
        out(c, d[a], dpts(g, a), lambda i, m: f.at(i, m) - f.at(sh(i, a, -1), m))
    same(c, f)


@spec("C03", cfgs=[dict(ngp=2, ngd=1), dict(ngp=3, ngd=2)])
def diffs(c, dim, ngp, ngd):
    g = G(dim)
    f = c.cell("q", g, ngp)
    d = c.sides("diff", g, ngd)
    c.call("diffs", g.box, f, ngp, d, ngd)
    for a in range(dim):
        out(c, d[a], dpts(g, a), lambda i: f[i] - f[sh(i, a, -1)])
    same(c, f)


@spec("C03", dims=(2,), cfgs=[dict(depth=1), dict(depth=4)])
def quatavg(c, dim, depth):
    g = G(dim)
    f, a = c.cell("q", g, 2, depth), c.cell("avg", g, 1, depth)
    c.call("quatavg", g.box, depth, f, gbox(g, 2), a, gbox(g, 1))
    out(c, a, g.cells(), lambda i, m: c.div(4 * f.at(i, m) + c.ssum(f.at(sh(i, d, s), m) for d in range(dim) for s in (1, -1)), c.const(4 + 2 * dim)))
    same(c, f)


@spec("C03", cfgs=[dict(depth=1, ngd=0, ngg=0), dict(depth=4, ngd=1, ngg=2)])
def quatgrad_cell(c, dim, depth, ngd, ngg):
    g = G(dim)
    d = c.sides("diff", g, ngd, depth)
    h = c.vec("h", dim, pos=True)
    gr = [c.cell("grad%d" % a, g, ngg, depth) for a in range(dim)]
    c.call("quatgrad_cell", g.box, depth, h, d, ngd, gr, ngg)
    for a in range(dim):
        out(c, gr[a], g.cells(), lambda i, m: c.div(d[a].at(i, m) + d[a].at(sh(i, a), m), 2 * h[(a,)]))
    same(c, d, h)


def gside(c, g, ngg, depth):
    return [[c.field("g%ds%d" % (a, s), g, ngg, side=s, depth=depth) for a in range(g.dim)] for s in range(g.dim)]


@spec("C03", cfgs=[dict(depth=1, ngd=1, ngg=0), dict(depth=4, ngd=1, ngg=1), dict(depth=2, ngd=2, ngg=0)])
def quatgrad_side(c, dim, depth, ngd, ngg):
    g = G(dim)
    d = c.sides("diff", g, ngd, depth)
    h = c.vec("h", dim, pos=True)
    gr = gside(c, g, ngg, depth)
    c.call("quatgrad_side", g.box, depth, h, d, ngd, [x for s in gr for x in s], ngg)
    for s in range(dim):
        for a in range(dim):
            def r(i, m):
                if a == s: return c.div(d[a].at(i, m), h[(a,)])
                j = sh(i, s, -1)
                return c.div(d[a].at(j, m) + d[a].at(sh(j, a), m) + d[a].at(i, m) + d[a].at(sh(i, a), m), 4 * h[(a,)])
            out(c, gr[s][a], g.sides(s), r)
    same(c, d, h)


@spec("C03", dims=(2,), cfgs=[dict(depth=1, ngd=1, ngg=0), dict(depth=4, ngd=1, ngg=1)])
def quatgrad_side_isotropic(c, dim, depth, ngd, ngg):
    g = G(dim)
    d = c.sides("diff", g, ngd, depth)
    h = c.vec("h", dim, pos=True)
    gr = gside(c, g, ngg, depth)
    c.call("quatgrad_side_isotropic", g.box, depth, h, d, ngd, [x for s in gr for x in s], ngg)
    for s in range(dim):
        for a in range(dim):
            def r(i, m):
                if a == s:
                    t = 1 - s
                    return c.div(d[s].at(sh(i, t, -1), m) + 10 * d[s].at(i, m) + d[s].at(sh(i, t), m), 12 * h[(s,)])
                j = sh(i, s, -1)
                return c.div(d[a].at(j, m) + d[a].at(sh(j, a), m) + d[a].at(i, m) + d[a].at(sh(i, a), m), 4 * h[(a,)])
            out(c, gr[s][a], g.sides(s), r)
    same(c, d, h)


def sumsq(c, gr, depth, i, comps): return c.ssum(gr.at(i, q + depth * d) * gr.at(i, q + depth * d) for q in range(depth) for d in comps)


@spec("C03", dims=(2,), cfgs=[dict(depth=1, ngg=0, ngm=0), dict(depth=4, ngg=1, ngm=1)])
def modulus_from_sides(c, dim, depth, ngg, ngm):
    g = G(dim)
    gr = c.sides("grad", g, ngg, depth * dim)
    mod = c.cell("mod", g, ngm)
    c.call("quatgrad_modulus_from_sides", g.box, depth, gr, ngg, mod, ngm)
    out(c, mod, g.cells(), lambda i: c.div(c.ssum(c.sqrt(sumsq(c, gr[a], depth, j, range(dim))) for a in range(dim) for j in (i, sh(i, a))), c.const(2 * dim)))
    same(c, gr)


@spec("C03", dims=(2,), cfgs=[dict(depth=1, ty="s"), dict(depth=2, ty="max", sz="one")], thorough=[dict(depth=2, ty="smooth", sz="one")])
def modulus_from_sides_harmonic(c, dim, depth, ty, sz="line"):
    g = G(dim, sz)
    gr = c.sides("grad", g, 1, depth * dim)
    mod = c.cell("mod", g, 2)
    fl = c.real("floor", pos=True)
    if ty[0] != "s":
        for a in range(dim):
            for i in g.sides(a): c.assume(c.gt(sumsq(c, gr[a], depth, i, range(dim)), c.const(0)))
    c.call("quatgrad_modulus_from_sides_harmonic", g.box, depth, gr, gbox(g, 1), mod, gbox(g, 2), ty, fl)
    beta = fl * fl if ty[0] == "s" else 0
    out(c, mod, g.cells(), lambda i: c.div(c.const(2 * dim), c.ssum(
        c.div(c.const(1), c.sqrt(sumsq(c, gr[a], depth, j, range(dim)) + beta)) for a in range(dim) for j in (i, sh(i, a)))))
    same(c, gr)


@spec("C03", cfgs=[dict(depth=1, ngg=0, ngm=0), dict(depth=4, ngg=1, ngm=1)])
def modulus_from_sides_compact(c, dim, depth, ngg, ngm):
    g = G(dim)
    gr = c.sides("grad", g, ngg, depth * dim)
    mod = c.cell("mod", g, ngm)
    c.call("quatgrad_modulus_from_sides_compact", g.box, depth, gr, ngg, mod, ngm)
    out(c, mod, g.cells(), lambda i: c.sqrt(c.div(c.ssum(sumsq(c, gr[a], depth, j, (a,)) for a in range(dim) for j in (i, sh(i, a))), c.const(2))))
    same(c, gr)


@spec("C03", cfgs=[dict(depth=1, ngg=0, ngm=0), dict(depth=4, ngg=1, ngm=1)])
def modulus_cell(c, dim, depth, ngg, ngm):
    g = G(dim)
    gr = [c.cell("grad%d" % a, g, ngg, depth) for a in range(dim)]
    mod = c.cell("mod", g, ngm)
    c.call("quatgrad_modulus", g.box, depth, gr, ngg, mod, ngm)
    out(c, mod, g.cells(), lambda i: c.sqrt(c.ssum(x.at(i, m) * x.at(i, m) for x in gr for m in range(depth))))
    same(c, gr)


# ------------------------------------------------------------------ symmetry-aware
class Rot:
    """the rotations stored on sides; pattern of indices fixed by cfg, all different locally"""

    def __init__(self, c, g, depth, ng=1, salt=0, name="iq"):
        n = NROT[depth]
        self.depth, self.c = depth, c
        self.iq = {}
        self.F = []
        for a in range(g.dim):
            def init(i, m, a=a):
                k = salt * 7 + 5 * a + sum(w * x for w, x in zip((3, 11, 17), i))
                return 1 + k % n
            self.iq[a] = init
            self.F.append(c.ifield("%s%d" % (name, a), g, ng, side=a, init=init))
        self.R = rotations(c, depth, name + "r")

    def fwd(self, v, a, i): return rot(v, self.R[self.iq[a](i, 0) - 1])

    def inv(self, v, a, i):
        r = self.R[self.iq[a](i, 0) - 1]
        return rot(v, [-x if k else x for k, x in enumerate(r)] if self.depth > 1 else [-r[0]])


def at(F, i): return [F.at(i, m) for m in range(F.depth)]
def add(*v): return [sum(x[1:], x[0]) for x in zip(*v)]


SY = [dict(depth=1), dict(depth=2), dict(depth=2, salt=1), dict(depth=4)]
SYT = [dict(depth=4, salt=k) for k in range(1, 7)] + [dict(depth=1, salt=1), dict(depth=2, salt=2)]


@spec("C11", cfgs=SY, thorough=SYT)
def quatdiffs_symm(c, dim, depth, salt=0):
    g = G(dim, "c")
    f = c.cell("q", g, 2, depth)
    d = c.sides("diff", g, 1, depth)
    R = Rot(c, g, depth, 1, salt)
    c.call("quatdiffs_symm", g.box, depth, f, 2, d, 1, R.F, 1)
    for a in range(dim):
        out(c, d[a], dpts(g, a), lambda i, m: f.at(i, m) - R.fwd(at(f, sh(i, a, -1)), a, i)[m])
    same(c, f, R.F)


@spec("C11", dims=(2,), cfgs=SY)
def quatdiffs_symm_new(c, dim, depth, salt=0):
    g = G(dim, "c")
    f = c.cell("q", g, 2, depth)
    d = c.sides("diff", g, 1, depth)
    R = Rot(c, g, depth, 1, salt)
    c.call("quatdiffs_symm_new", g.box, depth, f, 2, d, 1, R.F, 1)
    for a in range(dim):
        def r(i, m):
            j = sh(i, a, -1)
            lhs = f.at(i, m) - R.fwd(at(f, j), a, i)[m]
            rhs = R.fwd([x - y for x, y in zip(R.inv(at(f, i), a, i), at(f, j))], a, i)[m]
            return c.div(lhs + rhs, c.const(2))
        out(c, d[a], dpts(g, a), r)
    same(c, f, R.F)


@spec("C11", cfgs=SY, thorough=SYT)
def quatgrad_cell_symm(c, dim, depth, salt=0):
    g = G(dim, "c")
    d = c.sides("diff", g, 1, depth)
    h = c.vec("h", dim, pos=True)
    gr = [c.cell("grad%d" % a, g, 0, depth) for a in range(dim)]
    R = Rot(c, g, depth, 1, salt)
    c.call("quatgrad_cell_symm", g.box, depth, h, d, 1, gr, 0, R.F, 1)
    for a in range(dim):
        def r(i, m):
            up = at(d[a], sh(i, a))
            if depth > 1: up = R.inv(up, a, sh(i, a))
            return c.div(up[m] + d[a].at(i, m), 2 * h[(a,)])
        out(c, gr[a], g.cells(), r)
    same(c, d, h, R.F)


@spec("C11", cfgs=SY, thorough=SYT)
def quatgrad_side_symm(c, dim, depth, salt=0):
    g = G(dim, "c" if dim == 2 or depth < 4 else "line")
    d = c.sides("diff", g, 1, depth)
    h = c.vec("h", dim, pos=True)
    gr = gside(c, g, 0, depth)
    R = Rot(c, g, depth, 1, salt)
    c.call("quatgrad_side_symm", g.box, depth, h, d, 1, [x for s in gr for x in s], 0, R.F, 1)
    for s in range(dim):
        for a in range(dim):
            def r(i, m):
                if a == s: return c.div(d[a].at(i, m), h[(a,)])
                j = sh(i, s, -1)
                if depth == 1: return c.div(d[a].at(j, m) + d[a].at(sh(j, a), m) + d[a].at(i, m) + d[a].at(sh(i, a), m), 4 * h[(a,)])
                lo = R.fwd(add(at(d[a], j), R.inv(at(d[a], sh(j, a)), a, sh(j, a))), s, i)
                hi = add(at(d[a], i), R.inv(at(d[a], sh(i, a)), a, sh(i, a)))
                return c.div(lo[m] + hi[m], 4 * h[(a,)])
            out(c, gr[s][a], g.sides(s), r)
    same(c, d, h, R.F)


@spec("C11", dims=(2,), cfgs=SY, thorough=SYT)
def quatgrad_side_symm_isotropic(c, dim, depth, salt=0):
    g = G(dim, "c")
    d = c.sides("diff", g, 1, depth)
    h = c.vec("h", dim, pos=True)
    gr = gside(c, g, 0, depth)
    R = Rot(c, g, depth, 1, salt)
    c.call("quatgrad_side_symm_isotropic", g.box, depth, h, d, 1, [x for s in gr for x in s], 0, R.F, 1)
    for s in range(dim):
        for a in range(dim):
            def r(i, m):
                if a == s:
                    t = 1 - s
                    lo, hi = at(d[s], sh(i, t, -1)), at(d[s], sh(i, t))
                    if depth > 1: lo, hi = R.fwd(lo, t, i), R.inv(hi, t, sh(i, t))
                    return c.div(lo[m] + 10 * d[s].at(i, m) + hi[m], 12 * h[(s,)])
                j = sh(i, s, -1)
                if depth == 1: return c.div(d[a].at(j, m) + d[a].at(sh(j, a), m) + d[a].at(i, m) + d[a].at(sh(i, a), m), 4 * h[(a,)])
                lo = R.fwd(add(at(d[a], j), R.inv(at(d[a], sh(j, a)), a, sh(j, a))), s, i)
                hi = add(at(d[a], i), R.inv(at(d[a], sh(i, a)), a, sh(i, a)))
                return c.div(lo[m] + hi[m], 4 * h[(a,)])
            out(c, gr[s][a], g.sides(s), r)
    same(c, d, h, R.F)


@spec("C11", cfgs=[dict(depth=1), dict(depth=4)])
def smoothquat(c, dim, depth):
    g = G(dim)
    f, o = c.cell("q", g, 1, depth), c.cell("qout", g, 2, depth)
    d = c.sides("diff", g, 1, depth)
    ph = c.cell("phase", g, 1)
    t = c.real("threshold")
    c.call("smoothquat", g.box, depth, f, 1, o, 2, d, 1, ph, 1, t)
    fac = q(c, 1, 8 if dim == 2 else 6)
    out(c, o, g.cells(), lambda i, m: c.ite(c.lt(ph[i], t), f.at(i, m) + fac * c.ssum(d[a].at(sh(i, a), m) - d[a].at(i, m) for a in range(dim)), o.old(i, m)))
    same(c, f, d, ph)


@spec("C11", cfgs=[dict(depth=1), dict(depth=2), dict(depth=4)], thorough=SYT)
def correct_rhs_for_symmetry(c, dim, depth, salt=0):
    g = G(dim, "one" if depth == 4 else "line")
    ns, sy = c.sides("ns", g, 1, depth), c.sides("sy", g, 1, depth)
    R = Rot(c, g, depth, 1, salt)
    dx = c.vec("dx", dim, pos=True)
    rhs, f = c.cell("rhs", g, 0, depth), c.cell("q", g, 1, depth)
    fc = c.sides("coef", g, 0)
    mob = c.cell("mob", g, 1)
    for i in g.cells():
        if depth > 1: c.assume(c.gt(norm2(at(f, i)), c.const(0)))
    c.call("correctrhsquatforsymmetry", g.box, depth, dx, ns, sy, 1, rhs, 0, f, 1, fc, 0, mob, 1, R.F, 1)

    def tmp(i):
        t = [0] * depth
        for a in range(dim):
            j = sh(i, a)
            s1 = at(sy[a], j)
            if depth > 1: s1 = R.inv(s1, a, j)
            for m in range(depth):
                t[m] = t[m] + c.div(fc[a][j] * (ns[a].at(j, m) - s1[m]) - fc[a][i] * (ns[a].at(i, m) - sy[a].at(i, m)), dx[(a,)] * dx[(a,)])
        return t

    def r(i, m):
        t, u = tmp(i), at(f, i)
        if depth == 1: return rhs.old(i, m) + mob[i] * t[0]
        lam = c.div(c.ssum(x * y for x, y in zip(t, u)), norm2(u))
        return rhs.old(i, m) + mob[i] * (t[m] - lam * u[m])
    out(c, rhs, g.cells(), r)
    same(c, ns, sy, dx, f, fc, mob, R.F)


@spec("C11", cfgs=[dict(n=1), dict(n=2)])
def symmetry_rotation_on_sides(c, dim, n):
    """on every side: the rotation that brings the lower cell's orientation closest to the upper cell's, as found for that pair alone"""
    g = G(dim, "one")
    f = c.cell("q", g, 2, n)
    R = [c.ifield("rot%d" % a, g, 1, side=a, init=1) for a in range(dim)]
    if n == 2:
        for i in g.cells(2): c.assume(c.gt(norm2(at(f, i)), c.const(0)))
    c.call("quat_symm_rotation", g.box, f, 2, n, R, 1)
    for a in range(dim):
        S = set(dpts(g, a))
        for i in sorted(S):
            if sum(abs(x - l) for x, l in zip(i, g.lo)) > 1: continue
            q1, q2 = c.vecof("q1", at(f, i)), c.vecof("q2", at(f, sh(i, a, -1)))
            iq = c.ref("iq", 1, integer=True)
            c.call("quatfindsymm", q1, q2, iq, c.vec("q2p", n, init=None), n)
            c.eq(R[a][i], iq.value, "rotation %d%s" % (a, i))
        c.unchanged(R[a], lambda i: tuple(i) not in S)
    same(c, f)


@spec("C11", cfgs=[dict(n=1), dict(n=2)])
def fundamental(c, dim, n):
    """every orientation is replaced by its equivalent closest to the reference orientation, as found for that cell alone"""
    g = G(dim, "line")
    f = c.cell("q", g, 1, n)
    old = {i: [f.old(i, m) for m in range(n)] for i in g.cells()}
    if n == 2:
        for i in g.cells(): c.assume(c.gt(norm2(old[i]), c.const(0)))
    c.call("quat_fundamental", g.box, f, gbox(g, 1), n)
    for i in g.cells():
        q1, q2 = c.vecof("q1", [1 if n > 1 and k == 0 else 0 for k in range(n)]), c.vecof("q2", old[i])
        q2p = c.vec("q2p", n, init=None)
        c.call("quatfindsymm", q1, q2, c.ref("iq", 1, integer=True), q2p, n)
        for m in range(n): c.eq(f.at(i, m), q2p[(m,)], "orientation %s:%d" % (i, m))
    S = set(g.cells())
    c.unchanged(f, lambda i: tuple(i) not in S)
