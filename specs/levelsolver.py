"""matrices handed to the level solver and their boundary adjustment"""
from symx.runner import spec
from symx.ref import *


def bnd(F): return [x for p in zip(F.lb, F.ub) for x in p]


def ext(dim, k): return tuple((k >> (2 * a)) & 3 for a in range(dim))


@spec("C13", cfgs=[dict(sz="a", k=0), dict(sz="one", k=9), dict(sz="neg", k=38)])
def set_j_ij(c, dim, sz, k):
    """discrete operator: off-diagonals D/h^2, rows sum to zero"""
    g = G(dim, sz)
    fc = [c.field("fc%d" % a, g, ext(dim, k + a), a) for a in range(dim)]
    od = [c.field("od%d" % a, g, ext(dim, k * 3 + a), a) for a in range(dim)]
    dg, h = c.cell("diag", g, ext(dim, k + 5)), c.vec("h", dim, pos=True)
    c.call("set_j_ij%dd" % dim, g.box, [[f] + bnd(f) for f in fc], h, [dg] + bnd(dg), [[f] + bnd(f) for f in od])
    for a in range(dim): out(c, od[a], g.sides(a), lambda s: c.div(fc[a].at(s), h[(a,)] * h[(a,)]))
    out(c, dg, g.cells(), lambda i: -c.ssum(c.div(fc[a].at(i) + fc[a].at(sh(i, a)), h[(a,)] * h[(a,)]) for a in range(dim)))
    same(c, fc, h)


@spec("C13", cfgs=[dict(sym=s, sz=z, k=k) for s in (0, 1) for z, k in (("a", 0), ("one", 9), ("neg", 38), ("line", 5))])
def stencil(c, dim, sym, sz, k):
    """rows of I + gamma sqrt(M) J sqrt(M), in the solver's stencil order"""
    g = G(dim, sz)
    m = c.cell("sqrtm", g, tuple(1 + x for x in ext(dim, k)))
    dg = c.cell("diag", g, ext(dim, k + 5))
    od = [c.field("od%d" % a, g, ext(dim, k * 3 + a), a) for a in range(dim)]
    gam = c.real("gamma")
    w = dim + 1 if sym else 2 * dim + 1
    cells = [tuple(reversed(i)) for i in __import__("itertools").product(*[range(a, b + 1) for a, b in zip(reversed(g.lo), reversed(g.hi))])]
    v = c.vec("values", w * len(cells) + 2)
    c.call("set_%sstencil%dd" % ("symmetric_" if sym else "", dim), g.box, gam, [m] + bnd(m), [dg] + bnd(dg), [[f] + bnd(f) for f in od], v)
    for n, i in enumerate(cells):
        ref = [1 + gam * m[i] * m[i] * dg[i]]
        for a in range(dim):
            ref.append(gam * m[i] * od[a].at(i) * m[sh(i, a, -1)])
            if not sym: ref.append(gam * m[i] * od[a].at(sh(i, a)) * m[sh(i, a)])
        for j, r in enumerate(ref): c.eq(v[(n * w + j,)], r, "values%s:%d" % (i, j))
    c.unchanged(v, lambda i: i[0] >= w * len(cells), "past the matrix")
    same(c, m, dg, od)


@spec("C13", cfgs=[dict(sz="a")])
def symmetric_matrix(c, dim, sz):
    """the row of a cell and the row of its neighbour give the same entry to the pair: what the symmetric storage relies on"""
    g = G(dim, sz)
    m, dg = c.cell("sqrtm", g, 1), c.cell("diag", g, 0)
    od = c.sides("od", g, 0)
    gam, w = c.real("gamma"), 2 * dim + 1
    cells = [tuple(reversed(i)) for i in __import__("itertools").product(*[range(a, b + 1) for a, b in zip(reversed(g.lo), reversed(g.hi))])]
    v, s = c.vec("values", w * len(cells)), c.vec("symvalues", (dim + 1) * len(cells))
    args = [g.box, gam, [m] + bnd(m), [dg] + bnd(dg), [[f] + bnd(f) for f in od]]
    c.call("set_stencil%dd" % dim, args, v)
    c.call("set_symmetric_stencil%dd" % dim, args, s)
    pos = {i: n for n, i in enumerate(cells)}
    for i in cells:
        c.eq(v[(pos[i] * w,)], s[(pos[i] * (dim + 1),)], "diagonal%s" % (i,))
        for a in range(dim):
            c.eq(v[(pos[i] * w + 1 + 2 * a,)], s[(pos[i] * (dim + 1) + 1 + a,)], "stored half%s:%d" % (i, a))
            j = sh(i, a)
            if j in pos: c.eq(v[(pos[i] * w + 2 + 2 * a,)], v[(pos[j] * w + 1 + 2 * a,)], "symmetry%s:%d" % (i, a))


@spec("C13", cfgs=[dict(sz="a", k=0), dict(sz="one", k=9), dict(sz="b", k=22)])
def copy(c, dim, sz, k):
    g = G(dim, sz)
    s, d = c.cell("src", g, ext(dim, k)), c.cell("dst", g, ext(dim, k + 7))
    c.call("copy%dd" % dim, g.box, [s] + bnd(s), [d] + bnd(d))
    out(c, d, g.cells(), lambda i: s[i])
    same(c, s)


def boxes(c, g, loc):
    a, up = loc // 2, loc % 2
    bl, bu = list(g.lo), list(g.hi)
    bl[a] = bu[a] = g.hi[a] + 1 if up else g.lo[a] - 1
    face = g.hi[a] + 1 if up else g.lo[a]
    return a, up, [s for s in g.sides(a) if s[a] == face], c.ivec("bl%d" % loc, bl), c.ivec("bu%d" % loc, bu)


def faces(c, name, g, a, pts, k=0):
    """field on the sides pts (one plane), a little larger in the other directions"""
    lo, hi = list(g.lo), list(g.hi)
    lo[a] = hi[a] = pts[0][a]
    return c.cell(name, Grid(lo, hi), tuple(0 if b == a else k for b in range(g.dim)))


@spec("C13", cfgs=[dict(sz="a", k=0), dict(sz="one", k=1), dict(sz="neg", k=1)])
def boundary_adjustment(c, dim, sz, k):
    """eliminating the ghost value with the Robin condition a u + (1-a) du/dn = g: diagonal, boundary coefficient, off-diagonal"""
    g = G(dim, sz)
    for loc in range(2 * dim):
        a, up, pts, bl, bu = boxes(c, g, loc)
        T = "_%d" % loc
        gam, m = c.real("gamma"), c.cell("sqrtm", g, 1 + k)
        dg = c.cell("diag" + T, g, 0)
        od = [c.field("od%d" % b + T, g, 0, b) for b in range(dim)]
        ac, bc, au = (faces(c, n + T, g, a, pts, k) for n in ("acoef", "bcoef", "auk0"))
        h = c.vec("h", dim, pos=True)
        c.call("adjust_bdry%dd" % dim, gam, [m] + bnd(m), dg, od, bnd(dg), ac, bc, bnd(ac), [au] + bnd(au), bl, bu, loc, h)

        def den(s): return 1 - ac[s] * (1 - h[(a,)] / 2)

        def inn(s): return sh(s, a, -1) if up else s

        def gho(s): return s if up else sh(s, a, -1)
        side = {inn(s): s for s in pts}
        out(c, dg, sorted(side), lambda i: dg.old(i) + c.div((1 - ac[side[i]] * (1 + h[(a,)] / 2)) * od[a].old(side[i]), den(side[i])))
        out(c, au, pts, lambda s: c.div(h[(a,)] * od[a].old(s) * m[gho(s)] * gam * m[inn(s)], den(s)))
        out(c, od[a], pts, lambda s: c.const(0))
        same(c, ac, bc, m, h, [od[b] for b in range(dim) if b != a])


@spec("C13", cfgs=[dict(sz="c")])
def boundary_elimination(c, dim, sz):
    """the adjusted row plus the boundary term equals the original row with the ghost value the Robin condition gives
    (mobility continued evenly across the boundary)"""
    g = G(dim, sz)
    w = 2 * dim + 1
    cells = [tuple(reversed(i)) for i in __import__("itertools").product(*[range(a, b + 1) for a, b in zip(reversed(g.lo), reversed(g.hi))])]
    for loc in range(2 * dim):
        a, up, pts, bl, bu = boxes(c, g, loc)
        T = "_%d" % loc
        gam = c.real("gamma")
        m = c.cell("sqrtm" + T, g, 1, init=lambda i, mm: c.real("sm[%s]" % ",".join(str(min(max(x, l), u)) for x, l, u in zip(i, g.lo, g.hi)), pos=True))
        dg, od = c.cell("diag" + T, g, 0), [c.field("od%d" % b + T, g, 0, b) for b in range(dim)]
        u, h = c.cell("u", g, 1), c.vec("h", dim, pos=True)
        ac, bc, au, gc = (faces(c, n + T, g, a, pts) for n in ("acoef", "bcoef", "auk0", "gcoef"))
        v0, v1 = c.vec("v0" + T, w * len(cells)), c.vec("v1" + T, w * len(cells))
        args = [g.box, gam, [m] + bnd(m), [dg] + bnd(dg), [[f] + bnd(f) for f in od]]
        c.call("set_stencil%dd" % dim, args, v0)
        c.call("adjust_bdry%dd" % dim, gam, [m] + bnd(m), dg, od, bnd(dg), ac, bc, bnd(ac), [au] + bnd(au), bl, bu, loc, h)
        c.call("set_stencil%dd" % dim, args, v1)
        rhs = c.cell("rhs" + T, g, 0)
        c.call("adjust_qrhs%dd" % dim, [rhs] + bnd(rhs), [au] + bnd(au), [gc] + bnd(gc), bl, bu, loc)
        for s in pts:
            i, o = (sh(s, a, -1), s) if up else (s, sh(s, a, -1))
            hh, A = h[(a,)], ac[s]
            den = 1 - A * (1 - hh / 2)
            n = cells.index(i)
            c0 = v0[(n * w + 2 + 2 * a if up else n * w + 1 + 2 * a,)]
            uo = c.div(gc[s] * hh + (1 - A * (1 + hh / 2)) * u[i], den)
            c.eq(c.select(0, [v0[(n * w,)]]) * u[i] + c0 * uo + rhs[i], v1[(n * w,)] * u[i] + v1[(n * w + 2 + 2 * a if up else n * w + 1 + 2 * a,)] * u[o]
                 + rhs.old(i), "row of cell%s at boundary %d" % (i, loc))


@spec("C13", cfgs=[dict(sz="a", k=0), dict(sz="one", k=1), dict(sz="neg", k=2)])
def boundary_right_hand_side(c, dim, sz, k):
    """rhs -= auk0 * g in the cells along the boundary"""
    g = G(dim, sz)
    for loc in range(2 * dim):
        a, up, pts, bl, bu = boxes(c, g, loc)
        T = "_%d" % loc
        r = c.cell("rhs" + T, g, ext(dim, k * 5))
        au, gc = faces(c, "auk0" + T, g, a, pts, k), faces(c, "gcoef" + T, g, a, pts, 1)
        c.call("adjust_qrhs%dd" % dim, [r] + bnd(r), [au] + bnd(au), [gc] + bnd(gc), bl, bu, loc)
        side = {sh(s, a, -1) if up else s: s for s in pts}
        out(c, r, sorted(side), lambda i: r.old(i) - au[side[i]] * gc[side[i]])
        same(c, au, gc)


@spec("C13", cfgs=[dict(sz="a", ng=1, ngm=1), dict(sz="one", ng=0, ngm=2), dict(sz="neg", ng=0, ngm=1)])
def multiply_offdiagonals(c, dim, sz, ng, ngm):
    """off-diagonal entry between two cells times sqrt(m) of both"""
    g = G(dim, sz)
    od, m = c.sides("od", g, ng), c.cell("sqrtm", g, ngm)
    c.call("multiplyoffdiagbym", g.box, od, ng, m, ngm)
    for a in range(dim): out(c, od[a], g.sides(a), lambda s: od[a].old(s) * m[s] * m[sh(s, a, -1)])
    same(c, m)


@spec("C13", cfgs=[dict(sz="a"), dict(sz="neg")])
def exact_solution_of_poisson_problem(c, dim, sz):
    """exact = 1 + prod sin(pi x), rhs = 5 exact + dim pi^2 prod sin(pi x): rhs is (5 - laplacian) exact"""
    g = G(dim, sz)
    ex, rhs, dx, xl = c.cell("exact", g, 1), c.cell("rhs", g, 0), c.vec("dx", dim, pos=True), c.vec("xlo", dim)
    c.call("setexactandrhs%dd" % dim, g.box, ex, rhs, dx, xl)
    pi = q(c, 31415927410125732, 10**16)          # pi in single precision

    def ss(i):
        p = 1
        for a in range(dim): p = p * c.fn("sin", pi * (xl[(a,)] + dx[(a,)] * (q(c, 2 * (i[a] - g.lo[a]) + 1, 2))))
        return p
    out(c, ex, g.cells(), lambda i: 1 + ss(i))
    out(c, rhs, g.cells(), lambda i: 5 * (1 + ss(i)) + dim * pi * pi * ss(i))
    same(c, dx, xl)
