"""coarsening and refinement of orientations between mesh levels"""
import itertools
from symx.runner import spec
from symx.ref import *


def lohi(lo, hi): return list(lo) + list(hi)


def normalised(c, v):
    if len(v) == 1: return list(v)
    n = c.sqrt(norm2(v))
    z = c.lt(n, q(c, 1, 10**15))
    return [c.ite(z, c.const(0), c.div(x, n)) for x in v]


def rot_args(c, g, dim):
    r = [c.ifield("iq%d" % a, g, 0, a, init=1) for a in range(dim)]
    return r, [x for p in zip(g.lo, g.hi) for x in p]


RT = {"2": (2, 2, 2), "23": (2, 3, 1), "4": (4, 2, 2), "3": (3, 1, 2), "1": (1, 1, 1)}


@spec("C14", cfgs=[dict(depth=d, sym=s, r=r, lo=lo) for d, s, r, lo in ((4, 0, "2", 1), (4, 1, "2", -1), (2, 0, "23", 0), (2, 1, "4", -2), (1, 0, "2", 1), (1, 1, "23", -1))],
      thorough=[dict(depth=4, sym=0, r="4", lo=0), dict(depth=2, sym=1, r="3", lo=-2)])
def coarsen_orientation(c, dim, depth, sym, r, lo):
    """coarse orientation = volume-weighted average of the fine ones it covers, normalised"""
    rt = RT[r][:dim]
    glo, n = (lo, lo + 1, lo)[:dim], (2, 1, 1)[:dim]
    g = Grid(glo, tuple(a + k - 1 for a, k in zip(glo, n)))
    gf = Grid(tuple(a * k for a, k in zip(g.lo, rt)), tuple((b + 1) * k - 1 for b, k in zip(g.hi, rt)))
    qf, qc = c.cell("qf", gf, 1, depth), c.cell("qc", g, 1, depth)
    dxf = c.vec("dxf", dim, pos=True)
    dxc = c.vecof("dxc", [dxf[(a,)] * rt[a] for a in range(dim)])
    iq, iqb = rot_args(c, gf, dim)
    c.call("quatcoarsen", lohi(g.lo, g.hi), lohi(qf.lb, qf.ub), lohi(qc.lb, qc.ub), c.ivec("ratio", list(rt)), dxf, dxc, qf, qc, depth, sym, iq, iqb)
    vol = 1
    for k in rt: vol *= k
    for i in g.cells():
        s = [c.ssum(qf.at(tuple(a * k + o for a, k, o in zip(i, rt, of)), m) for of in itertools.product(*[range(k) for k in rt])) / vol for m in range(depth)]
        v = normalised(c, s)
        for m in range(depth): c.eq(qc.at(i, m), v[m], "coarse%s:%d" % (i, m))
    S = set(g.cells())
    c.unchanged(qc, lambda i: tuple(i) not in S, "outside coarse box")
    same(c, qf, dxf)


@spec("C14", cfgs=[dict(depth=d, r=r, lo=lo) for d, r, lo in ((4, "2", 0), (4, "23", -3), (2, "2", -2), (1, "4", -1), (1, "1", 0), (2, "3", 1))],
      thorough=[dict(depth=4, r="4", lo=-5), dict(depth=4, r="3", lo=2)])
def refine_orientation(c, dim, depth, r, lo):
    """fine orientation = (bi/tri)linear interpolation between the coarse cell centres around the fine cell centre, normalised"""
    rt = RT[r][:dim]
    glo, n = (lo, lo + 1, lo - 1)[:dim], (3, 2, 2)[:dim]
    g = Grid(glo, tuple(a + k - 1 for a, k in zip(glo, n)))
    gc = Grid(tuple(a // k for a, k in zip(g.lo, rt)), tuple(b // k for b, k in zip(g.hi, rt)))
    qc, qf = c.cell("qc", gc, 1, depth), c.cell("qf", g, 1, depth)
    dx = [Q(3, 4), Q(1, 2), Q(5, 8)][:dim]
    dxc, dxf = c.vecof("dxc", [c.const(x * k) for x, k in zip(dx, rt)]), c.vecof("dxf", [c.const(x) for x in dx])
    iq, iqb = rot_args(c, gc, dim)
    c.call("quatlinrefine%dd" % dim, lohi(g.lo, g.hi), lohi(qc.lb, qc.ub), lohi(qf.lb, qf.ub), c.ivec("ratio", list(rt)), dxc, dxf, qc, qf, depth, iq, iqb)
    for i in g.cells():
        base, w = [], []
        for a in range(dim):
            x = Q(2 * i[a] + 1, 2 * rt[a]) - Q(1, 2)           # fine centre in units of coarse cells, relative to coarse centres
            b = x.numerator // x.denominator
            base.append(b), w.append(x - b)
        s = []
        for m in range(depth):
            t = 0
            for of in itertools.product((0, 1), repeat=dim):
                cw = Q(1)
                for a in range(dim): cw *= w[a] if of[a] else 1 - w[a]
                if cw: t = t + c.const(cw) * qc.at(tuple(b + o for b, o in zip(base, of)), m)
            s.append(t)
        v = normalised(c, s)
        for m in range(depth): c.eq(qf.at(i, m), v[m], "fine%s:%d" % (i, m))
    S = set(g.cells())
    c.unchanged(qf, lambda i: tuple(i) not in S, "outside fine box")
    same(c, qc)


@spec("C14", cfgs=[dict(depth=4, r="2"), dict(depth=2, r="23")])
def constant_orientation_survives(c, dim, depth, r):
    """a constant unit orientation is unchanged by refinement followed by coarsening"""
    rt = RT[r][:dim]
    gc = Grid((0,) * dim, (0,) * dim)
    gf = Grid((0,) * dim, tuple(k - 1 for k in rt))
    qq = [c.real("q%d" % m) for m in range(depth)]
    qc, qf = c.cell("qc", gc, 1, depth, init=lambda i, m: qq[m]), c.cell("qf", gf, 0, depth)
    c.assume(c.eqc(norm2(qq), 1))
    iq, iqb = rot_args(c, gc, dim)
    fq, fqb = rot_args(c, gf, dim)
    dxc, dxf = c.vecof("dxc", [c.const(k) for k in rt]), c.vecof("dxf", [c.const(1)] * dim)
    c.call("quatlinrefine%dd" % dim, lohi(gf.lo, gf.hi), lohi(qc.lb, qc.ub), lohi(qf.lb, qf.ub), c.ivec("ratio", list(rt)), dxc, dxf, qc, qf, depth, iq, iqb)
    if c.sym or abs(norm2(qq) - 1) < 1e-9:
        for i in gf.cells():
            for m in range(depth): c.eq(qf.at(i, m), qq[m], "fine%s:%d" % (i, m))
    c.call("quatcoarsen", lohi(gc.lo, gc.hi), lohi(qf.lb, qf.ub), lohi(qc.lb, qc.ub), c.ivec("ratio2", list(rt)), dxf, dxc, qf, qc, depth, 0, fq, fqb)
    for m in range(depth): c.eq(qc.at(gc.lo, m), qq[m], "coarse:%d" % m)
