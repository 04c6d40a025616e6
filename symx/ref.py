"""helpers shared by the specifications (dimension-generic reference models)"""
from fractions import Fraction as Q
from .harness import Grid, sh

SIZES = {"a": ((2, -1, 3), (2, 3, 2)), "one": ((0, 0, 0), (1, 1, 1)), "b": ((-3, 4, -1), (3, 2, 3)), "neg": ((-2, -3, -1), (2, 2, 1)),
         "c": ((1, 0, -2), (2, 2, 1)), "line": ((0, 1, 2), (1, 2, 1))}


def G(dim, which="a"):
    lo, n = SIZES[which]
    return Grid(lo[:dim], tuple(a + k - 1 for a, k in zip(lo[:dim], n[:dim])))


def sub2(g, k, lo=0):
    return g


def out(c, F, pts, fn, name=None, comps=None, rest=True):
    """F equals fn(i, m) at pts (components comps) and keeps its previous content everywhere else"""
    name = name or F.name
    pts = list(pts)
    comps = list(range(F.depth)) if comps is None else list(comps)
    for m in comps:
        for i in pts:
            c.eq(F.at(i, m), fn(i, m) if F.depth > 1 or fn.__code__.co_argcount > 1 else fn(i), "%s%s%s" % (name, tuple(i), ":%d" % m if F.depth > 1 else ""))
    if rest:
        S = set(tuple(i) for i in pts)
        c.unchanged(F, lambda i: tuple(i) not in S, "outside " + name)


def same(c, *Fs):
    """input arrays are not modified"""
    for F in Fs:
        if isinstance(F, (list, tuple)):
            same(c, *F)
        else:
            c.unchanged(F, None, "input")


def q(c, a, b=1):
    return c.const(Q(a, b))


def norm2(xs):
    s = 0
    for x in xs: s = s + x * x
    return s
