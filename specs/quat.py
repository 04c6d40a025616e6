"""quaternion algebra and symmetry operations (quat.f)"""
from symx.runner import spec
from symx.ref import *
from symx.harness import Grid


def mul4(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def mul2(a, b):
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def mul(a, b): return mul4(a, b) if len(a) == 4 else mul2(a, b)
def vals(F): return [F[(k,)] for k in range(F.size)]
def S(n): return "4" if n == 4 else "2"


def mat(c, name, *tail, **k):
    return c.field(name, Grid((1, 1) + (1,) * len(tail), (3, 3) + tail), **k)


D1 = dict(dims=(2,))


@spec("C09", dims=(2,), cfgs=[dict(n=4), dict(n=2)])
def product(c, dim, n):
    a, b = c.vec("a", n), c.vec("b", n)
    r = c.vec("r", n, init=None)
    c.call("quatmult" + S(n), a, b, r)
    w = mul(vals(a), vals(b))
    for k in range(n): c.eq(r[(k,)], w[k], "product %d" % k)
    # |ab|^2 = |a|^2 |b|^2
    m = c.ref("m")
    c.call("quatmagsq" + S(n), r, m)
    c.eq(m.value, norm2(vals(a)) * norm2(vals(b)), "norm of product")
    same(c, a, b)


@spec("C09", dims=(2,), cfgs=[dict(n=4), dict(n=2)])
def conjugate_inverts(c, dim, n):
    a = c.vec("a", n)
    b, r = c.vec("b", n, init=None), c.vec("r", n, init=None)
    c.call("quatconj" + ("" if n == 4 else "2"), a, b)
    for k in range(n): c.eq(b[(k,)], a[(k,)] if k == 0 else -a[(k,)], "conjugate %d" % k)
    c.call("quatmult" + S(n), a, b, r)
    for k in range(n): c.eq(r[(k,)], norm2(vals(a)) if k == 0 else c.const(0), "a conj(a) %d" % k)
    c.call("quatmult" + S(n), b, a, r)
    for k in range(n): c.eq(r[(k,)], norm2(vals(a)) if k == 0 else c.const(0), "conj(a) a %d" % k)
    same(c, a)


@spec("C09", dims=(2,), cfgs=[dict(n=4), dict(n=2)])
def associativity(c, dim, n):
    x = [c.vec(s, n) for s in "abc"]
    t1, t2, l, r = [c.vec(s, n, init=None) for s in ("t1", "t2", "l", "r")]
    f = "quatmult" + S(n)
    c.call(f, x[0], x[1], t1)
    c.call(f, t1, x[2], l)
    c.call(f, x[1], x[2], t2)
    c.call(f, x[0], t2, r)
    for k in range(n): c.eq(l[(k,)], r[(k,)], "associativity %d" % k)


@spec("C09", dims=(2,), cfgs=[dict(n=4), dict(n=2)])
def linear_ops(c, dim, n):
    sfx = "" if n == 4 else "2"
    a, b = c.vec("a", n), c.vec("b", n)
    s, d, cp = [c.vec(x, n, init=None) for x in ("s", "d", "cp")]
    A, B = vals(a), vals(b)
    c.call("quatadd" + sfx, a, b, s)
    c.call("quatsub" + S(n), a, b, d)
    c.call("quatcopy" + S(n), a, cp)
    for k in range(n):
        c.eq(s[(k,)], A[k] + B[k], "sum %d" % k)
        c.eq(d[(k,)], A[k] - B[k], "difference %d" % k)
        c.eq(cp[(k,)], A[k], "copy %d" % k)
    same(c, a, b)
    c.call("quatswap" + sfx, a, b)
    for k in range(n):
        c.eq(a[(k,)], B[k], "swap a %d" % k)
        c.eq(b[(k,)], A[k], "swap b %d" % k)


@spec("C09", dims=(2,), cfgs=[dict(n=4), dict(n=2)])
def normalisation(c, dim, n):
    """normalisation returns the unit vector of the same direction; the null vector stays null"""
    a = c.vec("a", n)
    A = vals(a)
    msq, m = c.ref("msq"), c.ref("m")
    c.call("quatmagsq" + S(n), a, msq)
    c.call("quatmagn" + S(n), a, m)
    c.eq(msq.value, norm2(A), "squared magnitude")
    c.eq(m.value, c.sqrt(norm2(A)), "magnitude")
    c.assume(c.gt(norm2(A), q(c, 1, 10 ** 20)))
    mi = c.ref("mi")
    c.call("quatmaginv" + S(n), a, mi)
    c.eq(mi.value, c.div(c.const(1), c.sqrt(norm2(A))), "inverse magnitude")
    same(c, a)
    c.call("quatnorm", a, n)
    for k in range(n): c.eq(a[(k,)], c.div(A[k], c.sqrt(norm2(A))), "unit vector %d" % k)
    if n == 4: 
        b = c.vec("b", 4, init=None)
        c.call("quatset", b, *A, )
    else:
        b = c.vec("b", 2, init=None)
        c.call("quatset2", b, *A)
    for k in range(n): c.eq(b[(k,)], c.div(A[k], c.sqrt(norm2(A))), "set %d" % k)


@spec("C09", dims=(2,))
def normalisation_null(c, dim):
    for n in (2, 4):
        z = c.vecof("z%d" % n, [c.const(0)] * n)
        c.call("quatnorm", z, n)
        for k in range(n): c.eq(z[(k,)], c.const(0), "null vector length %d" % n)
    a = c.vec("a", 1)
    A = a[(0,)]
    c.call("quatnorm", a, 1)
    c.eq(a[(0,)], A, "length 1 unchanged")


@spec("C09", dims=(2,))
def angle_wrap(c, dim):
    """quatnorm1 maps an angle to the representative in [-pi,pi], differing by a multiple of 2 pi"""
    a = c.real("a", -40, 40)
    r = c.ref("r", init=a)
    c.call("quatnorm1", r)
    c.prove(c.le(-c.pi, r.value), "lower end")
    c.prove(c.le(r.value, c.pi), "upper end")
    c.prove(c.or_(*[c.eqc(r.value - a, 2 * k * c.pi) for k in range(-7, 8)]), "same angle modulo 2 pi")


@spec("C09", dims=(2,))
def rotation_matrix(c, dim):
    """R(q) is |q|^2 times a rotation, acts as v -> q v conj(q), and R(ab) = R(a)R(b)"""
    a, b = c.vec("a", 4), c.vec("b", 4)
    A, B = vals(a), vals(b)
    ab = c.vec("ab", 4, init=None)
    c.call("quatmult4", a, b, ab)
    Ra, Rb, Rab = [mat(c, s, init=None) for s in ("Ra", "Rb", "Rab")]
    c.call("quatrotationmatrix", a, Ra)
    c.call("quatrotationmatrix", b, Rb)
    c.call("quatrotationmatrix", ab, Rab)
    same(c, a, b)
    n4 = norm2(A) * norm2(A)
    for i in (1, 2, 3):
        e = [c.const(0)] * 4
        e[i] = c.const(1)
        w = mul4(mul4(A, e), [A[0], -A[1], -A[2], -A[3]])
        for j in (1, 2, 3):
            c.eq(Ra[(j, i)], w[j], "R e_%d . e_%d" % (i, j))
            c.eq(c.ssum(Ra[(k, i)] * Ra[(k, j)] for k in (1, 2, 3)), n4 if i == j else c.const(0), "orthogonality %d%d" % (i, j))
            c.eq(Rab[(i, j)], c.ssum(Ra[(i, k)] * Rb[(k, j)] for k in (1, 2, 3)), "composition %d%d" % (i, j))


@spec("C09", dims=(2,), cfgs=[dict(n=4), dict(n=2)])
def rotation_matrix_derivative(c, dim, n):
    """the derivative tables are the exact derivatives of the rotation matrices"""
    f, g = ("quatrotationmatrix", "derivquatrotationmatrixdq") if n == 4 else ("complexrotationmatrix", "derivcomplexrotationmatrixdq")
    a = c.vec("a", n)
    A = vals(a)
    h = c.real("hh", pos=True)
    dR = mat(c, "dR", n, init=None)
    c.call(g, a, dR)
    for k in range(n):
        p = c.vecof("p%d" % k, [A[j] + (h if j == k else 0) for j in range(n)])
        m = c.vecof("m%d" % k, [A[j] - (h if j == k else 0) for j in range(n)])
        Rp, Rm = mat(c, "Rp%d" % k, init=None), mat(c, "Rm%d" % k, init=None)
        c.call(f, p, Rp)
        c.call(f, m, Rm)
        for i in (1, 2, 3):
            for j in (1, 2, 3):
                c.eq(2 * h * dR[(i, j, k + 1)], Rp[(i, j)] - Rm[(i, j)], "dR(%d,%d)/dq%d" % (i, j, k + 1))
    same(c, a)


@spec("C09", dims=(2,))
def complex_rotation_matrix(c, dim):
    a = c.vec("a", 2)
    R = mat(c, "R", init=None)
    c.call("complexrotationmatrix", a, R)
    x, y = vals(a)
    w = [[x, -y, 0], [y, x, 0], [0, 0, 1]]
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            c.eq(R[(i, j)], w[i - 1][j - 1] if not isinstance(w[i - 1][j - 1], int) else c.const(w[i - 1][j - 1]), "R(%d,%d)" % (i, j))
    same(c, a)


@spec("C09", dims=(2,), cfgs=[dict(t=t) for t in ((1, 1, 1, 1), (1, 2, 3, 1), (3, 3, 2, 1), (2, 1, 2, 1), (3, 2, 2, 3))])
def rotation_tensor(c, dim, t):
    R = mat(c, "R")
    r = c.call("rotationtensorijkl", *t, R)
    c.eq(r, c.ssum(R[(t[0], k)] * R[(t[1], k)] * R[(t[2], k)] * R[(t[3], k)] for k in (1, 2, 3)), "T%s" % (t,))
    same(c, R)


def unit(c, A):
    n = c.sqrt(norm2(A))
    return [c.div(x, n) for x in A]


@spec("C09", dims=(2,), cfgs=[dict(n=4), dict(n=2)])
def misorientation(c, dim, n):
    """squared chord distance of the two directions; with a rotation: q2' = q2 qr and its distance"""
    a, b, r = c.vec("a", n), c.vec("b", n), c.vec("rot", n)
    A, B, R = vals(a), vals(b), vals(r)
    d = c.ref("d")
    for v in (A, B, mul(B, R)): c.assume(c.gt(norm2(v), q(c, 1, 10 ** 20)))
    c.call("quatdiffsq" + S(n), a, b, d)
    u, v = unit(c, A), unit(c, B)
    c.eq(d.value, norm2([x - y for x, y in zip(u, v)]), "distance")
    same(c, a, b)
    p = c.vec("p", n, init=None)
    d2 = c.ref("d2")
    c.call("quatrotatediffsq" + S(n), a, b, r, p, d2)
    w = mul(B, R)
    for k in range(n): c.eq(p[(k,)], w[k], "rotated %d" % k)
    v = unit(c, w)
    c.eq(d2.value, norm2([x - y for x, y in zip(u, v)]), "distance after rotation")
    same(c, a, b, r)


@spec("C09", dims=(2,))
def misorientation1(c, dim):
    a, b, r = c.real("a"), c.real("b"), c.real("r")
    d, p = c.ref("d"), c.ref("p")
    c.call("quatdiffabs1", a, b, d)
    c.eq(d.value, c.abs(a - b), "angle difference")
    c.call("quatrotatediffabs1", a, b, r, p, d)
    c.eq(p.value, b + r, "rotated angle")
    c.eq(d.value, c.abs(b + r - a), "angle difference after rotation")


@spec("C09", dims=(2,))
def chord_to_angle(c, dim):
    d = c.real("d", 0, 2)
    t = c.ref("t")
    c.call("quatangl", d, t)
    c.eq(t.value, 4 * c.fn("asin", c.div(d, c.const(2))), "quaternion angle")
    c.call("quatangl2", d, t)
    c.eq(t.value, 2 * c.fn("asin", c.div(d, c.const(2))), "complex angle")


@spec("C09", dims=(2,), cfgs=[dict(ty="max"), dict(ty="tanh"), dict(ty="sqrt")])
def inverse_gradient_norm(c, dim, ty):
    g2 = c.real("g2", nonneg=True)
    fl = c.real("floor2", pos=True)
    mx = c.real("maxn", pos=True)
    r = c.call("eval_grad_normi", g2, ty, fl, mx)
    if ty == "max":
        c.eq(r, c.ite(c.gt(g2, fl), c.div(c.const(1), c.sqrt(g2)), mx), "floored inverse norm")
    elif ty == "sqrt":
        c.eq(r, c.div(c.const(1), c.sqrt(g2 + fl)), "regularised inverse norm")
    else:
        x2 = g2 * mx * mx
        big = c.gt(x2, q(c, 1, 100))
        c.prove(c.implies(big, c.gt(r, c.const(0))), "positive")
        gn = c.sqrt(g2)
        c.prove(c.implies(big, c.eqc(r * gn, c.fn("tanh", mx * gn))), "tanh form")
        c.prove(c.implies(c.not_(big), c.le(r, mx)), "bounded by the floor value")
        c.prove(c.implies(c.not_(big), c.eqc(r, mx * (1 - c.div(x2, c.const(3)) + c.div(2 * x2 * x2, c.const(15))))), "Taylor form")


# ------------------------------------------------------------------ symmetry operations
NROT = {1: 9, 2: 4, 4: 48}


def octahedral():
    import itertools
    E = []
    for k in range(4):
        for s in (1, -1):
            E.append([s if j == k else 0 for j in range(4)])
    for k, l in itertools.combinations(range(4), 2):
        for s, t in itertools.product((1, -1), repeat=2):
            E.append([s if j == k else t if j == l else 0 for j in range(4)])
    for s in itertools.product((1, -1), repeat=4): E.append(list(s))
    return E


def rotations(c, n, tag="r"):
    """the symmetry elements, obtained by rotating the identity"""
    R = []
    e = c.vecof(tag + "id", [c.const(1 if n > 1 and k == 0 else 0) for k in range(n)])
    for k in range(1, NROT[n] + 1):
        p = c.vec("%s%d" % (tag, k), n, init=None)
        c.call("quatsymmrotate", e, k, p, n)
        R.append(vals(p))
    return R


def rot(q, r): return mul(q, r) if len(q) > 1 else [q[0] + r[0]]


@spec("C10", dims=(2,), cfgs=[dict(n=4), dict(n=2), dict(n=1)])
def rotation_and_its_inverse(c, dim, n):
    """rotating by iq and then by -iq restores the orientation; rotations preserve the norm"""
    a = c.vec("a", n)
    A = vals(a)
    b, r = c.vec("b", n, init=None), c.vec("r", n, init=None)
    for k in range(1, NROT[n] + 1):
        c.call("quatsymmrotate", a, k, b, n)
        if n > 1: c.eq(norm2(vals(b)), norm2(A), "norm preserved by %d" % k)
        c.call("quatsymmrotate", b, -k, r, n)
        for j in range(n): c.eq(r[(j,)], A[j], "rotation %d undone by -%d, component %d" % (k, k, j))
        c.call("quatsymmrotate", a, -k, b, n)
        c.call("quatsymmrotate", b, k, r, n)
        for j in range(n): c.eq(r[(j,)], A[j], "rotation -%d undone by %d, component %d" % (k, k, j))
    same(c, a)


@spec("C10", dims=(2,), cfgs=[dict(n=4), dict(n=2), dict(n=1)])
def rotation_group(c, dim, n):
    """the symmetry elements are exactly the cubic group (quaternions), the quarter turns (complex numbers) or the multiples of pi/2 up to 2 pi"""
    R = rotations(c, n)
    if n == 4:
        W = []
        for e in octahedral():
            k = c.sqrt(c.const(sum(x * x for x in e)))
            W.append([c.div(c.const(x), k) for x in e])
    elif n == 2: W = [[c.const(x) for x in e] for e in ((1, 0), (0, 1), (-1, 0), (0, -1))]
    else: W = [[c.pi * k / 2] for k in range(-4, 5)]
    eqv = lambda x, y: c.and_(*[c.and_(c.le(u - v, q(c, 1, 10 ** 9)), c.le(v - u, q(c, 1, 10 ** 9))) for u, v in zip(x, y)])
    c.prove(len(R) == len(W), "count")
    for j, w in enumerate(W):
        c.prove(c.or_(*[eqv(r, w) for r in R]), "element %d present" % j)
    for j in range(n): c.eq(R[0][j], c.const(1 if j == 0 and n > 1 else 0), "element 1 is the identity, %d" % j)
    a = c.vec("a", n)
    p = c.vec("p", n, init=None)
    for k in range(1, NROT[n] + 1):
        c.call("quatsymmrotate", a, k, p, n)
        w = rot(vals(a), R[k - 1])
        for j in range(n): c.eq(p[(j,)], w[j], "rotation %d is multiplication by its element, %d" % (k, j))


def dist(c, u, A, B):
    if len(A) == 1: return c.abs(A[0] - B[0])
    v = unit(c, B)
    return norm2([x - y for x, y in zip(u, v)])


def direction(c, name, n, gen):
    """a unit vector (n > 1) given by free components and a sign for the last one; or a scaled one"""
    if n == 1: return c.vec(name, 1, lo=-6, hi=6)
    if gen:
        v = c.vec(name, n)
        c.assume(c.gt(norm2(vals(v)), q(c, 1, 10 ** 4)))
        return v
    x = c.real(name + "c", -1, 1)
    s = c.real(name + "s", -1, 1, sample=(-1., 1.))
    c.assume(c.or_(c.eqc(s, 1), c.eqc(s, -1)))
    return c.vecof(name, [x, c.ite(c.gt(s, c.const(0)), c.sqrt(1 - x * x), -c.sqrt(1 - x * x))])


@spec("C10", dims=(2,), cfgs=[dict(n=1, iq0=0), dict(n=1, iq0=1), dict(n=1, iq0=-4), dict(n=1, iq0=99), dict(n=2, iq0=0), dict(n=2, iq0=3), dict(n=2, iq0=-2)], cost=2)
def closest_equivalent(c, dim, n, iq0):
    """no symmetry element brings q2 closer to q1 than the returned one"""
    R = rotations(c, n)
    a = c.vecof("a", [c.const(1), c.const(0)]) if n == 2 else direction(c, "a", n, False)
    b = direction(c, "b", n, False)
    A, B = vals(a), vals(b)
    iq = c.ref("iq", init=iq0, integer=True)
    p = c.vec("p", n, init=None)
    c.call("quatfindsymm", a, b, iq, p, n)
    P = vals(p)
    tol = q(c, 1, 10 ** 8)
    for j in range(NROT[n]):
        X = rot(B, R[j])
        if n == 1:
            c.prove(c.le(c.abs(A[0] - P[0]), c.abs(A[0] - X[0]) + tol), "no closer element than the returned one: %d" % (j + 1))
        else:
            dot = lambda X: c.ssum(x * y for x, y in zip(A, X))
            c.prove(c.ge(dot(P) + tol, dot(X)), "no closer element than the returned one: %d" % (j + 1))


@spec("C10", dims=(2,), cfgs=[dict(n=1, iq0=0), dict(n=1, iq0=-7), dict(n=2, iq0=0), dict(n=2, iq0=3), dict(n=2, iq0=-2), dict(n=4, iq0=1), dict(n=4, iq0=-34), dict(n=4, iq0=50)], cost=3)
def returned_element(c, dim, n, iq0):
    """the returned orientation is q2 rotated by the returned element"""
    R = rotations(c, n)
    a, b = direction(c, "a", n, True), direction(c, "b", n, True)
    A, B = vals(a), vals(b)
    iq = c.ref("iq", init=iq0, integer=True)
    p = c.vec("p", n, init=None)
    c.call("quatfindsymm", a, b, iq, p, n)
    P = vals(p)
    k = iq.value
    ok = c.select(k, [c.const(0)] + [c.const(1)] * NROT[n])
    c.eq(ok, c.const(1), "index in range")
    W = [rot(B, r) for r in R]
    for m in range(n):
        c.eq(P[m], c.select(k, [c.const(0)] + [w[m] for w in W]), "component %d is that of q2 rotated by the returned element" % m)
    same(c, a, b)


class Distances:
    """distance of (q1, q2 r) as one real per symmetry element; the routine that computes it is decided by C09"""

    def __init__(self, c, n):
        self.c, self.n, self.tab = c, n, {}
        if c.sym:
            c.eng.intrinsics["quatrotatediffsq" + S(n)] = self.rotate
            c.eng.intrinsics["quatdiffsq" + S(n)] = self.plain

    def of(self, r):
        from symx import terms as tm
        k = tuple(x.id for x in r)
        if k not in self.tab: self.tab[k] = tm.var("distance%d" % len(self.tab))
        return self.tab[k]

    def cells(self, eng, st, p): return [eng.num(eng.load_cell(st, p.obj, p.off + j)) for j in range(self.n)]

    def plain(self, eng, args, st):
        eng.store_cell(st, args[2].obj, args[2].off, self.of([self.c.const(1 if j == 0 else 0) for j in range(self.n)]))
        return 0

    def rotate(self, eng, args, st):
        q2, r = self.cells(eng, st, args[1]), self.cells(eng, st, args[2])
        for j, x in enumerate(mul(q2, r)): eng.store_cell(st, args[3].obj, args[3].off + j, x)
        eng.store_cell(st, args[4].obj, args[4].off, self.of(r))
        return 0

    def __call__(self, A, B, r):
        if self.c.sym: return self.of(r)
        u = unit(self.c, A)
        return norm2([x - y for x, y in zip(u, unit(self.c, rot(B, r)))])


@spec("C10", dims=(2,), cfgs=[dict(n=2, iq0=0), dict(n=2, iq0=-2), dict(n=4, iq0=1), dict(n=4, iq0=-34)], cost=3)
def minimal_or_within_half_gap(c, dim, n, iq0):
    """the returned orientation is within half the smallest angle between symmetry elements of q1, or no element brings q2 closer"""
    R = rotations(c, n)
    dist = Distances(c, n)
    a, b = c.vec("a", n), c.vec("b", n)
    A, B = vals(a), vals(b)
    for v in (A, B): c.assume(c.gt(norm2(v), q(c, 1, 10 ** 4)))
    iq = c.ref("iq", init=iq0, integer=True)
    p = c.vec("p", n, init=None)
    c.call("quatfindsymm", a, b, iq, p, n)
    k = iq.value
    D = [dist(A, B, r) for r in R]
    import math
    thr = q(c, *(4 * math.sin(math.pi / (16 if n == 4 else 8)) ** 2).as_integer_ratio()) + q(c, 1, 10 ** 9)
    d = c.select(k, [c.const(9)] + D)
    for j in range(NROT[n]):
        c.prove(c.or_(c.le(d, thr), c.le(d, D[j])), "element %d not closer" % (j + 1))
