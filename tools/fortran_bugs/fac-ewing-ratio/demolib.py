"""drives the Fortran kernels of /repo (current directory) from a demonstration"""
import ctypes, glob, itertools, math, os, subprocess, sys, tempfile

CT = tempfile.TemporaryDirectory()


def lib(dim, *units):
    """shared library of fortran/<dim>d/<unit>.m4 plus functions.f and quat.f, made from the sources in the current directory"""
    fd = os.path.abspath("source/fortran")
    objs = []
    for u in ["functions", "quat"] + list(units):
        src = CT.name + "/%s%d.f" % (u, dim)
        if os.path.exists("%s/%s.f" % (fd, u)):
            txt = open("%s/%s.f" % (fd, u)).read()
        else:
            txt = subprocess.run(["m4", "-DSAMRAI_FORTDIR=" + fd, "%s/%dd/%s.m4" % (fd, dim, u)], check=True, stdout=subprocess.PIPE, text=True).stdout
        open(src, "w").write(txt)
        o = src[:-2] + ".o"
        subprocess.run(["gfortran", "-c", "-O1", "-fPIC", "-I" + fd, "-o", o, src], check=True)
        objs.append(o)
    so = CT.name + "/lib%d%s.so" % (dim, "_".join(units))
    subprocess.run(["gfortran", "-shared", "-o", so] + objs, check=True)
    return ctypes.CDLL(so)


class A:
    """cell (side=None) or side field over a box with ghosts"""

    def __init__(self, lo, hi, ng=0, side=None, depth=1, f=0.):
        dim = len(lo)
        n = ng if isinstance(ng, (tuple, list)) else (ng,) * dim
        self.lo = [a - k for a, k in zip(lo, n)]
        self.sh = [b - a + 1 + 2 * k + (1 if side == d else 0) for d, (a, b, k) in enumerate(zip(lo, hi, n))]
        self.n1 = 1
        for s in self.sh: self.n1 *= s
        self.depth = depth
        self.a = (ctypes.c_double * (self.n1 * depth))()
        for m in range(depth):
            for i in self.idx(): self.a[self.off(i, m)] = f(i, m) if callable(f) else f

    def idx(self): return itertools.product(*[range(a, a + s) for a, s in zip(self.lo, self.sh)])

    def off(self, i, m=0):
        o, s = 0, 1
        for x, l, n in zip(i, self.lo, self.sh):
            assert 0 <= x - l < n
            o += (x - l) * s
            s *= n
        return o + m * self.n1

    def __getitem__(self, i): return self.a[self.off(i)]
    def get(self, i, m=0): return self.a[self.off(i, m)]


def cells(lo, hi): return list(itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]))


def sides(lo, hi, d): return list(itertools.product(*[range(a, b + 1 + (k == d)) for k, (a, b) in enumerate(zip(lo, hi))]))


def sh(i, d, k=1): return tuple(x + (k if a == d else 0) for a, x in enumerate(i))


def box(lo, hi): return [x for p in zip(lo, hi) for x in p]


def rnd(seed):
    def f(i, m=0):
        h = seed * 7919 + m * 104729
        for x in i: h = (h * 31 + x * 17 + 5) % 1000003
        return ((h * 48271) % 2147483647) / 2147483647.
    return f


def vec(*x): return (ctypes.c_double * len(x))(*x)


def ints(*x): return (ctypes.c_int * len(x))(*x)


def call(lib, name, *args):
    flat, strs = [], []

    def add(a):
        if isinstance(a, (list, tuple)):
            for x in a: add(x)
        elif isinstance(a, A): flat.append(a.a)
        elif isinstance(a, str):
            flat.append(ctypes.create_string_buffer(a.encode()))
            strs.append(ctypes.c_size_t(len(a)))
        elif isinstance(a, float): flat.append(ctypes.byref(ctypes.c_double(a)))
        elif isinstance(a, int): flat.append(ctypes.byref(ctypes.c_int(a)))
        else: flat.append(a)
    add(args)
    f = getattr(lib, name + "_")
    f.restype = ctypes.c_double
    return f(*(flat + strs))


def close(a, b, what, tol=1e-9):
    if not abs(a - b) <= tol * max(1., abs(a), abs(b)):
        print("MISMATCH %s: got %.12g, expected %.12g" % (what, a, b))
        sys.exit(1)
