"""C++: operators of the elliptic solvers"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("facops", ["EllipticFACOps.cc", "PhaseFACOps.cc", "EtaFACOps.cc", "ConcFACOps.cc", "TemperatureFACOps.cc", "PhaseTemperatureFACOps.cc", "CartesianRobinBcHelperWithDepth.cc", "samrai/PoissonSpecifications.cc"], "h_facops.cc")
A = [dict(nx=2, ny=2, lo=1), dict(patches=2, dvar=1, mvar=1), dict(cvar=1, ngc=1, ngr=1, ngf=1, lo=-2), dict(cvar=2, dvar=1, ngd=1, nx=2), dict(cvar=1, dvar=1, mvar=1, depth=1, patches=2), dict(depth=2, dvar=1, nx=2), dict(depth=2, mvar=1, patches=2)]
cxx_spec("C12", U, "apply", cfgs=A + [dict(levels=2, nx=2), dict(levels=2, nx=2, ny=2, dvar=1), dict(levels=2, patches=2, mvar=1, cvar=1, lo=1), dict(levels=2, nx=2, depth=2, dvar=1)])
cxx_spec("C12", U, "residual", cfgs=A + [dict(homogeneous=1, nx=2), dict(levels=2, nx=2), dict(levels=2, patches=2, dvar=1, homogeneous=1)])
cxx_spec("C12", U, "smooth", cfgs=[dict(nx=2, ny=2, lo=1), dict(patches=2, dvar=1, mvar=1), dict(cvar=1, ngc=1, ngr=1, ngf=1, lo=-2), dict(cvar=2, dvar=1, ngd=1, nx=2), dict(cvar=1, dvar=1, mvar=1, patches=2), dict(cvar=2, nx=2), dict(depth=2, dvar=1), dict(sweeps=2, nx=2)])
cxx_spec("C12", U, "smooth", cfgs=[dict(levels=2, level=1), dict(levels=2, level=1, nx=2, dvar=1, mvar=1), dict(levels=2, level=1, nx=2, cvar=1, depth=2)])
cxx_spec("C12", U, "transfer", cfgs=[dict(levels=2, what=w, **o) for w in range(3) for o in (dict(nx=2), dict(patches=2, depth=2, lo=1), dict(nx=2, ny=2))])
cxx_spec("C12", U, "weights", cfgs=[dict(levels=2, nx=2), dict(levels=2, nx=2, ny=2, ngw=1), dict(nx=2, lo=1), dict(levels=2, patches=2, lo=-1)])
cxx_spec("C12", U, "coefficients", cfgs=[dict(kind=0, nx=2), dict(kind=0, levels=2, ngp=1), dict(kind=0, well=1, patches=2), dict(kind=1, nx=2), dict(kind=1, interp=1, ngp=1, levels=2), dict(kind=1, well=1), dict(kind=2, nx=2), dict(kind=2, depth=2, levels=2), dict(kind=3, nx=2), dict(kind=3, steady=1, levels=2, nx=2), dict(kind=4, nx=2), dict(kind=4, levels=2, ngp=1), dict(kind=4, well=1, patches=2)])
