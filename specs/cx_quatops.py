"""C++: evolution of the quaternions"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("quatops", ["QuatFACOps.cc", "QuatSysSolver.cc"], "h_quatops.cc")
cxx_spec("C30", U, "rhs", cfgs=[dict(qlen=4, lo=1), dict(qlen=2, patches=2, nx=2), dict(qlen=1, nx=2, ny=2, times=2), dict(qlen=4, fromgrad=1), dict(qlen=2, fromgrad=1, nx=2, ngr=1), dict(qlen=1, fromgrad=1, patches=2, nx=2, lo=-1)])
cxx_spec("C30", U, "rhs", dims=(2,), cfgs=[dict(qlen=4, symmetric=1, ngi=1, fromgrad=f, seed=s) for f in (0, 1) for s in (0, 7)] + [dict(qlen=2, symmetric=1, nx=2, ngi=0, seed=s) for s in (0, 1)])
cxx_spec("C30", U, "residual", cfgs=[dict(qlen=4, lo=1), dict(qlen=2, patches=2, nx=2, before=1), dict(qlen=1, nx=2, ny=2, homogeneous=0), dict(qlen=4, before2=1, ngr=1, ngf=1)])
cxx_spec("C30", U, "residual", dims=(2,), cfgs=[dict(qlen=4, symmetric=1, ngi=1), dict(qlen=2, symmetric=1, nx=2, ngi=0, seed=1)])
cxx_spec("C30", U, "solve", cfgs=[dict(qlen=4), dict(qlen=2, nx=2, own=0, ngf=1), dict(qlen=1, patches=2, nx=2, converged=0, ngc=1, ngr=1), dict(qlen=2, ngc=1), dict(qlen=4, ngr=1)])
