"""C++: linear systems handed to the level solvers"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("levelsolver", ["samrai/CellPoissonHypreSolver.cc", "samrai/PoissonSpecifications.cc", "QuatLevelSolver.cc"], "h_levelsolver.cc")
P = [dict(), dict(mvar=1), dict(cvar=1, dvar=1), dict(cvar=2, dvar=1, ngd=1), dict(cvar=1, mvar=1, dvar=1, patches=2, lo=1), dict(cvar=2, mvar=1), dict(homogeneous=0, nx=3), dict(homogeneous=0, cvar=1, dvar=1, zero=0), dict(depth=2, k=1, dvar=1), dict(smg=1, norm=1), dict(norm=1, lo=-2), dict(times=2, mvar=1, cvar=1),
     dict(level=1, dvar=1), dict(level=1, homogeneous=0, cvar=1), dict(level=1, mvar=1, cvar=1, lo=1)]
cxx_spec("C13", U, "poisson", cfgs=P)
cxx_spec("C13", U, "quaternion", cfgs=[dict(), dict(homogeneous=1, lo=1), dict(patches=2, depth=1), dict(solver=1), dict(norm=1), dict(solver=1, norm=1), dict(depth=4, ngf=1), dict(times=2, depth=1), dict(level=1, depth=1), dict(level=1, homogeneous=1, patches=2), dict(nx=3, lo=-1, depth=1)])
