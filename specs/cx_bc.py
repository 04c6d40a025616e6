"""C++: boundary conditions"""
from symx.runner import cxx_spec
from symx.cxx import Unit, CXX

U = Unit("bc", ["QuatRefinePatchStrategy.cc", "PartitionCoeffRefinePatchStrategy.cc", "TimeLocationIndexRobinBcCoefs.cc", "CartesianRobinBcHelperWithDepth.cc"], "h_bc.cc", extra=("-include", CXX + "/inc/stod.h"))
cxx_spec("C31", U, "timed", cfgs=[dict(), dict(loc=1, rescale=1), dict(loc=3, len=2), dict(len=14, plain=1), dict(len=12, plain=1, loc=2, rescale=1)])
cxx_spec("C31", U, "patch", cfgs=[dict(lo=1), dict(patches=2, nx=2, qlen=4, rescale=1), dict(nx=2, ny=2, order=2, nc=2, lo=-1), dict(timed=1), dict(timed=1, rescale=1, patches=2, nx=2), dict(levels=2, qlen=1)] + [dict(**{"with": w}) for w in (1, 2, 4, 8, 16, 21)] + [dict(nobc=1, **{"with": 9})])
cxx_spec("C31", U, "partition", cfgs=[dict(), dict(patches=2, nx=2, lo=1)])
