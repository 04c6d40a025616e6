"""C++: solvers of the elliptic equations"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("elliptic", ["EllipticFACSolver.cc", "PhaseFACSolver.cc", "EtaFACSolver.cc", "ConcFACSolver.cc", "TemperatureFACSolver.cc", "SteadyStateTemperatureStrategy.cc", "EllipticFACOps.cc", "PhaseFACOps.cc", "EtaFACOps.cc",
                      "ConcFACOps.cc", "TemperatureFACOps.cc", "CartesianRobinBcHelperWithDepth.cc", "samrai/PoissonSpecifications.cc"], "h_elliptic.cc")
K = [dict(kind=k, own=k % 2) for k in range(4)]
cxx_spec("C24", U, "facsolver", dims=(2, 3), cfgs=K + [dict(kind=0, own=1, levels=2, full=0), dict(kind=2, levels=2), dict(kind=3, levels=2, full=0, converged=0)])
cxx_spec("C24", U, "steady", dims=(2, 3), cfgs=[dict(), dict(levels=2)])
