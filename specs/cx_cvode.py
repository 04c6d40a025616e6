"""C++: interface to the time integrator"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("cvode", ["samrai/CVODESolver.cc", "samrai/CVODEAbstractFunctions.cc", "samrai/Sundials_SAMRAIVector.cc", "samrai/SundialsAbstractVector.cc"], "h_cvode.cc")
cxx_spec("C25", U, "vectors", dims=(2,), cfgs=[dict(op=k) for k in (0, 1, 2, 3, 7)] + [dict(op=k, components=1) for k in (4, 5, 6)] + [dict(op=0, levels=2, patches=2), dict(op=3, levels=2, patches=2), dict(op=7, levels=2)], thorough=[dict(op=k, levels=2, patches=2) for k in (1, 2, 5, 7)])
cxx_spec("C25", U, "integrator", dims=(2,), cfgs=[dict(), dict(full=1, pre=1, proj=1, jtimes=1, one=1), dict(pre=1, adams=1, change=1), dict(full=1, jtimes=1, change=1)])
