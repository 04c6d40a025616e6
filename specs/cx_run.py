"""C++: run loop and restart"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("run", ["PFModel.cc", "EventInterval.cc"], "h_run.cc", cap=1500)
cxx_spec("C29", U, "loop", dims=(2,), cfgs=[dict(), dict(amr=0, visit=1, restart=0), dict(restart=-1, visit=0, most=2), dict(visit=-1, most=2), dict(grains=-1, most=2), dict(first=1, gfirst=1, last=0, visit=0), dict(vfirst=0, vlast=0, restart=1), dict(cycle=5, regrid=2, ic=1), dict(regrid=-1, vfirst=0, restart=3, verbose=2, most=2)])
cxx_spec("C29", U, "restart", dims=(2,), cfgs=[dict(), dict(amr=0, delta=3), dict(most=20, newend=1), dict(steps=21), dict(legacy=1), dict(legacy=1, delta=4), dict(missing=1)])
cxx_spec("C29", U, "input", dims=(2,), cfgs=[dict(), dict(start=1, most=4), dict(steps=6, amr=1), dict(delta=9, amr=2), dict(amr=3), dict(noend=1)])
cxx_spec("C29", U, "levels", dims=(2,), cfgs=[dict(max=1), dict(max=2), dict(max=3, levels=2), dict(max=3), dict(max=4, levels=4)])
cxx_spec("C29", U, "resume", dims=(2,), cfgs=[dict(), dict(amr=1, restart=1, visit=3), dict(restart=-1, most=2), dict(restart=1, visit=-1, most=2), dict(restart=2, grains=-1, most=3)])
