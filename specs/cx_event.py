"""C++: schedule of outputs and diagnostics"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("event", ["EventInterval.cc"], "h_event.cc", cap=3000)
cxx_spec("C22", U, "schedule", dims=(2,), cfgs=[dict(), dict(first=1, script=1), dict(how=1, first=1, script=2, step0=2), dict(how=2, alias=1, last=0, script=3), dict(how=3, first=1, step0=1), dict(off=1, first=1, script=1),
                                                 dict(time=1, n=2), dict(time=1, step0=1), dict(time=1, how=1, first=1, script=1), dict(time=1, how=2, alias=1, script=2), dict(time=1, how=3, first=1, last=0, script=3), dict(time=1, off=1, script=2)],
         thorough=[dict(n=4), dict(time=1, n=4, first=1)])
cxx_spec("C22", U, "refused", dims=(2,), cfgs=[dict()])
