"""C++: cycles of the FAC solver"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("faccycle", ["samrai/FACPreconditioner.cc"], "h_faccycle.cc")
cxx_spec("C24", U, "solve", dims=(2,), cfgs=[dict(max=3), dict(levels=3, relative=1, components=2), dict(levels=3, coarsest=1, pre=0, post=2, prepared=1, calls=2, max=1), dict(levels=1, relative=1, calls=2),
                                             dict(levels=3, pernice=1, pre=2), dict(pernice=1, prepared=1, ng=1, post=0, relative=1)],
         thorough=[dict(levels=4, max=2, relative=1), dict(max=5), dict(levels=3, max=3, components=3)])
