"""C++: three-phase tilting functions, pair weights, array operations"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("threephase", ["TiltingFolchPlapp2005.cc", "TiltingMoelans2011.cc", "computeWeights3Pairs.cc"], "h_threephase.cc")
for case in ("partition", "limits", "derivative"):
    cxx_spec("C15", U, case, dims=(2,), cfgs=[dict(moelans=0), dict(moelans=1)])
cxx_spec("C15", U, "weights", dims=(2,), cfgs=[dict(dominant=k) for k in range(4)], cost=5, budget=260)
cxx_spec("C15", U, "arrayops", dims=(2,))
