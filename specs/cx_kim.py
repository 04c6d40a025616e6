"""C++: mobilities of the order parameters"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("kim", ["KimMobilityStrategy.cc", "KimMobilityStrategyFiniteMob.cc", "KimMobilityStrategyFiniteMobAntiTrap.cc", "KimMobilityStrategyInfMob.cc", "KimMobilityStrategyInfMob3Phases.cc", "KKStools.cc",
                 "SimpleQuatMobilityStrategy.cc", "QuatMobilityStrategy.cc", "ThreeArgsInterpolationType.cc", "QuatModelParameters.cc"], "h_kim.cc")
cxx_spec("C21", U, "kim", cfgs=[dict(lo=1), dict(patches=1, ng=2, ngt=2, zeta=1, harm=1), dict(levels=2, patches=1, ngm=0), dict(kind=1, patches=1), dict(kind=1, lo=2, ngm=0, ng=2, nx=2), dict(kind=1, patches=1, nx=2, ny=2, ngm=0, zeta=1, newton=1),
                                dict(kind=2, patches=1, harm=1), dict(kind=3, lo=1), dict(kind=4, patches=1, ng=2), dict(kind=4, patches=1, zeta=1, levels=2), dict(kind=5, ngm=0), dict(kind=5, harm=1, patches=1, zeta=1), dict(kind=6, patches=1, ngt=2),
                                dict(kind=7, lo=1, ngm=0), dict(kind=7, patches=1, ng=2, ngt=2, newton=1), dict(kind=7, levels=2, patches=1, ngm=0)])
cxx_spec("C21", U, "scalar", cfgs=[dict()])
cxx_spec("C21", U, "temperature_mobility", cfgs=[dict(lo=1), dict(levels=2, patches=1, nx=2, ng=1)])
