"""C++: right-hand sides of the order parameters on hierarchies"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("phaserhs", ["PhaseRHSStrategyWithQ.cc", "MultiOrderRHSStrategy.cc", "ThreePhasesRHSStrategy.cc", "SinteringUWangRHSStrategy.cc", "MovingFrameRHS.cc", "Noise.cc", "UniformNoise.cc", "NormalNoise.cc",
                      "PhaseFluxStrategySimple.cc", "PhaseFluxStrategyIsotropic.cc", "PhaseFluxStrategyAnisotropy.cc", "QuatModelParameters.cc", "ArrayOperation.cc"], "h_phaserhs.cc")
cxx_spec("C05", U, "with_orientation", cfgs=[dict(orient=0, ng=2, ngt=0, lo=2), dict(orient=1, itype=1, levels=2, visit=1, ngm=1, ngf=1), dict(orient=1, itype=2, drive=0, lo=-2),
                                             dict(orient=0, noise=1, visit=1, levels=2, only=(2,)), dict(orient=1, noise=1, again=1), dict(noise=1, fd=1)])
cxx_spec("C05", U, "multi_order", cfgs=[dict(n=2, lo=3), dict(n=3, levels=2, ngm=1, ngf=1, only=(2,)), dict(n=4, drive=0, patches=1, ng=2, lo=-2), dict(n=3, three=1, lo=2), dict(n=3, three=1, levels=2, ngm=1, ngf=1, only=(2,)),
                                        dict(n=2, levels=2, only=(3,)), dict(n=3, wang=1, lo=2), dict(n=2, wang=1, levels=2, ngm=1, ngf=1, ngc=0)])
cxx_spec("C05", U, "project", cfgs=[dict(n=2, lo=2), dict(n=3, ngc=1, nge=1), dict(n=3, three=1, ngc=1, lo=-2), dict(n=3, three=1, nge=1)], props=("C15",))
cxx_spec("C05", U, "moving_frame", cfgs=[dict(depth=1, lo=2), dict(depth=2, upwind=1, levels=2), dict(depth=3, upwind=1, ng=3, ngr=1, lo=-2), dict(depth=2, ngr=1, levels=2)])
cxx_spec("C05", U, "noise", cfgs=[dict(lo=2), dict(ng=2, ngn=1), dict(ng=1, ngn=1, normal=1, lo=-2), dict(ng=2, ngn=0, normal=1)])
cxx_spec("C04", U, "flux_factory", cfgs=[dict(n=1), dict(n=2), dict(n=3), dict(n=1, three=1), dict(n=1, iso=1, only=(2,)), dict(n=2, iso=1, only=(2,)), dict(n=1, orient=1, aniso=1), dict(n=2, orient=1, aniso=1), dict(n=1, aniso=1), dict(n=3, three=1, aniso=1, orient=1)])
