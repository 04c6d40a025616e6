"""C++: strategies setting the diffusion coefficients of composition and orientation; species mobilities"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("diffusion", ["ScalarCompositionDiffusionStrategy.cc", "TbasedCompositionDiffusionStrategy.cc", "WangSinteringCompositionDiffusionStrategy.cc", "MobilityCompositionDiffusionStrategy.cc",
                       "QuatFaceCoeff.cc", "DerivDiffusionCoeffForQuat.cc", "QuatModelParameters.cc"], "h_diffusion.cc")
cxx_spec("C07", U, "scalar", cfgs=[dict(nA=0, lo=2, ng=2, ternary=1), dict(nA=1, itype=1, levels=2, ngd=1, pairs=5), dict(nA=2, itype=1, harm=1, ngd=1, pairs=5, patches=1), dict(nA=2, nB=1, ngd=1, pairs=31, factory=1, patches=1),
                                   dict(nA=1, nB=2, ngd=1, pairs=26, patches=1), dict(three=1, ngd=1, pairs=31, factory=1, patches=1), dict(three=1, ngd=1, pairs=11, itype=1, ternary=1, patches=1), dict(nA=1, ngd=1, pairs=4, ng=2, patches=1)])
cxx_spec("C07", U, "tbased", cfgs=[dict(nA=0, lo=2, ng=2, ternary=1), dict(nA=1, itype=1, levels=2, pairs=5), dict(nA=2, itype=1, harm=1, pairs=5, patches=1), dict(nA=2, nB=1, pairs=31, factory=1, patches=1),
                                   dict(nA=1, nB=2, pairs=26, patches=1), dict(three=1, pairs=31, factory=1, patches=1), dict(three=1, pairs=11, itype=1, ternary=1, patches=1), dict(nA=1, pairs=4, ngd=0, ngt=2, patches=1)])
cxx_spec("C07", U, "wang", cfgs=[dict(nA=1, nB=0, pairs=5, ngd=1, ng=2, ngc=2, patches=1), dict(nA=2, pairs=5, ngd=1, ng=1, ngc=1, factory=1, patches=1, itype=1), dict(nA=1, pairs=5, ngd=1, ternary=1, lo=3)])
cxx_spec("C07", U, "composition_dependent", cfgs=[dict(nc=1, lo=2), dict(nc=1, itype=1, harm=1, levels=2, ngd=1, ngdc=1, ng=2, ngc=2, patches=1), dict(nc=2, itype=1, patches=1), dict(nc=2, patches=1, ngd=1, ngt=2, ngc=2, nx=2)])
cxx_spec("C07", U, "face_coef", cfgs=[dict(qlen=1, lo=2), dict(qlen=2, i1=1, levels=2, ng=2, patches=1), dict(qlen=4, i2=1, smooth=1, harm=1, patches=1), dict(qlen=1, smooth=2, ngg=1, ngf=1, ngt=2, patches=1)])
cxx_spec("C07", U, "deriv_coef", cfgs=[dict(qlen=1, lo=2), dict(qlen=2, i1=1, levels=2, ng=2, patches=1), dict(qlen=4, smooth=1, harm=1, patches=1), dict(qlen=1, smooth=2, ngt=2, patches=1, levels=2)])

V = Unit("mobility", ["CompositionStrategyMobilities.cc", "CALPHADMobility.cc"], "h_mobility.cc")
cxx_spec("C18", V, "mobilities", dims=(2,), cfgs=[dict(ns=2), dict(ns=2, extra=1, phase=1, terms=3), dict(ns=2, extra=3, phase=2, terms=9), dict(ns=2, extra=3, short=1), dict(ns=3, phase=1, terms=3), dict(ns=3, extra=5, terms=3), dict(ns=3, phase=2, extra=2, terms=1)])
