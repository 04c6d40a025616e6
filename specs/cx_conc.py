"""C++: strategies for the right-hand side of the composition equation"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("conc", ["CompositionRHSStrategy.cc", "KKSCompositionRHSStrategy.cc", "EBSCompositionRHSStrategy.cc", "EBSCompositionRHSStrategyWithGradT.cc", "BeckermannCompositionRHSStrategy.cc",
                  "CahnHilliardDoubleWell.cc", "WangSinteringCompositionRHSStrategy.cc", "QuatModelParameters.cc"], "h_conc.cc")
cxx_spec("C06", U, "kks", cfgs=[dict(lo=2, ng=2), dict(interp=0, levels=2, patches=1, nc=2, ngf=1), dict(patches=1, harm=1, ngc=2, ngcl=2, ngt=2), dict(patches=1, nx=2, ny=2, ngf=1)])
cxx_spec("C06", U, "beckermann", cfgs=[dict(lo=2, ng=2), dict(interp=0, levels=2, patches=1, ngf=1, ngc=2), dict(patches=1, ngk=2), dict(patches=1, nx=2, ny=2, ngk=1, ngc=2)])
cxx_spec("C06", U, "ebs", cfgs=[dict(lo=2), dict(nc=2, np=3, levels=2, patches=1, ngf=1), dict(stencil=1, ngd=1, nc=1), dict(stencil=1, np=3, patches=1, ngd=1, ng=2), dict(stencil=2, ng=2), dict(stencil=2, ng=2, np=3, nc=2, patches=1, ngf=1, ngd=1), dict(precond=0, patches=1, ngd=1)])
cxx_spec("C06", U, "antitrapping", cfgs=[dict(), dict(nc=2, patches=1, ngp=2), dict(norder=3, patches=1, ng=2, ngf=1), dict(np=3, norder=3, patches=1, ngr=2)])
cxx_spec("C06", U, "thermal", cfgs=[dict(lo=2, ng=2), dict(three=1, levels=2, patches=1, ngf=1, precond=1), dict(patches=1, harm=1, ngq=1, ngt=2, ngp=2)])
cxx_spec("C06", U, "cahn_hilliard", cfgs=[dict(lo=1), dict(nc=2, patches=1, more=1, moref=1)])
cxx_spec("C06", U, "wang", cfgs=[dict(lo=1), dict(norder=3, patches=1, morec=1, moref=1), dict(norder=1, patches=1, morep=1, ngd=2)])
cxx_spec("C06", U, "zero_boundary_flux", cfgs=[dict(nx=2, ny=2, nz=2), dict(patches=1, nx=2, ny=1, nz=2, lo=3)])
