"""C++: differences, gradients and phase fluxes patch by patch"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("fields", ["HierarchyStencilOps.cc", "QuatGradModulusStrategy.cc", "PhaseFluxStrategySimple.cc", "PhaseFluxStrategyIsotropic.cc", "PhaseFluxStrategyAnisotropy.cc", "computeQDiffs.cc"], "h_fields.cc")
cxx_spec("C03", U, "stencils", cfgs=[dict(ng=2, lo=3), dict(ng=2, ngd=2, ngc=1, levels=2), dict(ng=3, small=1, lo=-2)])
cxx_spec("C03", U, "stencils_level", cfgs=[dict(lo=-3)])
cxx_spec("C03", U, "modulus", cfgs=[dict(qlen=q, sides=s, lo=2) for q in (1, 2, 4) for s in (0, 1)])
cxx_spec("C04", U, "flux", cfgs=[dict(depth=1), dict(depth=3, ng=2, ngf=1, lo=-2), dict(depth=2, lo=4, small=1)])
cxx_spec("C04", U, "flux", dims=(2,), cfgs=[dict(depth=1, iso=1), dict(depth=3, ng=2, ngf=1, lo=-2, iso=1)])
cxx_spec("C04", U, "flux_anisotropic", dims=(2,), cfgs=[dict(qlen=1, depth=1, patches=2), dict(qlen=4, depth=2, ng=2, ngq=3, ngf=1, lo=2)])
cxx_spec("C04", U, "flux_anisotropic", dims=(3,), cfgs=[dict(qlen=4, depth=1), dict(qlen=4, depth=2, ng=2, ngq=1, ngf=1, lo=2)])
cxx_spec("C03", U, "qdiffs", cfgs=[dict(qlen=1, lo=2), dict(qlen=4, small=1)], props=("C11",))
cxx_spec("C03", U, "qdiffs", dims=(2,), cfgs=[dict(qlen=2, small=1, iso=1)], props=("C11",))
cxx_spec("C11", U, "qdiffs_symmetric", cfgs=[dict(qlen=4, lo=1), dict(qlen=4, seed=3, only=(2,), iso=1)])
