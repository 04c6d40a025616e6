"""C++: the model class"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("model", ["QuatModel.cc", "PFModel.cc", "QuatModelParameters.cc", "toolsSAMRAI.cc", "HierarchyStencilOps.cc", "computeQDiffs.cc", "QuatGradModulusStrategy.cc", "QuatWeightedAverage.cc", "EventInterval.cc", "AdaptMovingFrame.cc", "SimpleQuatGradStrategy.cc"], "h_model.cc", cap=2000)
cxx_spec("C27", U, "weights", dims=(2, 3), cfgs=[dict(axes=1), dict(levels=2, nx=3, axes=1), dict(levels=3, nx=2, axes=1, fine=4, only=(2,)), dict(patches=2, levels=2, nx=1, axes=2, twice=1), dict(levels=2, diagfirst=1, ghosts=1, axes=1, only=(2,))])
cxx_spec("C27", U, "integrals", dims=(2,), cfgs=[dict(), dict(levels=2, nc=2), dict(conc=0, phase=0), dict(np=3, patches=2), dict(np=2, nc=3, ghosts=1)])
cxx_spec("C27", U, "density", dims=(2,), cfgs=[dict(), dict(levels=2, a=2), dict(a=3, b=0, patches=2)])
cxx_spec("C27", U, "reference", dims=(2,), cfgs=[dict(), dict(b=1, patches=2), dict(levels=2), dict(nc=2), dict(nc=2, b=1)])
cxx_spec("C27", U, "velocity", dims=(2, 3), cfgs=[dict(), dict(levels=2, patches=2, nx=1)])
cxx_spec("C27", U, "frame", dims=(2,), cfgs=[dict(n=3, nx=1), dict(n=2, kept=0, nx=1)])
cxx_spec("C28", U, "scratch", dims=(2, 3), cfgs=[dict(), dict(eta=1, quat=1, conc=1, nc=2, np=2, only=(2,)), dict(levels=2, conc=1, only=(2,)), dict(patches=2, quat=1, qlen=4, other=1, only=(2,)), dict(phase=0, heat=1, levels=2, only=(2,))])
cxx_spec("C28", U, "tags", dims=(2, 3), cfgs=[dict(nx=1), dict(nx=1, patches=2, only=(2,)), dict(nx=1, np=3, tagghosts=1, only=(2,)), dict(nx=1, eta=1, tag=2, only=(2,)), dict(nx=1, eta=1, tag=3, only=(2,)), dict(nx=1, quat=1, tag=4, qlen=1), dict(nx=1, quat=1, tag=5, qlen=1, only=(2,)), dict(nx=1, phase=0, quat=1, tag=4, qlen=2, only=(2,)), dict(nx=1, levels=2, tag=1, initial=1, only=(2,)), dict(nx=1, tag=0, only=(2,))])
cxx_spec("C28", U, "regrid", dims=(2,), cfgs=[dict(levels=2), dict(levels=2, sub=1, eta=1, conc=1, nc=2, np=2), dict(levels=2, quat=1, heat=1, qlen=4), dict(levels=2, old=0, B=1), dict(levels=2, initial=1, conc=1), dict(levels=2, phase=0, heat=1), dict(levels=2, shift=2, np=3), dict(levels=3, nx=2, conc=1), dict(quat=1, aware=1), dict(quat=1, aware=1, levels=2, patches=2, qlen=4)])
cxx_spec("C05", U, "mobility", dims=(2, 3), cfgs=[dict(), dict(levels=2, default=1, g=0), dict(flat=1), dict(flat=2, only=(2,)), dict(patches=2, gm=1, only=(2,))])
cxx_spec("C05", U, "qmobility", dims=(2, 3), cfgs=[dict(nx=1), dict(nx=1, type=1), dict(nx=1, type=2, gm=1), dict(levels=2, nx=1, only=(2,))])
cxx_spec("C09", U, "normalize", dims=(2, 3), cfgs=[dict(qlen=2, g=0), dict(qlen=4, nx=1, g=0), dict(qlen=2, g=1, nx=1, only=(2,)), dict(qlen=1, g=0), dict(none=1, qlen=2, g=0), dict(levels=2, qlen=2, g=0, only=(2,))])
cxx_spec("C10", U, "symmetry", dims=(2, 3), cfgs=[dict(quat=1), dict(quat=1, qlen=4, patches=2, levels=2, only=(2,)), dict(quat=1, qlen=1, visit=0, grot=2)])
cxx_spec("C29", U, "advance", dims=(2,), cfgs=[dict(), dict(conc=1, heat=1), dict(conc=1, nc=2, B=1), dict(conc=1, calphad=0), dict(quat=1, aware=1, fundamental=2), dict(quat=1, aware=1, fundamental=3), dict(quat=1, fundamental=2), dict(quat=1, qlen=4, aware=1, fundamental=4, levels=2, heat=1, conc=1)])
cxx_spec("C19", U, "energies", dims=(2,), cfgs=[dict(), dict(quat=1, conc=1, gp=1), dict(quat=1, H=0, conc=1, needs=0), dict(B=1, conc=1, partition=1, levels=2), dict(three=1, conc=1, np=3), dict(phase=0, model=0), dict(gp=1, B=1)])
cxx_spec("C16", U, "equilibrium", dims=(2,), cfgs=[dict(), dict(fail=1), dict(out=0), dict(out=1, high=0), dict(out=1, levels=2, nx=1), dict(nc=2, known=1, nx=1), dict(known=1, fail=1), dict(patches=2)])
cxx_spec("C29", U, "saved", dims=(2,), cfgs=[dict(), dict(eta=1, quat=1, conc=1), dict(conc=1, B=1, heat=1), dict(conc=1, needs=0, B=1), dict(phase=0, quat=1), dict(phase=0)])
cxx_spec("C27", U, "shown", dims=(2, 3), cfgs=[dict(), dict(B=0, levels=2, g=1), dict(ebs=0), dict(visit=0, only=(2,)), dict(patches=2, g=1, only=(2,))])
cxx_spec("C03", U, "phasegrad", dims=(2, 3), cfgs=[dict(nx=1), dict(nx=1, visit=1, default=1, levels=2, only=(2,)), dict(nx=1, visit=1, default=1, only=(3,)), dict(nx=1, patches=2, level=1, levels=2, only=(2,))])
cxx_spec("C11", U, "quatgrad", dims=(2, 3), cfgs=[dict(nx=1, qlen=1), dict(nx=1, aware=1, visit=1, default=1, qlen=4, only=(2,)), dict(nx=1, aware=1, visit=1, qlen=2, levels=2, level=1, only=(2,)), dict(nx=1, aware=1, visit=1, qlen=4, only=(3,)), dict(nx=1, iso=1, visit=1, qlen=2, default=1, levels=2, only=(2,)), dict(nx=1, iso=1, aware=1, qlen=1, only=(2,))], props=("C03",))
cxx_spec("C11", U, "smooth", dims=(2, 3), cfgs=[dict(quat=1, nx=1), dict(quat=1, qlen=4, levels=2, patches=2, nx=1, only=(2,)), dict(quat=1, qlen=1, aware=1)])
cxx_spec("C27", U, "reported", dims=(2,), cfgs=[dict(nx=1), dict(nx=1, conc=1, nc=2, heat=1, eta=1), dict(nx=1, np=3, sub=1, levels=2, gp=1), dict(nx=1, three=1, np=3, conc=1, detail=0), dict(nx=1, phase=0, conc=1, heat=1, temps=0, patches=2), dict(nx=1, np=3, sub=1, nB=1, patches=2)])
cxx_spec("C28", U, "filled", dims=(2, 3), cfgs=[dict(nx=1), dict(nx=1, default=1, nc=2, g=1, levels=2, given=5, only=(2,)), dict(nx=1, given=2, only=(2,))])
