"""C++: assembly of right-hand sides and preconditioners"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("integrator", ["QuatIntegrator.cc", "QuatModelParameters.cc", "toolsSAMRAI.cc", "samrai/Sundials_SAMRAIVector.cc", "samrai/SundialsAbstractVector.cc", "samrai/CVODEAbstractFunctions.cc", "samrai/CVODESolver.cc"], "h_integrator.cc")
cxx_spec("C26", U, "rhs", dims=(2, 3), cfgs=[
    dict(),
    dict(np=2, frame=1, only=(2,)),
    dict(quat=1, only=(2,)), dict(quat=1, qlen=4, cells=1, fd=1), dict(quat=1, fd=1, lag=0, only=(2,)), dict(quat=1, dquatdphi=0, symmetry=1, only=(2,)),
    dict(eta=1, only=(2,)),
    dict(unsteady=1, only=(2,)), dict(unsteady=1, frame=1, only=(2,)), dict(phase=0, unsteady=1, only=(2,)),
    dict(conc=1, flux=0, only=(2,)), dict(conc=1, flux=1), dict(conc=1, flux=2, np=2, rb=1, only=(2,)), dict(conc=1, flux=3, only=(2,)), dict(conc=1, flux=4, antitrap=1, only=(2,)),
    dict(conc=1, nc=2, flux=1, gradT=1, unsteady=1, frame=1, only=(2,)), dict(conc=1, flux=4, fd=1, only=(2,)), dict(conc=1, flux=1, fd=1, lag=0, only=(2,)),
    dict(conc=1, flux=0, partition=1, velocity=1, only=(2,)),
    dict(np=3, rb=1, only=(2,)),
    dict(phase=1, eta=1, conc=1, quat=1, unsteady=1, flux=1, only=(2,)),
    dict(phase=1, conc=1, quat=1, unsteady=1, flux=4, levels=2, only=(2,)),
    dict(phase=1, conc=1, antitrap=1, flux=4, patches=2, only=(2,)),
], thorough=[dict(phase=1, eta=1, conc=1, quat=1, unsteady=1, flux=1, levels=2)])
cxx_spec("C26", U, "precond", dims=(2, 3), cfgs=[
    dict(precond=1), dict(precond=1, np=2, only=(2,)), dict(precond=1, solvers=0, only=(2,)), dict(precond=1, fails=1, only=(2,)), dict(precond=1, lr=2, only=(2,)),
    dict(precond=1, eta=1, only=(2,)), dict(precond=1, eta=1, fails=2, only=(2,)), dict(precond=1, eta=1, solvers=0, only=(2,)),
    dict(precond=1, conc=1, only=(2,)), dict(precond=1, conc=1, nc=2, fails=3, only=(2,)), dict(precond=1, conc=1, solvers=0, only=(2,)),
    dict(precond=1, unsteady=1, only=(2,)), dict(precond=1, unsteady=1, fails=4, only=(2,)), dict(precond=1, unsteady=1, dTdphi=1, only=(2,)),
    dict(precond=1, quat=1, qlen=4), dict(precond=1, quat=1, fails=5, only=(2,)), dict(precond=1, quat=1, dquatdphi=0, only=(2,)), dict(precond=1, quat=1, precquat=0, only=(2,)), dict(precond=1, quat=1, solvers=0, only=(2,)),
    dict(precond=1, eta=1, conc=1, quat=1, unsteady=1, only=(2,)), dict(precond=1, eta=1, conc=1, quat=1, unsteady=1, lr=0, only=(2,)), dict(precond=1, eta=1, conc=1, quat=1, unsteady=1, fails=1, only=(2,)),
    dict(precond=1, conc=1, quat=1, levels=2, only=(2,)),
])
cxx_spec("C26", U, "projection", dims=(2,), cfgs=[dict(), dict(quat=1, qlen=2), dict(quat=1, qlen=4, conc=1, unsteady=1), dict(quat=1, qlen=1)])
cxx_spec("C26", U, "vector", dims=(2,), cfgs=[dict(), dict(quat=1, conc=1, unsteady=1, eta=1, levels=2), dict(phase=0, unsteady=1), dict(conc=1, quat=1)])
cxx_spec("C26", U, "boundary", dims=(2,), cfgs=[dict(), dict(rescaled=1), dict(upwind=1, unsteady=1), dict(conc=1, quat=1, eta=1, rescaled=1), dict(periodic=1)])
cxx_spec("C26", U, "step", dims=(2,), cfgs=[dict(), dict(precond=1, hmax=1, conc=1), dict(unsteady=1, precond=1), dict(quat=1, conc=1, eta=1, precond=1, levels=2), dict(code=-4), dict(unsteady=1, levels=2)])
