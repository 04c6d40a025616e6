"""C++: splitting of the composition between phases"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("pconc", ["PhaseConcentrationsStrategy.cc", "PartitionCoefficientStrategy.cc", "AzizPartitionCoefficientStrategy.cc", "UniformPartitionCoefficientStrategy.cc", "PartitionPhaseConcentrationsStrategy.cc",
                   "PhaseIndependentConcentrationsStrategy.cc", "CALPHADequilibriumPhaseConcentrationsStrategy.cc", "CALPHADequilibriumPhaseConcentrationsStrategyMultiOrder.cc",
                   "CALPHADequilibriumPhaseConcentrationsStrategyMultiOrderThreePhases.cc", "EquilibriumPhaseConcentrationsBinaryMultiOrder.cc", "EquilibriumPhaseConcentrationsBinaryMultiOrderThreePhases.cc",
                   "KKSdiluteEquilibriumPhaseConcentrationsStrategy.cc", "QuadraticEquilibriumPhaseConcentrationsStrategy.cc", "QuadraticEquilibriumPhaseConcentrationsStrategyMultiOrder.cc",
                   "QuadraticEquilibriumThreePhasesTernaryStrategyMultiOrder.cc", "QuatModelParameters.cc"], "h_pconc.cc")
W = dict(patches=1, nx=2, ny=1, nz=1)
cxx_spec("C20", U, "split", cfgs=[
    dict(lo=2, ng=2), dict(patches=1, sublattice=1, ngt=2, levels=2, newton=1), dict(patches=1, ng=2, ngc=2, ngt=2, only=(2,)), dict(patches=1, any=1, ngc=0, nx=2, ny=2, interp=2),
    dict(kind=1, ng=2, nx=2, patches=1), dict(kind=1, sublattice=1, interp=2, ngc=0, lo=1), dict(kind=2, patches=1, ng=2), dict(kind=2, lo=1, ngt=2, ngc=0, interp=0),
    dict(kind=3, lo=1, ngc=0, nA=2), dict(kind=3, patches=1, ng=2, ngt=2, interp=2), dict(kind=4, patches=1, ng=2, nA=2), dict(kind=4, lo=2, ngc=0, nB=2, sublattice=1),
    dict(kind=5, lo=2), dict(kind=5, patches=1, ng=2, any=1, ngc=0, nx=2, ny=2), dict(kind=6, lo=1, ngc=0, nA=2), dict(kind=6, patches=1, ngt=2), dict(kind=7, patches=1, ng=2, nA=2), dict(kind=7, lo=2, ngc=0, nB=2),
    dict(kind=8, lo=2, ng=2), dict(kind=8, patches=1, nx=2, ny=2, nz=2, ngc=0, ngt=2), dict(kind=9, lo=1, ng=2, nc=2, ngk=1), dict(kind=9, patches=1, nx=2, ny=2, any=0, interp=2, ngc=2, ngt=0), dict(kind=9, patches=1, interp=0, levels=2, model=1),
    dict(kind=10, lo=1, nc=2, ng=2), dict(kind=10, levels=2, patches=1, ngc=2)])
cxx_spec("C20", U, "partition_coefficient", cfgs=[dict(kind=0, lo=1), dict(kind=0, ids=1, levels=2, patches=1), dict(kind=1, lo=1), dict(kind=1, given=0, newton=1, patches=1, ngt=0, ngv=1), dict(kind=2, levels=2, patches=1), dict(kind=2, given=0, nx=2, patches=1, newton=1)])
