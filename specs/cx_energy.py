"""C++: bulk free energies of the phases, driving forces, totals reported"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("energy", ["FreeEnergyStrategy.cc", "ConcFreeEnergyStrategy.cc", "CALPHADFreeEnergyStrategyBinary.cc", "CALPHADFreeEnergyStrategyBinaryThreePhase.cc", "CALPHADFreeEnergyStrategyMultiOrder.cc",
                    "CALPHADFreeEnergyStrategyTernary.cc", "QuadraticFreeEnergyStrategy.cc", "QuadraticFreeEnergyStrategyMultiOrder.cc", "QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc", "KKSdiluteBinary.cc",
                    "TiltingFolchPlapp2005.cc", "TiltingMoelans2011.cc", "PhaseFreeEnergyStrategy.cc", "TemperatureFreeEnergyStrategy.cc", "DeltaTemperatureFreeEnergyStrategy.cc", "BiasDoubleWellFreeEnergyStrategy.cc",
                    "BiasDoubleWellBeckermannFreeEnergyStrategy.cc", "BiasDoubleWellUTRCFreeEnergyStrategy.cc", "ConstantMeltingTemperatureStrategy.cc", "LinearMeltingTemperatureStrategy.cc",
                    "EnergyEvaluationStrategy.cc", "TwoPhasesEnergyEvaluationStrategy.cc", "MultiOrderPEnergyEvaluationStrategy.cc"], "h_energy.cc")
kinds = [dict(kind=k) for k in range(11)]
cxx_spec("C16", U, "energies", cfgs=[dict(kind=k, gp=k % 2, lo=k % 3, ngt=1 + k % 2, ngc=0 if k in (8, 9) else k % 3, ngf=1 if k != 3 else 0, patches=1 + k % 2, levels=1 + (k + 1) % 2) for k in range(11)])
cxx_spec("C16", U, "second_derivatives", dims=(2,), cfgs=kinds)
cxx_spec("C16", U, "driving", cfgs=[dict(kind=0, raw=1, interp=1, lo=2), dict(kind=1, interp=2, patches=2, ngt=2, ngc=1), dict(kind=2, interp=1, ny=1), dict(kind=3, ny=1), dict(kind=4, nA=2, ngc=1), dict(kind=5, nA=2, nB=1, raw=1), dict(kind=5, nA=1, nB=2, ngf=0, ngt=2),
                                    dict(kind=6, interp=1, lo=2, ngc=1), dict(kind=7, interp=0, raw=1, ngf=0), dict(kind=8, nA=2, raw=1), dict(kind=9, nA=1, nB=1), dict(kind=9, nA=2, nB=1, ngf=0, ny=1), dict(kind=10, interp=2, raw=1, ngc=1)])
cxx_spec("C16", U, "molar_volume", dims=(2,))
cxx_spec("C16", U, "pure", cfgs=[dict(kind=0, interp=1, gp=1), dict(kind=0, nop=3, patches=1), dict(kind=1, interp=2, lo=2, levels=2, patches=1), dict(kind=2, interp=1, ngt=2, ngb=1), dict(kind=2, interp=0, levels=2, patches=1)])
cxx_spec("C16", U, "bias", cfgs=[dict(beckermann=1, linear=1, ngt=2), dict(beckermann=1, patches=2), dict(linear=1, ngc=1, lo=2), dict()])
cxx_spec("C19", U, "totals", cfgs=[dict(interp=1, visit=1), dict(levels=2, patches=1, interp=2, quartic=1), dict(qlen=1, visit=1, smooth=1), dict(qlen=2, o1=1, o2=1, harm=1, ngt=2, patches=1), dict(qlen=1, levels=2, patches=1, ng=2), dict(levels=3, patches=1, visit=1)])
cxx_spec("C19", U, "pairs", cfgs=[dict(n=2), dict(n=3, lo=2), dict(n=2, levels=2, ng=2, patches=1), dict(n=2, levels=3, patches=1)])
