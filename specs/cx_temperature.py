"""C++: prescribed temperature, heat equation"""
from symx.runner import cxx_spec
from symx.cxx import Unit, CXX

U = Unit("temperature", ["TemperatureHistory.cc", "ScalarTemperatureStrategy.cc", "GradientTemperatureStrategy.cc", "GaussianTemperatureStrategy.cc",
                         "ConstantHeatCapacityStrategy.cc", "NKRHeatCapacityStrategy.cc", "TemperatureRHSStrategy.cc", "SimpleTemperatureRHSStrategy.cc",
                         "SteadyStateTemperatureGaussianSource.cc", "SteadyStateTemperatureCompositionSource.cc", "LinearMeltingTemperatureStrategy.cc",
                         "ConstantMeltingTemperatureStrategy.cc", "TemperatureStrategyFactory.cc", "QuatModelParameters.cc"], "h_temperature.cc", extra=["-include", CXX + "/inc/stod.h"])
cxx_spec("C17", U, "scalar", dims=(2, 3), cfgs=[dict(target=0), dict(target=1)])
cxx_spec("C17", U, "gradient", dims=(2, 3), cfgs=[dict(center=0), dict(center=1), dict(center=1, lo=-3)])
cxx_spec("C17", U, "history", dims=(2,), cfgs=[dict(nt=2, np=2), dict(nt=2, np=3), dict(nt=3, np=3)], thorough=[dict(nt=3, np=4)])
cxx_spec("C17", U, "gradient_from_table", dims=(2, 3), cfgs=[dict()])
cxx_spec("C17", U, "gaussian", dims=(2, 3), cfgs=[dict(initial=1), dict(periodic=1), dict(periodic=2, rate=0), dict(periodic=3, only=(3,)), dict(rate=0, levels=1)])
cxx_spec("C17", U, "constant", dims=(2, 3), cfgs=[dict(levels=1)])
cxx_spec("C17", U, "melting", dims=(2, 3), cfgs=[dict(linear=0, ngT=1), dict(linear=1, ngT=1), dict(linear=1, ngc=2)])
cxx_spec("C17", U, "steady_gaussian", dims=(2, 3), cfgs=[dict(), dict(periodic=1, ngr=1, ngcp=0), dict(levels=1)])
cxx_spec("C08", U, "steady_composition", dims=(2, 3), cfgs=[dict(), dict(ngc=1, ngcp=0), dict(levels=1, ngr=1)])
cxx_spec("C08", U, "neumann_kopp", dims=(2, 3), cfgs=[dict(), dict(species=3, ngc=1), dict(levels=1, ngcp=1, ngT=2)])
cxx_spec("C08", U, "constant_cp", dims=(2, 3), cfgs=[dict()])
cxx_spec("C08", U, "rhs", dims=(2, 3), cfgs=[dict(), dict(phase=0), dict(ngT=2, ngcp=1, ngp=1, ngr=1), dict(levels=1)])
cxx_spec("C17", U, "chosen", dims=(2,), cfgs=[dict(kind=k) for k in range(7)] + [dict(kind=0, key=1), dict(kind=0, key=2, nested=0), dict(kind=0, key=3), dict(kind=2, nested=0)])
