"""C++: rigid body forces and motion of particles"""
from symx.runner import cxx_spec
from symx.cxx import Unit

U = Unit("rigid", ["RigidBodyForces.cc", "WangRigidBodyForces.cc", "PhaseRigidBodyForces.cc", "RigidBodyMotionRHS.cc", "RigidBodyMotionConcRHS.cc", "toolsSAMRAI.cc", "QuatModelParameters.cc"], "h_rigid.cc")
cxx_spec("C23", U, "forces", cfgs=[dict(lo=1, n=2, calls=2), dict(n=3, ng=2, ngc=2, nc=2, lo=-2, ny=2), dict(patches=2, levels=2, calls=2)])
cxx_spec("C23", U, "forces", cfgs=[dict(wang=0, lo=1, n=2, calls=2), dict(wang=0, n=3, ng=2, lo=-2, ny=2), dict(wang=0, patches=2, levels=2, calls=2)])
cxx_spec("C23", U, "motion", cfgs=[dict(lo=1), dict(n=3, ng=2, ngr=1, lo=-2, ny=2), dict(patches=2, levels=2)])
cxx_spec("C23", U, "motion", cfgs=[dict(conc=1, lo=1), dict(conc=1, n=3, ng=2, ngr=1, lo=-2, ny=2), dict(conc=1, patches=2, levels=2)])
