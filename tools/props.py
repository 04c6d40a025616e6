F2, F3 = "source/fortran/2d/", "source/fortran/3d/"
P = []
NA = []
WHY = "The repository's tests compare a handful of values (one grid, one parameter set) with fixed numbers; they do not quantify over %s."


def prop(id, title, statement, q, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, q=q, why=why if " " in why and why.endswith(".") else WHY % why, files=files, mech=mech, **k))


prop("C01", "Interpolation, well and averaging functions agree with their derivatives",
     "For every function type the code offers (linear, quadratic, cubic, power, Pade, harmonic, smooth-step, log-cosh, ...), interpolation, well and averaging "
     "functions have the documented values (0 and 1 at the pure phases, clamped outside [0,1] where so defined, averages between their arguments and symmetric), and the "
     "first and second derivatives the code provides are the derivatives of the function values it provides, for every real argument.",
     "all real phase values and parameters; every type character accepted", "phase values, parameters and type characters",
     ["source/fortran/functions.f"], [("interp_func, deriv_interp_func, second_deriv_interp_func", "source/fortran/functions.f"),
                                      ("well_func and derivatives, average_func", "source/fortran/functions.f")])
prop("C02", "Triangular and symmetric-pair index maps are bijections onto their storage",
     "The index maps the kernels use to store pairwise (symmetric matrix) quantities address every unordered pair exactly once, within the storage, and do not depend on the order of the pair.",
     "all sizes up to the stated bound, all index pairs", "sizes and index pairs",
     ["source/fortran/functions.f"], [("index functions", "source/fortran/functions.f")])
prop("C03", "Differences, gradients, Laplacian and side/cell averages are the stated stencils",
     "On every patch and for every field, the kernels for side differences, cell- and side-centred gradients (standard and isotropic), Laplacian, side-to-cell averaging, interface velocity and zeroing "
     "return exactly the documented finite-difference stencil at every cell or side of the patch, reproduce the slope of linear fields, and touch nothing else; the model shows the differences and gradients of its phase so computed on every level.",
     "all field values, spacings; patches, ghost widths listed in the evidence; 2D and 3D", "fields, mesh spacings, patch shapes and ghost widths",
     [F2 + "grad.m4", F3 + "grad.m4", F2 + "laplacian.m4", F3 + "laplacian.m4", F2 + "side2cell.m4", F3 + "side2cell.m4", "source/SimpleGradStrategy.cc", "source/HierarchyStencilOps.cc", "source/SimpleQuatGradStrategy.cc", "source/computeQDiffs.cc", "source/QuatModel.cc"],
     [("SimpleGradStrategy, HierarchyStencilOps", "source/HierarchyStencilOps.cc"), ("grad_cell, grad_side, grad_side_isotropic, diffs, velocity", F2 + "grad.m4"), ("laplacian", F2 + "laplacian.m4")])
prop("C09", "Quaternion algebra and rotation matrices obey their group laws",
     "Quaternion product, conjugate, inverse, normalisation, logarithm/exponential, rotation matrices and their derivatives satisfy the algebraic laws that define them: unit norm is multiplicative, "
     "the rotation matrix of a unit quaternion is orthogonal and multiplicative, and each provided derivative is the derivative of the provided function. Normalising a stored orientation field leaves a unit vector of the same direction in every cell of every patch and level.",
     "all real quaternions (nonzero where a division needs it)", "quaternion values",
     ["source/fortran/quat.f", "source/QuatModel.cc"], [("quatmult4, quatinvmult4, quatnorm, eval_rotation_matrix, ...", "source/fortran/quat.f")])
prop("C10", "Crystal-symmetry rotations form a group and pick a closest equivalent",
     "The table of symmetry rotations is closed under product and inverse, applying a rotation and then its inverse restores every orientation, and the search for the equivalent orientation closest to a reference "
     "returns an element of the equivalence class whose distance to the reference is minimal among the candidates the code considers. The rotations between neighbouring cells are stored for every side of every patch and level, from filled data.",
     "all unit quaternions, all 48 (4-component) / 8 (2-component) rotation indices", "orientations and rotation indices",
     ["source/fortran/quat.f", "source/QuatModel.cc"], [("quatrotation tables, quatsymmrotate, quatfindsymm", "source/fortran/quat.f")])


def both(*names): return [d + n + ".m4" for n in names for d in (F2, F3)]


prop("C04", "Phase and concentration fluxes are the stated anisotropic gradient fluxes",
     "On every side of the patch the phase flux is epsilon^2 times the side difference divided by the mesh spacing (isotropic form), its isotropic-stencil variant, or the anisotropic form built from the local "
     "interface normal, the crystal orientation and the anisotropy function and its derivative; the anisotropic flux reduces to the isotropic one when the anisotropy vanishes. Fluxes touch only the sides of the patch.",
     "all phase, orientation and coefficient values; patches, ghost widths listed in the evidence; 2D and 3D", "fields, orientations, anisotropy parameters, patch shapes and ghost widths",
     both("flux") + ["source/PhaseFluxStrategySimple.cc", "source/PhaseFluxStrategyIsotropic.cc", "source/PhaseFluxStrategyAnisotropy.cc", "source/PhaseFluxStrategyFactory.h"],
     [("PhaseFluxStrategy*::computeFluxes", "source/PhaseFluxStrategySimple.cc"), ("compute_flux, compute_flux_isotropic, anisotropic_gradient_flux", F2 + "flux.m4")])
prop("C05", "Phase-field right-hand sides are flux divergence minus driving terms",
     "The time derivative of the phase, eta and multi-order-parameter fields equals, in every cell, the discrete divergence of the side fluxes minus the well, orientation-coupling, strain and chemical "
     "driving-force derivatives selected by the options, and nothing outside the patch interior changes; thermal and Beckermann source terms are added exactly once. The mobilities of the order parameters and of the orientation follow their temperature and phase formulas on every patch and level.",
     "all field values, mobilities, spacings and option flags; patches and ghost widths listed; 2D and 3D", "fields, parameters, options, patch shapes and ghost widths",
     both("phase", "multiorder") + ["source/PhaseRHSStrategyWithQ.cc", "source/ThreePhasesRHSStrategy.cc", "source/MultiOrderRHSStrategy.cc", "source/MovingFrameRHS.cc", "source/PhaseRigidBodyForces.cc", "source/QuatModel.cc"],
     [("PhaseRHSStrategyWithQ, ThreePhasesRHSStrategy, MultiOrderRHSStrategy, MovingFrameRHS", "source/PhaseRHSStrategyWithQ.cc"), ("computerhspbg, computerhseta, computerhsmultiorder, computerhstemp, ...", F2 + "phase.m4")])
prop("C06", "Concentration fluxes and right-hand sides are consistent and conservative",
     "Concentration fluxes (diffusive, spinodal, phase-driven, anti-trapping, two- and three-phase) accumulate on each side the stated product of coefficient and gradient, the right-hand side is the divergence of the "
     "fluxes, so the mass of a patch changes only through its outer sides, partition-coefficient, phase-concentration and equilibrium helper kernels return the stated formulas, and each composition strategy (KKS, EBS with its three stencils and anti-trapping, thermal diffusion, Beckermann, Cahn-Hilliard, Wang sintering) sets its coefficients from, and applies those kernels to, the data of its own fields on every level and patch.",
     "all concentrations, phases, coefficients, velocities; patches and ghost widths listed; 2D and 3D", "fields, coefficients, patch shapes and ghost widths",
     both("concentrationrhs", "concentrationdiffusion", "concentrations") + ["source/" + n + ".cc" for n in ("CompositionRHSStrategy", "KKSCompositionRHSStrategy", "EBSCompositionRHSStrategy", "EBSCompositionRHSStrategyWithGradT", "BeckermannCompositionRHSStrategy", "CahnHilliardDoubleWell", "WangSinteringCompositionRHSStrategy")], [("CompositionRHSStrategy implementations", "source/EBSCompositionRHSStrategy.cc"), ("add_concentration_flux, computerhsconcentration, antitrapping", F2 + "concentrationrhs.m4")])
prop("C07", "Diffusion coefficients mix phase diffusivities with the stated weights",
     "Concentration diffusion coefficients at every side are the Arrhenius diffusivities of the phases at the side temperature, weighted by the interpolation functions of the side phases (weights sum to one), for two, "
     "three and many phases and for pair-interface diffusion; quaternion diffusion coefficients combine mobility, misorientation gradient modulus and side averages as documented, in 2D and 3D alike, and independently of how the domain is cut into patches.",
     "all temperatures > 0, phases, activation energies and prefactors; patches and ghost widths listed", "temperatures, phases, parameters, patch shapes and ghost widths",
     both("concentrationdiffusion", "quatdiffusion") + ["source/" + n + ".cc" for n in ("ScalarCompositionDiffusionStrategy", "TbasedCompositionDiffusionStrategy", "WangSinteringCompositionDiffusionStrategy", "MobilityCompositionDiffusionStrategy", "QuatFaceCoeff", "DerivDiffusionCoeffForQuat")],
     [("CompositionDiffusionStrategy implementations", "source/TbasedCompositionDiffusionStrategy.cc"), ("concentration_pfmdiffusion*, concentration_diffcoeff_of_temperature, ab_diffusion_of_temperature", F2 + "concentrationdiffusion.m4"), ("quatdiffusion", F2 + "quatdiffusion.m4")])
prop("C08", "Temperature kernels integrate heat balance with the stated stencil",
     "Heat-capacity, temperature right-hand side and initial-temperature kernels return, in every cell, thermal diffusion times the Laplacian plus latent-heat source, composition-weighted heat capacities and the "
     "prescribed (gradient, gaussian, moving-frame) temperature profiles, and leave the rest of the arrays alone.",
     "all temperatures, phase rates, heat capacities, frame velocities; patches and ghost widths listed; 2D and 3D", "fields, parameters, patch shapes and ghost widths",
     both("temperature") + ["source/" + n + ".cc" for n in ("NKRHeatCapacityStrategy", "ConstantHeatCapacityStrategy", "SimpleTemperatureRHSStrategy", "TemperatureRHSStrategy", "SteadyStateTemperatureCompositionSource")],
     [("SimpleTemperatureRHSStrategy, NKRHeatCapacityStrategy, ConstantHeatCapacityStrategy", "source/SimpleTemperatureRHSStrategy.cc"), ("computerhstemp, computetemperature kernels", F2 + "temperature.m4")])
prop("C11", "Symmetry-aware orientation differences choose and use equivalent neighbours",
     "Symmetry-aware quaternion differences rotate the neighbour by exactly the rotation index recorded for that side, gradients and divergences built on them reduce to the plain ones when every index is the identity, "
     "rotation indices recorded on a side are those that bring the neighbour closest, and cell gradients read forward and backward sides with the inverse rotation. The model computes differences, gradients and their modulus on every level in the order these need, and smooths orientations where the phase is low.",
     "all orientations and rotation indices; patches, ghost widths and depths 1, 2 and 4 as listed; 2D and 3D", "orientation fields, rotation indices, patch shapes and depths",
     both("quatdiffs", "quatgrad", "quatrotation", "correctrhsquatforsymmetry") + ["source/SimpleQuatGradStrategy.cc", "source/computeQDiffs.cc", "source/QuatModel.cc"], [("diffs_symm, grad_*_symm, quat_symm_rotation", F2 + "quatdiffs.m4")])
prop("C12", "Elliptic FAC operators relax, evaluate and correct the same equation",
     "Face fluxes, residual, operator accumulation and red-black relaxation of the elliptic FAC solver discretise the same equation m div(D grad u) + s u = rhs: relaxation visits every cell of one colour (parity of the "
     "index sum) exactly once, gives it the value that zeroes its residual, reports the largest residual, and coarse-fine fluxes combine normal and transverse differences with weights 2/(1+r) and 1/(1+r). The operator "
     "classes built on them apply it on every patch and level of a hierarchy, component by component with the coefficients of that component and the spacing of that level, keep coarse and fine fluxes consistent, move "
     "corrections and residuals between levels, and set the coefficients of the phase, eta, concentration and temperature equations as their implicit time step requires.",
     "all coefficients, solutions and right-hand sides; patches (also at negative indices), independent ghost widths per array and direction; 2D and 3D", "fields, patch positions and ghost widths",
     both("ellipticfacops") + ["source/EllipticFACOps.cc", "source/PhaseFACOps.cc", "source/EtaFACOps.cc", "source/ConcFACOps.cc", "source/TemperatureFACOps.cc", "source/PhaseTemperatureFACOps.cc"], [("EllipticFACOps, PhaseFACOps, EtaFACOps, ConcFACOps, TemperatureFACOps, PhaseTemperatureFACOps", "source/EllipticFACOps.cc"), ("efo_compfluxvardc, efo_rbgswithfluxmax*, efo_compres*, accumop*, efo_ewingfixflux*, setc", F2 + "ellipticfacops.m4")])
prop("C13", "Matrices given to the level solver represent the stated operator",
     "The matrix rows handed to the structured level solver represent I + gamma sqrt(M) J sqrt(M) with J the conservative second difference (rows sum to zero), the symmetric storage holds the same matrix, and boundary "
     "adjustments of matrix and right-hand side eliminate the ghost value exactly as the Robin condition a u + (1-a) du/dn = g prescribes, at every boundary location. Whatever solves the systems the two level solvers "
     "assemble solves the discrete equation of the level (C u + M div(D grad u) = f, and v + gamma sqrt(M) div(D grad sqrt(M) v) = f) with the boundary values asked for; the solution is stored in the component asked "
     "for, and the solver reports whether the residual met the tolerance.",
     "all coefficients, boundary data, spacings; patches and independent array bounds listed; all 4 (2D) / 6 (3D) boundary locations", "coefficients, patch shapes and array bounds",
     both("quatlevelsolver", "hyprepoisson") + ["source/QuatLevelSolver.cc", "source/samrai/CellPoissonHypreSolver.cc"], [("QuatLevelSolver", "source/QuatLevelSolver.cc"), ("CellPoissonHypreSolver", "source/samrai/CellPoissonHypreSolver.cc"), ("set_j_ij, set_stencil, set_symmetric_stencil, adjust_bdry, adjust_qrhs", F2 + "quatlevelsolver.m4"), ("multiplyoffdiagbym", F2 + "hyprepoisson.m4")])
prop("C15", "Three-phase weights partition unity and pair weights are triangle angles",
     "For every point of the three-phase simplex the Folch-Plapp and Moelans weights lie in [0,1], sum to one, are 1 in the pure phase and 0 where the phase is absent, do not depend on the order of the other two "
     "phases, and the derivatives provided are the derivatives of the weights along the simplex (they sum to zero, and vanish in pure phases). The weights of the phase pairs are non-negative, sum to one, and "
     "depend only on which fractions a pair has, not on the order of the arguments, also when one fraction exceeds the stated limit; the array operations add and multiply element by element.",
     "all phase fractions on the simplex (pair weights: also slightly outside)", "phase fractions",
     ["source/TiltingFolchPlapp2005.cc", "source/TiltingMoelans2011.cc", "source/computeWeights3Pairs.cc", "source/ArrayOperation.cc"],
     [("TiltingFolchPlapp2005, TiltingMoelans2011", "source/TiltingFolchPlapp2005.cc"), ("computeWeights3Pairs", "source/computeWeights3Pairs.cc"), ("AddOperation, MultiplyOperation", "source/ArrayOperation.cc")])
prop("C18", "CALPHAD species mobilities follow their assessments and give the diffusivity",
     "The activation free energy of a species in a binary or ternary phase is the composition-weighted sum of the end-member values plus the Redlich-Kister excess terms of its assessment (absent coefficients count as zero), the "
     "atomic mobility is the Arrhenius factor of that energy, and the interdiffusion matrix combines the mobilities, composition and second derivatives of the free energy of one and the same phase (Andersson-Agren); "
     "parameters of one phase or species never enter those of another.",
     "all temperatures > 0, compositions, assessed parameters; two and three species", "temperatures, compositions and assessed parameters",
     ["source/CALPHADMobility.cc", "source/CALPHADMobility.h", "source/CompositionStrategyMobilities.cc", "source/MobilityCompositionDiffusionStrategy.cc"],
     [("CALPHADMobility::getDeltaG, getAtomicMobility", "source/CALPHADMobility.cc"), ("CompositionStrategyMobilities::computeDiffusionMobility*", "source/CompositionStrategyMobilities.cc")])
prop("C17", "Prescribed temperatures follow their profile, rate and frame at every time",
     "At every time a uniform temperature follows its initial value and rate and saturates at its target; a frozen gradient has the stated slope about a center that moves with the frame, or the temperature and slope interpolated "
     "from its table of positions and times (refused outside the table); a gaussian has the stated amplitude about a center that moves with its velocity and re-enters a periodic domain; the steady heat equation is solved with the "
     "source, pulse and coefficients stated; a constant profile is left alone; melting lines are linear in composition, and the model gets the temperature its input asks for with the stated parameters. All patches, levels and ghost cells get it.",
     "all times, velocities, rates, tables (sizes listed in the evidence), profile parameters; 2D and 3D", "times, tables, profile parameters and frame velocities",
     ["source/" + n + ".cc" for n in ("ScalarTemperatureStrategy", "GradientTemperatureStrategy", "GaussianTemperatureStrategy", "TemperatureHistory", "SteadyStateTemperatureGaussianSource", "LinearMeltingTemperatureStrategy", "ConstantMeltingTemperatureStrategy", "TemperatureStrategyFactory")],
     [("*TemperatureStrategy::setCurrentTemperature", "source/GaussianTemperatureStrategy.cc"), ("TemperatureHistory::getTandGradT", "source/TemperatureHistory.cc")])
prop("C16", "Bulk free energies of the phases and the driving forces derived from them",
     "The free energy density of a phase at a cell is the free energy of that phase at the cell's temperature and its own phase composition, divided by that phase's molar volume (all cells, ghosts included where asked, all patches and "
     "levels; grand potential where asked); chemical potentials and second derivatives are its derivatives in the same units, all matrix entries included; the driving force on an order parameter is the weighted difference of the phase energies "
     "minus mu times the composition difference, times the derivative of the weight, and is added to the right-hand side already there; pure-material and biased-well energies follow their temperature and melting formulas. "
     "Energies, compositions and volumes of one phase never enter those of another. Equilibrium compositions are looked for from within the range of the field, and again from the opposite ends if that fails or leaves [0,1].",
     "all compositions, temperatures, model parameters; all free energy kinds; 2D and 3D", "compositions, temperatures and phase fractions",
     ["source/" + n + ".cc" for n in ("FreeEnergyStrategy", "ConcFreeEnergyStrategy", "CALPHADFreeEnergyStrategyBinary", "CALPHADFreeEnergyStrategyBinaryThreePhase", "CALPHADFreeEnergyStrategyMultiOrder", "CALPHADFreeEnergyStrategyTernary",
      "QuadraticFreeEnergyStrategy", "QuadraticFreeEnergyStrategyMultiOrder", "QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase", "KKSdiluteBinary", "PhaseFreeEnergyStrategy", "TemperatureFreeEnergyStrategy",
      "DeltaTemperatureFreeEnergyStrategy", "BiasDoubleWellFreeEnergyStrategy", "BiasDoubleWellBeckermannFreeEnergyStrategy", "BiasDoubleWellUTRCFreeEnergyStrategy", "QuatModel")],
     [("*FreeEnergyStrategy*::computeFreeEnergy*, computeSecondDerivative*, addDrivingForce", "source/CALPHADFreeEnergyStrategyBinary.cc"), ("*::computeMuL, computeMuA", "source/KKSdiluteBinary.cc")])
prop("C19", "Reported energies are sums over all cells, patches and levels",
     "The interface, orientation, orientation-gradient, double-well and bulk energies reported are the sums, over every cell of every patch and level, of the cell's weight times its energy density, with the stated gradient, well and interpolation "
     "functions; the total is the sum of its parts, the energy density written out is the unweighted sum of the parts in the cell, and the pair energies of a polycrystal hold for every pair of order parameters that pair's energy and do not accumulate from one call to the next. They are evaluated on filled fields, with gradients, phase compositions and bulk energies recomputed first.",
     "all fields, weights, temperatures and energy parameters; one and two levels, one and two patches; 2D and 3D", "phase, temperature and orientation fields",
     ["source/EnergyEvaluationStrategy.cc", "source/TwoPhasesEnergyEvaluationStrategy.cc", "source/MultiOrderPEnergyEvaluationStrategy.cc", "source/QuatModel.cc", "source/fortran/2d/quatenergy.m4", "source/fortran/3d/quatenergy.m4"],
     [("TwoPhasesEnergyEvaluationStrategy::evaluateEnergy", "source/TwoPhasesEnergyEvaluationStrategy.cc"), ("MultiOrderPEnergyEvaluationStrategy::evaluatePairEnergy", "source/MultiOrderPEnergyEvaluationStrategy.cc")])
prop("C20", "Phase concentrations split each cell's composition consistently",
     "For every cell the phase compositions computed from the overall composition belong to that cell: with a partition coefficient k, c_l = c / (1 - h + k h) and c_a = k c_l, so that (1-h) c_l + h c_a = c; with the phase independent model both "
     "equal c; with an equilibrium (KKS) model they are what the thermodynamic solver returns for the temperature, overall composition(s) and phase fractions of that same cell - the interpolated order parameter, the interpolated sum of the solid "
     "order parameters, or the normalised sums of squares per phase for several order parameters and three phases - each component and phase stored in its own array, over the whole region the phase compositions are stored on, whatever the ghost "
     "widths of the fields, and nowhere else. Partition coefficients are uniform, or follow Aziz: (k + v/v_d)/(1 + v/v_d) for k < 1, between equilibrium and one.",
     "all fields, models and parameters; all ghost widths listed; 2D and 3D", "compositions, order parameters, temperatures and velocities",
     ["source/" + n + ".cc" for n in ("PhaseConcentrationsStrategy", "PartitionPhaseConcentrationsStrategy", "PhaseIndependentConcentrationsStrategy", "CALPHADequilibriumPhaseConcentrationsStrategy",
      "EquilibriumPhaseConcentrationsBinaryMultiOrder", "EquilibriumPhaseConcentrationsBinaryMultiOrderThreePhases", "KKSdiluteEquilibriumPhaseConcentrationsStrategy", "QuadraticEquilibriumPhaseConcentrationsStrategy",
      "QuadraticEquilibriumThreePhasesTernaryStrategyMultiOrder", "AzizPartitionCoefficientStrategy", "UniformPartitionCoefficientStrategy")],
     [("*::computePhaseConcentrationsOnPatch", "source/PartitionPhaseConcentrationsStrategy.cc"), ("AzizPartitionCoefficientStrategy::evaluate", "source/AzizPartitionCoefficientStrategy.cc")])
prop("C21", "Order parameter mobilities follow Kim's thin interface formulas",
     "At every cell, ghost cells included, the mobility of the order parameter is the scalar one, or Kim's: M = F v_m 1e6 / zeta without interface kinetics, 1/(alpha + zeta 1e-6/(v_m F)) with it and antitrapping, 1/alpha with interface kinetics alone, "
     "where F = 16 W/(3 eps^2 a2), a2 = 47/60 or 1/2 by interpolation, alpha = 3 sqrt(2) xi / mu, xi = eps/sqrt(16 W), and zeta is the given polynomial of T - Tref or (c_l-c_s) . d2f_l/dc2 . (c_l-c_s) / D_l(T), all components and mixed derivatives "
     "included; with three phases the pair mobilities are averaged with the pair weights of the cell. The temperature form divides by the heat capacity, and requests for the other mobilities reach the model unchanged.",
     "all compositions, temperatures, parameters; all mobility kinds; ghost widths listed; 2D and 3D", "compositions, temperatures and parameters",
     ["source/" + n + ".cc" for n in ("KimMobilityStrategy", "KimMobilityStrategyInfMob", "KimMobilityStrategyFiniteMob", "KimMobilityStrategyFiniteMobAntiTrap", "KimMobilityStrategyInfMob3Phases", "KKStools", "SimpleQuatMobilityStrategy", "QuatMobilityStrategy")]
     + ["source/MobilityFactory.h"],
     [("KimMobilityStrategy*::update, evaluateMobility", "source/KimMobilityStrategy.cc"), ("kks_mobility_factor", "source/KKStools.cc")])
prop("C22", "Periodic events happen when their interval passes, once",
     "An output, diagnostic or regridding event given by a number of steps happens at the steps that are multiples of it; one given by a time happens when a multiple of that time lies between the previous and the current time; the first and last "
     "steps are included when asked; no event happens twice at one time, whatever mix of initial, periodic and final requests asks for it; an interval of zero never happens; the input file overrides the defaults, field by field, and unknown kinds are refused.",
     "all times and interval lengths (sequences of up to 3 calls, 4 in the thorough tier; at most 3 multiples passed); step intervals 1 to 3", "times, intervals and steps",
     ["source/EventInterval.cc"],
     [("EventInterval::hasIntervalPassed, includeInitial, includeFinal", "source/EventInterval.cc")])

prop("C23", "Rigid-body forces are pairwise and move each particle by its mean velocity",
     "The force of one particle on another is the volume-weighted sum, over the cells of the finest grids and all processes, of the force law of the input file (Wang's or the gradient form) of the two order parameters; it is antisymmetric, "
     "every pair is counted once, and repeated calls do not accumulate. Each particle's phase, and the composition carried with it, receives the advection term of its own velocity; other fields and cells are untouched.",
     "all order parameters, gradients, weights, compositions and parameters (blocks of 2 to 8 cells, up to 3 particles, 2 levels, 2 patches)", "fields and parameters",
     ["source/RigidBodyForces.cc", "source/WangRigidBodyForces.cc", "source/PhaseRigidBodyForces.cc", "source/RigidBodyMotionRHS.cc", "source/RigidBodyMotionConcRHS.cc", "source/fortran/3d/forces.m4", "source/fortran/2d/forces.m4"],
     [("RigidBodyForces::evaluatePairForces, sumForces", "source/RigidBodyForces.cc"), ("phiphi_forces, wang_forces", "source/fortran/3d/forces.m4")])

prop("C24", "FAC cycles combine level corrections and stop at the stated tolerance",
     "A solve of the FAC preconditioner restricts residuals from fine to coarse levels, smooths the stated number of times before and after, solves the coarsest level, prolongs corrections from coarse to fine, and adds the correction once to the solution of "
     "each level; it stops at the first cycle whose residual norm meets the (absolute or relative) tolerance or at the maximum number of cycles, and reports the number of cycles, residual norm, convergence factors and success that belong to that. The solvers of the phase, eta, concentration and temperature equations (and of the steady temperature) hand it their solution, right-hand side, coefficients and boundary values on the levels of the solve, and are set up again when the mesh changes.",
     "all residuals, corrections, norms and tolerances as uninterpreted values of the operator interface; 1 to 4 levels, up to 5 cycles, up to 3 components", "operator results and tolerances",
     ["source/samrai/FACPreconditioner.cc"] + ["source/%s.cc" % n for n in ("EllipticFACSolver", "PhaseFACSolver", "EtaFACSolver", "ConcFACSolver", "TemperatureFACSolver", "SteadyStateTemperatureStrategy")],
     [("FACPreconditioner::solveSystem, facCycle_Recursive", "source/samrai/FACPreconditioner.cc")])

prop("C25", "The time integrator's vectors, callbacks and settings reach their targets",
     "Every vector operation offered to the integrator computes what its name says, over all components, patches, levels, with control volumes and aliasing; every callback of the integrator reaches the same operation of the application with its "
     "own arguments and returns its status; every setting (method, tolerances, limits of order, steps, step sizes, preconditioning) reaches the integrator, before or after initialisation; and every queried statistic is the one of its name.",
     "all field values, scalars and settings (2 components, 2 levels, 2 patches)", "fields, scalars and settings",
     ["source/samrai/CVODESolver.cc", "source/samrai/CVODESolver.h", "source/samrai/Sundials_SAMRAIVector.cc", "source/samrai/SundialsAbstractVector.cc", "source/samrai/CVODEAbstractFunctions.cc"],
     [("CVODESolver::initializeCVODE, reInitializeCVODE", "source/samrai/CVODESolver.cc"), ("Sundials_SAMRAIVector", "source/samrai/Sundials_SAMRAIVector.cc")])


prop("C26", "Right-hand sides and preconditioners are assembled from current, filled data",
     "A right-hand side evaluation returns, for every evolved field (phase, third phase, quaternion, composition, temperature), exactly the sum of its model's contributions (model terms, moving frame, rigid body motion, divergence of fluxes), "
     "each model reading fields at the requested time and state: coarse cells averaged from finer ones, ghost cells filled with the boundary conditions, gradients, mobilities, phase compositions and diffusion recomputed in order. The preconditioner gives every block solver "
     "the coefficients, right-hand side, coupling terms, zero initial guess and tolerance of that block, and reports non-convergence. A step starts CVODE with the user's settings and leaves its solution, coarsened and dated, as the current state.",
     "all states, coefficients, times (models are uninterpreted functions of the fields they read; 2 levels, 2 patches; option sets listed in the spec)", "states, times and model values",
     ["source/QuatIntegrator.cc", "source/QuatIntegrator.h"],
     [("QuatIntegrator::evaluateRHSFunction, setCoefficients, CVSpgmrPrecondSet, CVSpgmrPrecondSolve, Advance", "source/QuatIntegrator.cc")])
prop("C27", "Hierarchy weights and the quantities reported from them",
     "On every hierarchy, the control-volume weights are the cell volumes on the cells not covered by a finer level and zero under one (and, for diagnostics, zero outside the subdomain asked for), so that the integrals reported - phase and third-phase fractions, compositions "
     "(total and per phase), number density of the phases - are sums over each point of the domain counted once, divided by the volume summed over; minima, maxima and reference phase compositions come from all levels and patches and from the field named; "
     "the interface velocity is the phase rate over the regularised gradient; the moving frame follows the change of solid fraction since its previous adaptation, capped; side coefficients shown are the average over the sides of the cell.",
     "all field values, mesh spacings, subdomain bounds, times; one to three levels, one and two patches, option sets in the spec; 2D and 3D", "fields, hierarchies and subdomains",
     ["source/QuatModel.cc", "source/QuatModel.h", "source/AdaptMovingFrame.cc", "source/toolsSAMRAI.cc"],
     [("QuatModel::computeVectorWeights, zeroOutLowerLevelWeights, evaluatePhaseFraction, evaluateIntegralPhaseConcentration, setRefPhaseConcentrations...", "source/QuatModel.cc"), ("AdaptMovingFrame::adaptVelocity", "source/AdaptMovingFrame.cc")])
prop("C28", "Mesh refinement tags the fronts and carries every field to the new mesh",
     "Cells are tagged for refinement exactly where the change over one cell of the order parameter, third phase or orientation selected by the options reaches its threshold, on every patch, with no other cell tagged. "
     "A new level takes every evolved field from the level it replaces where that one covers it and from the next coarser level elsewhere; scratch fields are filled (interior, neighbours, coarse-fine boundaries, physical boundaries) from the current fields at the current time, coarse data are averaged from the finer data that cover them, "
     "weights, free energies and crystal symmetry rotations are those of the new mesh, and the integrator and grains are told of each level.",
     "all field values, thresholds and times; one to three levels, one and two patches, option sets in the spec; 2D and 3D", "fields, thresholds, hierarchies and regrid sequences",
     ["source/QuatModel.cc", "source/QuatModel.h", "source/PFModel.cc"],
     [("QuatModel::applyGradientDetector, initializeLevelData, resetHierarchyConfiguration, Regrid, copyCurrentToScratch, initializeRefineCoarsenAlgorithms", "source/QuatModel.cc"), ("PFModel::Regrid", "source/PFModel.cc")])
prop("C29", "Runs advance, write, stop and resume as scheduled",
     "A run advances until the end time or the number of cycles asked for, one step per cycle, with outputs, restart files, grain diagnostics, regridding (and the initial and final ones) at exactly the cycles and times of their schedules, in the documented order, each showing the time and cycle then reached. "
     "Before each step the model refreshes reference compositions, the fundamental orientations and their rotations on schedule, and afterwards the heat capacity. A restart file contains every field that evolves and the time, cycle, step, limits and mesh state; a run resumed from it continues with the same "
     "steps and outputs as one that was not interrupted, except for limits overridden by its input; inputs without an end are refused.",
     "all times, steps, limits and intervals; up to 3 steps per run; option sets in the spec", "schedules, step sequences and restart points",
     ["source/PFModel.cc", "source/PFModel.h", "source/EventInterval.cc", "source/QuatModel.cc"],
     [("PFModel::Run, getFromInput, getFromRestart, putToRestart", "source/PFModel.cc"), ("QuatModel::Advance, registerPatchDataForRestart", "source/QuatModel.cc")])
prop("C30", "Orientation evolution operators keep quaternions on the sphere",
     "The right-hand side of the orientation equation is minus the mobility times the divergence of the flux (face coefficient times the difference, or the gradient, of the orientation at each side, the upper ones turned into the frame of the cell by the rotation recorded there), less its component along q: q.dq/dt = 0 for orientations of more "
     "than one component. The implicit step of its preconditioner uses the residual f - q - gamma M^(1/2) div(D grad(M^(1/2) q)) with the coefficients set last, scales its right-hand side by M^(-1/2) and its solution by M^(1/2), "
     "projects errors onto the tangent of the sphere and corrections onto the sphere, and is set up again when the mesh changes.",
     "all orientations with nonzero norm, mobilities, coefficients and time steps; depths 1, 2, 4; one and two patches, ghost widths and options in the spec; symmetry in 2D (3D is refused by the code); one level", "orientations, coefficients and rotation indices",
     ["source/QuatFACOps.cc", "source/QuatSysSolver.cc"] + both("quatfacops"),
     [("QuatFACOps::evaluateRHS, computeCompositeResidualOnLevel, setOperatorCoefficients", "source/QuatFACOps.cc"), ("QuatSysSolver::solveSystem, evaluateRHS, applyProjection", "source/QuatSysSolver.cc")])
prop("C31", "Physical boundary conditions hold at the boundary at all times",
     "After a fill, in the cells beyond each face of the domain, every component of the order parameters, third phase, orientation, composition, temperature and partition coefficient takes the value by which a u + b du/dn = g holds at the face, with the a, b, g its own entry of the input gives for that face; cells inside, and fields without conditions, keep their values. "
     "Where the entry names tables of times, a and b follow the type of the table and g is interpolated linearly between the times around the fill time, at any order of calls and for each object on its own table; times outside it are refused. Rescaling the temperature rescales the g of all its faces and times, nothing else.",
     "all field values, coefficients, tables (lengths 2 to 15) and times, mesh spacings; fields present and depths in the spec; one and two patches, one and two levels; 2D and 3D", "fields, coefficients, tables and fill times",
     ["source/QuatRefinePatchStrategy.cc", "source/PartitionCoeffRefinePatchStrategy.cc", "source/TimeLocationIndexRobinBcCoefs.cc", "source/CartesianRobinBcHelperWithDepth.cc"],
     [("QuatRefinePatchStrategy::setPhysicalBoundaryConditions", "source/QuatRefinePatchStrategy.cc"), ("TimeLocationIndexRobinBcCoefs::setBcCoefs", "source/TimeLocationIndexRobinBcCoefs.cc"), ("CartesianRobinBcHelperWithDepth::setBoundaryValuesInCells", "source/CartesianRobinBcHelperWithDepth.cc")])
