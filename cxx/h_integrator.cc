// assembly of right-hand sides and preconditioners by the time integrator's application.  The models themselves are
// uninterpreted functions of the fields they are handed, so that a stale, unfilled or mixed up field shows.
#include "stubs.h"
#include <functional>
#include "CVODESolver.h"
#include "QuatIntegrator.h"
#include "QuatModel.h"
#include "PhaseFACSolver.h"
#include "EtaFACSolver.h"
#include "ConcFACSolver.h"
#include "TemperatureFACSolver.h"
#include "QuatGradStrategy.h"
#include "QuatMobilityStrategy.h"
#include "QuatRefinePatchStrategy.h"
#include "CompositionRHSStrategy.h"
#include "EBSCompositionRHSStrategy.h"
#include "KKSCompositionRHSStrategy.h"
#include "WangSinteringCompositionRHSStrategy.h"
#include "BeckermannCompositionRHSStrategy.h"
#include "PhaseConcentrationsStrategy.h"
#include "DeltaTemperatureFreeEnergyStrategy.h"
using namespace fx;
typedef QuatModelParameters QP;
typedef solv::SAMRAIVectorReal<double> Vec;
typedef std::shared_ptr<hier::PatchHierarchy> PH;
typedef std::vector<int> V;
void copyDatabase(std::shared_ptr<SAMRAI::tbox::Database>, boost::property_tree::ptree&) {}
static void push(std::vector<double>& a, hier::Patch& p, int id, const hier::Index& i, bool around)
{
   auto d = cd(p, id);
   if (d->getGhostBox().contains(i))
      for (int k = 0; k < d->getDepth(); k++) a.push_back((*d)(pdat::CellIndex(i), k));
   if (around && d->getGhostCellWidth()[0] > 0)
      for (int x = 0; x < NDIM; x++) for (int s = -1; s < 2; s += 2) for (int k = 0; k < d->getDepth(); k++) a.push_back((*d)(pdat::CellIndex(nb(i, x, s)), k));
}
static void pushside(std::vector<double>& a, hier::Patch& p, int id, const hier::Index& i)
{
   auto d = sd(p, id);
   for (int x = 0; x < NDIM; x++) for (int s = 0; s < 2; s++) for (int k = 0; k < d->getDepth(); k++) a.push_back(d->getArrayData(x)(nb(i, x, s), k));
}
#define HPATCHES(h, p) for (int hl = (h)->getFinestLevelNumber(); hl >= 0; hl--) for (auto hp = (h)->getPatchLevel(hl)->begin(); hp != (h)->getPatchLevel(hl)->end(); ++hp) for (hier::Patch* p = &**hp; p; p = nullptr)
// out = name(cells of `in` and their neighbours, sides of `sides`, `extra`), cell by cell (added to it if asked)
static void put(hier::Patch& p, int out, const std::string& n, const V& in, const std::vector<double>& extra = {}, const V& sides = {}, bool add = false, bool around = true)
{
   auto o = cd(p, out);
   for (auto& i : p.getBox()) {
      std::vector<double> a(extra);
      for (int id : in) if (id >= 0) push(a, p, id, i, around);
      for (int id : sides) if (id >= 0) pushside(a, p, id, i);
      for (int k = 0; k < o->getDepth(); k++) {
         R v = fn(lab(n, k), a);
         (*o)(pdat::CellIndex(i), k) = add ? R((*o)(pdat::CellIndex(i), k) + v) : v;
      }
   }
}
static void puth(const PH& h, int out, const std::string& n, const V& in, const std::vector<double>& extra = {}, const V& sides = {}, bool add = false, bool around = true)
{
   HPATCHES(h, p) put(*p, out, n, in, extra, sides, add, around);
}
// sides from the two cells they separate
static void puts(hier::Patch& p, int out, const std::string& n, const V& in, const std::vector<double>& extra = {}, const V& sides = {}, bool add = false)
{
   auto o = sd(p, out);
   for (int x = 0; x < NDIM; x++) for (auto& i : pdat::SideGeometry::toSideBox(p.getBox(), x)) {
      std::vector<double> a(extra);
      for (int id : in) if (id >= 0) { push(a, p, id, nb(i, x, -1), false); push(a, p, id, i, false); }
      for (int id : sides) if (id >= 0) for (int k = 0; k < sd(p, id)->getDepth(); k++) a.push_back(sd(p, id)->getArrayData(x)(i, k));
      for (int k = 0; k < o->getDepth(); k++) {
         R v = fn(lab(n, x, k), a);
         o->getArrayData(x)(i, k) = add ? R(o->getArrayData(x)(i, k) + v) : v;
      }
   }
}
static void putsh(const PH& h, int out, const std::string& n, const V& in, const std::vector<double>& extra = {}, const V& sides = {}) { HPATCHES(h, p) puts(*p, out, n, in, extra, sides); }
// ghost cells at the boundary of the domain: a function of the cell inside, the side and the time
static void bc(hier::Patch& p, int id, const R& time)
{
   auto d = cd(p, id);
   auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
   for (int x = 0; x < NDIM; x++) for (int s = 0; s < 2; s++) {
      if (!g->touch[x][s]) continue;
      for (auto& i : p.getBox()) {
         if (i[x] != (s ? p.getBox().upper(x) : p.getBox().lower(x))) continue;
         for (int k = 0; k < d->getDepth(); k++) (*d)(pdat::CellIndex(nb(i, x, s ? 1 : -1)), k) = fn("boundary", {(*d)(pdat::CellIndex(i), k), double(2 * x + s), time});
      }
   }
}
static R boundary_factor;
QuatRefinePatchStrategy::QuatRefinePatchStrategy(const std::string&, std::shared_ptr<tbox::Database>, const int a, const int b, const int c, const int d, const int e, const int g, const double factor) : d_phase_id(a), d_eta_id(b), d_quat_id(c), d_conc_id(d), d_temperature_id(e), d_nghosts(g) { boundary_factor = factor; }
QuatRefinePatchStrategy::~QuatRefinePatchStrategy() {}
void QuatRefinePatchStrategy::setPhysicalBoundaryConditions(hier::Patch& p, const double t, const hier::IntVector&) { for (int id : {d_phase_id, d_eta_id, d_quat_id, d_conc_id, d_temperature_id}) if (id >= 0) bc(p, id, t); }
struct DotBc : solv::CartesianRobinBcHelper {
   int id;
   DotBc(int i) : solv::CartesianRobinBcHelper(tbox::Dimension(NDIM), "dot"), id(i) {}
   void setPhysicalBoundaryConditions(hier::Patch& p, const double t, const hier::IntVector&) { bc(p, id, t); }
};

// ---------------------------------------------------------------- the models
struct Ids {      // fields, with -1 for those absent
   int phi, eta, quat, conc, T;                         // what the models read
   int cl, ca, cb, mobility, emobility, qmobility, qmobderiv, cp, fl, fa, fb;
   int ptmobility, gcell, gside, gsidecopy, gmod, qderiv, diffusion, flux, dphidt, k, velocity, vdiffs, vgrad;
};
static Ids* I = nullptr;
static std::string seen;             // what the integrator asked for beyond fields
struct PhaseRhs : PhaseRHSStrategy {
   static void model(const PH& h, const Ids& i, const R& t, int rhs) { puth(h, rhs, "phase_rhs", {i.phi, i.eta, i.conc, i.T, i.cl, i.ca, i.mobility, i.gmod, i.k}, {t}); }
   void evaluateRHS(const double t, std::shared_ptr<hier::PatchHierarchy> h, const int rhs, const bool flag) { model(h, *I, t, rhs); seen += flag ? "phase+;" : "phase-;"; }
   void setup(std::shared_ptr<hier::PatchHierarchy>) {}
};
struct MobilityMock : QuatMobilityStrategy {
   static void phase(const PH& h, const Ids& i, int phi, int m, const R& t) { puth(h, m, "mobility", {phi, i.cl, i.ca, i.T}, {t}); }
   void computePhaseMobility(const PH h, int& phi, int& m, const double t, const CACHE_TYPE c) { phase(h, *I, phi, m, t); if (c != FORCE) seen += "cached;"; }
   void computeEtaMobility(const PH h, int& eta, int& m, const double t, const CACHE_TYPE c) { puth(h, m, "eta_mobility", {eta}, {t}); if (c != FORCE) seen += "cached;"; }
   void computeQuatMobility(const PH h, int& phi, int& m, const double t, const CACHE_TYPE c) { puth(h, m, "quat_mobility", {phi}, {t}); if (c != FORCE) seen += "cached;"; }
   void computeQuatMobilityDeriv(const PH h, int& phi, int& m, const double t, const CACHE_TYPE c) { puth(h, m, "quat_mobility_deriv", {phi}, {t}); if (c != FORCE) seen += "cached;"; }
   void computePhaseTemperatureMobility(const PH h, int& a, int& b, int& m) { puth(h, m, "phase_temperature_mobility", {a, b}); }
};
void QuatMobilityStrategy::computePhaseTemperatureMobility(const PH, int&, int&, int&) { seen += "base;"; }
static int diffs_id;
struct Grad : QuatGradStrategy {
   bool isSymmetryAware() { return false; }
   void computeDiffs(const std::shared_ptr<hier::PatchLevel>, int&, int&, const double) { seen += "level;"; }
   void computeGradCell(const std::shared_ptr<hier::PatchLevel>, int&, int&, const double) { seen += "level;"; }
   void computeGradSide(const std::shared_ptr<hier::PatchLevel>, int&, int&, const double) { seen += "level;"; }
   void computeDiffs(const PH h, int& q, int& d, const double t, const CACHE_TYPE c) { if (d < 0) d = diffs_id; putsh(h, d, "diffs", {q}, {t}); if (c != FORCE) seen += "cached;"; }
   void computeGradCell(const PH h, int& d, int& g, const double t, const CACHE_TYPE c) { puth(h, g, "grad_cell", {}, {t}, {d}); if (c != FORCE) seen += "cached;"; }
   void computeGradSide(const PH h, int& d, int& g, const double t, const CACHE_TYPE c) { putsh(h, g, "grad_side", {}, {t}, {d}); if (c != FORCE) seen += "cached;"; }
   void computeGradModulus(const PH h, int& g, int& m, const double t, const CACHE_TYPE c) { puth(h, m, "modulus_cells", {g}, {t}); if (c != FORCE) seen += "cached;"; }
   void computeGradModulusFromSides(const PH h, int& g, int& m, const double t, const CACHE_TYPE c) { puth(h, m, "modulus_sides", {}, {t}, {g}); if (c != FORCE) seen += "cached;"; }
};
struct PhaseConc : PhaseConcentrationsStrategy {
   PhaseConc(const Ids& i) : PhaseConcentrationsStrategy(i.cl, i.ca, i.cb, i.eta >= 0) {}
   int computePhaseConcentrationsOnPatch(std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<hier::Patch>) { return 0; }
};
PhaseConcentrationsStrategy::PhaseConcentrationsStrategy(const int l, const int a, const int b, const bool t) : d_conc_l_id(l), d_conc_a_id(a), d_conc_b_id(b), d_with_third_phase(t) {}
void PhaseConcentrationsStrategy::computePhaseConcentrations(const PH h, const int T, const int phi, const int eta, const int c) { puth(h, I->cl, "c_l", {T, phi, eta, c, I->k}); puth(h, I->ca, "c_a", {T, phi, eta, c, I->k}); }
struct Partition : PartitionCoefficientStrategy {
   Partition(const Ids& i) : PartitionCoefficientStrategy(i.velocity, i.T, i.k) {}
   void evaluate(hier::Patch&, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>) {}
};
void PartitionCoefficientStrategy::evaluate(const PH h) { puth(h, I->k, "partition", {I->T, I->velocity}); }
struct Temp : TemperatureStrategy {
   double getCurrentMaxTemperature(PH, const double) { return 0.; }
   double getCurrentMinTemperature(PH, const double) { return 0.; }
   double getCurrentAverageTemperature(PH, const double) { return 0.; }
   static void model(const PH& h, int T, const R& t) { HPATCHES(h, p) { auto d = cd(*p, T); for (auto& i : d->getGhostBox()) { std::vector<double> a; for (int x = 0; x < NDIM; x++) a.push_back(double(i[x])); a.push_back(t); (*d)(pdat::CellIndex(i), 0) = fn("given_temperature", a); } } }
   void setCurrentTemperature(PH h, const double t) { model(h, I->T, t); }
};
struct Cp : HeatCapacityStrategy { void setCurrentValue(PH h) { puth(h, I->cp, "heat_capacity", {I->T, I->conc}); } };
struct TRhs : TemperatureRHSStrategy {
   static void model(hier::Patch& p, const Ids& i, int rhs, int dot) { put(p, rhs, "temperature_rhs", {i.T, i.cp, dot}); }
   void evaluateRHS(std::shared_ptr<hier::Patch> p, const int rhs, const int dot) { model(*p, *I, rhs, dot); }
};
void TemperatureRHSStrategy::evaluateRHS(PH h, const int rhs, const int dot) { HPATCHES(h, p) { std::shared_ptr<hier::Patch> q(*hp); evaluateRHS(q, rhs, dot); } }
struct Flux : CompositionRHSStrategy {
   Flux() : CompositionRHSStrategy("a") {}
   static void model(hier::Patch& p, const Ids& i, int flux) { puts(p, flux, "flux", {i.conc, i.phi, i.T}, {}, {i.diffusion}); }
   static void gradT(hier::Patch& p, int T, int flux) { puts(p, flux, "flux_gradT", {T}, {}, {}, true); }
   static void trap(hier::Patch& p, int phi, int dot, const R& a, int flux) { puts(p, flux, "antitrapping", {phi, dot}, {a}, {}, true); }
   void computeFluxOnPatch(hier::Patch& p, const int flux) { model(p, *I, flux); }
   void addFluxFromGradTonPatch(hier::Patch& p, const int T, const int flux) { gradT(p, T, flux); }
   void addFluxFromAntitrappingonPatch(hier::Patch& p, const int phi, const int dot, const double a, const int flux) { trap(p, phi, dot, a, flux); }
};
CompositionRHSStrategy::CompositionRHSStrategy(const std::string& a) : d_avg_func_type(a) {}
void CompositionRHSStrategy::addFluxFromGradTonPatch(hier::Patch& p, const int T, const int f) { Flux::gradT(p, T, f); }
void CompositionRHSStrategy::addFluxFromAntitrappingonPatch(hier::Patch& p, const int phi, const int dot, const double a, const int f) { Flux::trap(p, phi, dot, a, f); }
static void diffuse(const PH& h, const Ids& i, int kind, const R& t) { putsh(h, i.diffusion, lab("diffusion", kind), {i.phi, i.T, i.conc, i.cl, i.ca}, {t}); }
#define FLUXES(C) void C::computeFluxOnPatch(hier::Patch& p, const int f) { Flux::model(p, *I, f); }
FLUXES(EBSCompositionRHSStrategy) FLUXES(KKSCompositionRHSStrategy) FLUXES(WangSinteringCompositionRHSStrategy) FLUXES(BeckermannCompositionRHSStrategy)
void EBSCompositionRHSStrategy::addFluxFromAntitrappingonPatch(hier::Patch& p, const int phi, const int dot, const double a, const int f) { Flux::trap(p, phi, dot, a, f); }
void EBSCompositionRHSStrategy::setDiffusionCoeff(const PH, const double) { seen += "base;"; }
void EBSCompositionRHSStrategy::setDiffusionCoeffForPreconditioner(const PH) { seen += "precond;"; }
void KKSCompositionRHSStrategy::setDiffusionCoeff(const PH h, const double t) { diffuse(h, *I, 1, t); }
void WangSinteringCompositionRHSStrategy::setDiffusionCoeff(const PH h, const double t) { diffuse(h, *I, 2, t); }
void BeckermannCompositionRHSStrategy::setDiffusionCoeff(const PH h, const double t) { diffuse(h, *I, 3, t); }
EBSCompositionRHSStrategy::EBSCompositionRHSStrategy(const int, const unsigned short, const int, const int, const int, const int, const int, const int, const int, const std::vector<int>, const std::string& a, std::shared_ptr<FreeEnergyStrategy>, std::shared_ptr<CompositionDiffusionStrategy>, const std::string) : CompositionRHSStrategy(a) {}
KKSCompositionRHSStrategy::KKSCompositionRHSStrategy(const int, const int, const int, const int, const int, const int, const int, const double, const double, const double, const double, const Thermo4PFM::EnergyInterpolationType, const std::string& a) : CompositionRHSStrategy(a) {}
WangSinteringCompositionRHSStrategy::WangSinteringCompositionRHSStrategy(const int, const int, const int, const int, const double, const double, const double, const double, const std::string& a, std::shared_ptr<CompositionDiffusionStrategy>) : CompositionRHSStrategy(a), d_conc_id(0), d_phase_id(0), d_temperature_id(0), d_diffusion_id(0), d_mobility(0.), d_A(0.), d_B(0.), d_beta_rho(0.) {}
BeckermannCompositionRHSStrategy::BeckermannCompositionRHSStrategy(QuatModel*, const int, const int, const int, const int, const int, const double, const double, const Thermo4PFM::ConcInterpolationType, const std::string& a) : CompositionRHSStrategy(a) {}
struct Diffusion : CompositionDiffusionStrategy {
   Diffusion() : CompositionDiffusionStrategy(DiffusionInterpolationType::LINEAR) {}
   void setDiffusion(const PH h, const int T, const int phi) { putsh(h, I->diffusion, "diffusion_ebs", {phi, T}); }
};
void QuatModel::setDiffusionVisit(PH) {}
void QuatModel::fillPartitionCoeffGhosts() { seen += "ghosts of partition;"; }
void QuatModel::computePhaseDiffs(const PH h, int& phi, int& d, const double t, const CACHE_TYPE) { d = I->vdiffs; putsh(h, d, "phase_diffs", {phi}, {t}); }
void QuatModel::computePhaseGradCell(const PH h, int& d, int& g, const double t, const CACHE_TYPE) { g = I->vgrad; puth(h, g, "phase_grad", {}, {t}, {d}); }
void QuatModel::computeVelocity(PH h, int dot) { puth(h, I->velocity, "velocity", {dot, I->vgrad}); }
static bool rbfresh = false;
struct Rb : RigidBodyForces {
   Rb(const QP& p) : RigidBodyForces(p, 0, 0) {}
   void evaluatePairForces(std::shared_ptr<hier::Patch>, std::vector<double>&) {}
};
RigidBodyForces::RigidBodyForces(const QP& p, const int a, const int b) : d_model_parameters(p), d_phase_id(a), d_weight_id(b) {}
void RigidBodyForces::evaluatePairForces(const PH) { rbfresh = true; }
static R pairforce(int i, int j, int d) { return real(lab("force on", i, "by", j, "along", d)); }
void RigidBodyForces::getPairForce(const short i, const short j, std::array<double, NDIM>& f) { for (int d = 0; d < NDIM; d++) f[d] = rbfresh ? pairforce(i, j, d) : R(0.); }
static std::vector<double> flat(const std::vector<std::array<double, NDIM> >& f) { std::vector<double> a; for (auto& x : f) for (auto& y : x) a.push_back(y); return a; }
RigidBodyMotionRHS::RigidBodyMotionRHS(const int a, const int b, const double m) : d_data_id(a), d_weight_id(b), d_mobility(m) {}
RigidBodyMotionConcRHS::RigidBodyMotionConcRHS(const int a, const int b, const double m) : d_data_id(a), d_weight_id(b), d_mobility(m) {}
void RigidBodyMotionRHS::addRHS(PH h, const int rhs, const std::vector<std::array<double, NDIM> >& f) { puth(h, rhs, "motion", {d_data_id}, flat(f), {}, true); }
void RigidBodyMotionConcRHS::addRHS(PH h, const int rhs, const std::vector<std::array<double, NDIM> >& f) { puth(h, rhs, "motion_conc", {d_data_id}, flat(f), {}, true); }
MovingFrameRHS::MovingFrameRHS(const int id, const bool) : d_data_id(id) {}
void MovingFrameRHS::addRHS(PH h, const int rhs, const double v) { puth(h, rhs, "frame", {d_data_id}, {v}, {}, true); }
DerivDiffusionCoeffForQuat::DerivDiffusionCoeffForQuat(std::shared_ptr<geom::CartesianGridGeometry>, const double, const double, const int, std::string, std::string, std::string, const int id) : d_quat_diffusion_deriv_id(id), d_quat_diffusion_deriv_coarsen(tbox::Dimension(NDIM)) {}
void DerivDiffusionCoeffForQuat::setDerivDiffusion(const PH h, const int phi, const int T, const int g) { putsh(h, d_quat_diffusion_deriv_id, "diffusion_deriv", {phi, T}, {}, {g}); }
static PH hier_;
void QuatSysSolver::evaluateRHS(const int phi, const int T, const int g, const int gc, const int rot, const int m, const int q, int rhs, const bool use) { (void)rot; puth(hier_, rhs, "quat_rhs", {phi, T, m, q}, {double(use)}, {g, gc}); }

// linear solvers: the correction is a function of the coefficients they were given, the right-hand side, the initial
// guess and the tolerance
static const char* const SOLVERS[] = {"phase", "eta", "conc", "temperature"};
alignas(64) static char solver_raw[4][1 << 14], fac_raw[1 << 14];
struct Solver { int coef; };
static Solver solvers[4], dtdphi, qsolver;
static R qtol;
static std::string fails;              // the solver that does not converge
static Solver& solver_of(const void* p) { return solvers[((const char*)p - solver_raw[0]) / sizeof(solver_raw[0])]; }
static const std::vector<double> tag(const std::string& s) { return {double(s.size()), double(int(s.empty() ? 0 : s[0]))}; }
static std::vector<double> operator+(std::vector<double> a, const std::vector<double>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void coef_phase(int c, int phi, int m, const R& e, const R& g, const R& w, const std::string& t) { puth(hier_, c, "coef_phase", {phi, m}, std::vector<double>{e, g, w} + tag(t), {}, false, false); }
static void coef_eta(int c, int phi, int eta, int m, const R& e, const R& g, int f, const R& w, const std::string& t) { puth(hier_, c, "coef_eta", {phi, eta, m}, std::vector<double>{e, g, double(f), w} + tag(t), {}, false, false); }
static void coef_conc(int c, const R& g, const V& d, const R& m) { puth(hier_, c, "coef_conc", {}, {g, m}, d); }
static void coef_temperature(int c, const R& m, const R& a, const R& d) { puth(hier_, c, "coef_temperature", {}, {m, a, d}); }
static void coef_dtdphi(int c, int phi, int m, const R& e, const R& l, const R& w, const std::string& t) { puth(hier_, c, "coef_dtdphi", {phi, m}, std::vector<double>{e, l, w} + tag(t), {}, false, false); }
static void coef_quat(int c, const R& g, int m, int md, int phi, int T, int dd, int gq, int q) { if (!cfg("dquatdphi", 1)) md = dd = -1; puth(hier_, c, "coef_quat", {m, md, phi, T, q}, {g}, {dd, gq}, false, false); }
static void solve(int k, int u, int f, int coef, const R& tol) { puth(hier_, u, lab("solve", k), {coef, f, u}, {tol}, {}, false, false); }
void PhaseFACSolver::setOperatorCoefficients(const int phi, const int m, const double e, const double g, const double w, const std::string t) { coef_phase(solver_of(this).coef, phi, m, e, g, w, t); }
void EtaFACSolver::setOperatorCoefficients(const int phi, const int eta, const int m, const double e, const double g, const Thermo4PFM::EnergyInterpolationType f, const double w, const std::string t) { coef_eta(solver_of(this).coef, phi, eta, m, e, g, int(f), w, t); }
void ConcFACSolver::setOperatorCoefficients(const double g, const V& d, const double m) { coef_conc(solver_of(this).coef, g, d, m); }
void TemperatureFACSolver::setOperatorCoefficients(const double m, const double a, const double d) { coef_temperature(solver_of(this).coef, m, a, d); }
void PhaseTemperatureFACOps::setOperatorCoefficients(const int phi, const int m, const double e, const double l, const double w, const std::string t) { coef_dtdphi(dtdphi.coef, phi, m, e, l, w, t); }
void PhaseTemperatureFACOps::multiplyDTDPhiBlock(const int phi, const int out) { puth(hier_, out, "dtdphi", {dtdphi.coef, phi}, {}, {}, false, false); }
bool EllipticFACSolver::solveSystem(const int u, const int f)
{
   const int k = &solver_of(this) - solvers;
   solve(k, u, f, solvers[k].coef, d_fac_precond.d_residual_tolerance);
   return fails != SOLVERS[k];
}
static std::vector<V> resets;          // solver, solution, right-hand side
void EllipticFACSolver::resetSolverState(const int u, const int f, const PH) { resets.push_back({int(&solver_of(this) - solvers), u, f}); }
void QuatSysSolver::resetSolverState(const int u, const int f, const PH) { resets.push_back({9, u, f}); }
void QuatSysSolver::setOperatorCoefficients(const double g, const int m, const int md, const int phi, const int T, const int dd, const int gq, const int q) { coef_quat(qsolver.coef, g, m, md, phi, T, dd, gq, q); }
bool QuatSysSolver::solveSystem(const int u, const int f) { solve(9, u, f, qsolver.coef, d_fac_solver.d_residual_tolerance); return fails != "quat"; }
void QuatSysSolver::multiplyDQuatDPhiBlock(const int phi, const int out) { puth(hier_, out, "dqdphi", {qsolver.coef, phi}, {}, {}, false, false); }
void QuatSysSolver::applyProjection(const int q, const int corr, const int err) { puth(hier_, corr, "projection", {q, err}); puth(hier_, err, "projected_error", {q, err}); }

// ---------------------------------------------------------------- set-up
struct Setup {
   Mesh m;
   QP par;
   Ids i, r;                          // of the integrator, of the reference
   std::map<std::string, int> y, dot; // components of the state and of its derivative
   std::unique_ptr<QuatIntegrator> qi;
   std::shared_ptr<Vec> vy, vdot;
   std::vector<std::string> order;
   bool phase, eta, conc, quat, unsteady;
   R time, alpha, vel, mob;
   int outs_(const std::string& n) { return out(m, "coefficients_" + n, 0); }
   static std::shared_ptr<hier::Variable> var(int id) { std::shared_ptr<hier::Variable> a; hier::VariableDatabase::getDatabase()->mapIndexToVariable(id, a); return a; }
   Ids fields()
   {
      Ids f;
      memset(&f, 0xff, sizeof(f));
      const int nq = cfg("qlen", 2), nc = cfg("nc", 1);
      if (phase) { f.phi = out(m, "phi", 1, cfg("np", 1)); f.mobility = out(m, "mobility", 0); f.dphidt = out(m, "dphidt", 1, cfg("np", 1)); f.gmod = quat ? out(m, "gmod", 0) : -1; }
      if (eta) { f.eta = out(m, "eta", 1); f.emobility = out(m, "emobility", 0); }
      if (quat) { f.quat = out(m, "quat", 1, nq); f.qmobility = out(m, "qmobility", 0); f.qmobderiv = out(m, "qmobderiv", 0); f.gcell = out(m, "gcell", 0, nq); f.gside = outs(m, "gside", 0, nq); f.gsidecopy = side(m, "gsidecopy", 0, nq); f.qderiv = outs(m, "qderiv", 0); }
      if (conc) { f.conc = out(m, "conc", 1, nc); f.cl = out(m, "cl", 0, nc); f.ca = out(m, "ca", 0, nc); f.diffusion = side(m, "diffusion", 0, nc); f.flux = outs(m, "flux", 0, nc); f.k = cfg("partition") ? out(m, "k", 0) : -1; }
      f.T = out(m, "T", 1);
      f.cp = cfg("dTdphi") ? cell(m, "cp", 0) : out(m, "cp", 0);
      if (cfg("dTdphi")) f.ptmobility = out(m, "ptmobility", 0);
      f.velocity = cell(m, "velocity", 0);
      if (phase) { f.vdiffs = outs(m, "vdiffs", 0, cfg("np", 1)); f.vgrad = out(m, "vgrad", 0); }
      return f;
   }
   Setup()
   {
      m = grid(box(2), cfg("patches", 1), cfg("lo"));
      if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
      hier_ = m.h;
      phase = cfg("phase", 1); eta = cfg("eta"); conc = cfg("conc"); quat = cfg("quat"); unsteady = cfg("unsteady");
      par.d_norderp_A = par.d_norderp = cfg("np", 1);
      par.d_norderp_B = 0;
      if (cfg("rb")) { par.d_norderp_A = par.d_norderp - 1; }
      par.d_H_parameter = quat ? R(1.) : R(-1.);
      par.d_with_heat_equation = unsteady;
      par.d_with_steady_temperature = false;
      vel = cfg("frame") ? real("frame velocity", 0.5, 2.) : R(0.);
      par.d_moving_frame_velocity = cfg("frame") ? R(1.) : R(0.);
      par.d_moving_frame_adapt = false;
      par.d_rhs_visit_output = false;
      par.d_with_rb_motion = cfg("rb");
      par.d_quat_grad_modulus_type = cfg("cells") ? "cells" : "sides";
      par.d_conc_model = conc ? QP::ConcModel::CALPHAD : QP::ConcModel::UNDEFINED;
      par.d_partition_coeff = cfg("partition") ? "uniform" : "none";
      par.d_conc_rhs_strategy = QP::ConcRHSstrategy::EBS;
      par.d_with_velocity = cfg("velocity");
      par.d_with_three_phases = false;
      par.d_phase_mobility = real_pos("mobility");
      for (int d = 0; d < NDIM; d++) par.d_rb_external_force[d] = real(lab("external force", d));
      i = fields();
      r = fields();
      I = &i;
      seen = "";
      rbfresh = false;
      auto db = std::make_shared<tbox::MemoryDatabase>("db"), bcdb = std::make_shared<tbox::MemoryDatabase>("bc");
      auto idb = db->putDatabase("Integrator");
      idb->putBool("lag_quat_sidegrad", cfg("lag", 1));
      auto C = hier::VariableDatabase::getDatabase()->getContext("CURRENT");
      qi.reset(new QuatIntegrator("integrator", par, (QuatModel*)this, C, C, cfg("qlen", 2), cfg("nc", 1), db, m.geom, bcdb, phase, conc, unsteady, false, cfg("gradT"), cfg("antitrap"), cfg("partition"), false, cfg("symmetry"), cfg("symmetry")));
      auto& q = *qi;
      q.d_with_third_phase = eta;
      q.d_frame_velocity = vel;
      q.d_all_periodic = false;
      q.d_precond_has_dTdphi = false;
      q.d_precond_has_dquatdphi = cfg("dquatdphi", 1);
      time = real("time", 0., 10.);
      q.d_phase_scratch_id = i.phi; q.d_eta_scratch_id = i.eta; q.d_quat_scratch_id = i.quat; q.d_conc_scratch_id = i.conc; q.d_temperature_scratch_id = i.T;
      q.d_phase_mobility_id = i.mobility; q.d_eta_mobility_id = i.emobility; q.d_quat_mobility_id = i.qmobility; q.d_quat_mobility_deriv_id = i.qmobderiv; q.d_cp_id = i.cp;
      if (conc) q.d_conc_pfm_diffusion_id = {i.diffusion};
      q.d_quat_grad_cell_id = i.gcell; q.d_quat_grad_side_id = i.gside; q.d_quat_grad_side_copy_id = i.gsidecopy; q.d_quat_grad_modulus_id = i.gmod; q.d_quat_diffusion_deriv_id = i.qderiv;
      q.d_dphidt_scratch_id = i.dphidt; q.d_flux_conc_id = i.flux; q.d_velocity_id = i.velocity;
      diffs_id = quat ? outs(m, "differences", 0, cfg("qlen", 2)) : -1;
      mob = q.d_conc_mobility = real_pos("conc mobility");
      alpha = q.d_alpha_AT = real("alpha");
      auto rop = std::make_shared<hier::RefineOperator>("CONSTANT_REFINE");
      auto cop = std::make_shared<geom::ConservativeCoarsen>();
      q.d_phase_refine_op = q.d_eta_refine_op = q.d_quat_refine_op = q.d_conc_refine_op = q.d_temperature_refine_op = rop;
      q.d_phase_coarsen_op = q.d_eta_coarsen_op = q.d_quat_coarsen_op = q.d_conc_coarsen_op = q.d_temperature_coarsen_op = cop;
      q.d_phase_rhs_strategy.reset(new PhaseRhs);
      q.d_mobility_strategy.reset(new MobilityMock);
      q.d_quat_grad_strategy = new Grad;
      if (conc) q.d_phase_conc_strategy.reset(new PhaseConc(i));
      if (cfg("partition")) q.d_partition_coeff_strategy = new Partition(i);
      q.d_temperature_strategy.reset(new Temp);
      q.d_heat_capacity_strategy = new Cp;
      q.d_temperature_rhs_strategy.reset(new TRhs);
      if (unsteady && cfg("solvers", 1)) q.d_temperature_sys_solver = std::shared_ptr<TemperatureFACSolver>((TemperatureFACSolver*)solver_raw[3], [](TemperatureFACSolver*) {});
      if (cfg("precond")) {
         if (phase && cfg("solvers", 1)) q.d_phase_sys_solver = std::shared_ptr<PhaseFACSolver>((PhaseFACSolver*)solver_raw[0], [](PhaseFACSolver*) {});
         if (eta && cfg("solvers", 1)) q.d_eta_sys_solver = std::shared_ptr<EtaFACSolver>((EtaFACSolver*)solver_raw[1], [](EtaFACSolver*) {});
         if (conc && cfg("solvers", 1)) q.d_conc_sys_solver = std::shared_ptr<ConcFACSolver>((ConcFACSolver*)solver_raw[2], [](ConcFACSolver*) {});
         for (int k = 0; k < 4; k++) solvers[k].coef = outs_(SOLVERS[k]);
         dtdphi.coef = outs_("dtdphi");
         qsolver.coef = outs_("quat");
         q.d_use_preconditioner = true;
         q.d_precondition_quat = cfg("precquat", 1);
         q.d_precond_has_dPhidT = false;
         q.d_use_gradq_for_flux = false;
         if ((q.d_precond_has_dTdphi = cfg("dTdphi"))) q.d_phase_temperature_fac_ops = std::shared_ptr<PhaseTemperatureFACOps>((PhaseTemperatureFACOps*)new char[1 << 14](), [](PhaseTemperatureFACOps* p) { delete[] (char*)p; });
         q.d_phase_temperature_mobility_id = i.ptmobility;
         q.d_show_phase_sys_stats = q.d_show_eta_sys_stats = q.d_show_conc_sys_stats = q.d_show_quat_sys_stats = q.d_show_temperature_sys_stats = false;
         q.d_epsilon_phase = real("epsilon phase"); q.d_epsilon_eta = real("epsilon eta"); q.d_phase_well_scale = real("phase well"); q.d_eta_well_scale = real("eta well");
         q.d_thermal_diffusivity = real("thermal diffusivity"); q.d_latent_heat = real("latent heat");
         q.d_phase_well_func_type = "double"; q.d_eta_well_func_type = "single";
         if (phase) { q.d_phase_sol_id = out(m, "phase_sol", 1); q.d_phase_rhs_id = out(m, "phase_rhs", 0); }
         if (eta) { q.d_eta_sol_id = out(m, "eta_sol", 1); q.d_eta_rhs_id = out(m, "eta_rhs", 0); }
         if (unsteady) { q.d_temperature_sol_id = out(m, "temperature_sol", 1); q.d_temperature_rhs_id = out(m, "temperature_rhs", 0); }
         if (conc) { q.d_conc_sol_id = out(m, "conc_sol", 1, cfg("nc", 1)); q.d_conc_rhs_id = out(m, "conc_rhs", 0, cfg("nc", 1)); }
         if (quat) { q.d_quat_sol_id = out(m, "quat_sol", 1, cfg("qlen", 2)); q.d_quat_rhs_id = out(m, "quat_rhs", 0, cfg("qlen", 2)); }
      }
      q.d_composition_diffusion_strategy.reset(new Diffusion);
      switch (cfg("flux")) {
         case 1: q.d_composition_rhs_strategy.reset(new KKSCompositionRHSStrategy(0, 0, 0, 0, 0, 0, 0, 0., 0., 0., 0., Thermo4PFM::EnergyInterpolationType::LINEAR, "a")); break;
         case 2: q.d_composition_rhs_strategy.reset(new WangSinteringCompositionRHSStrategy(0, 0, 0, 0, 0., 0., 0., 0., "a", nullptr)); break;
         case 3: q.d_composition_rhs_strategy.reset(new BeckermannCompositionRHSStrategy(nullptr, 0, 0, 0, 0, 0, 0., 0., Thermo4PFM::ConcInterpolationType::LINEAR, "a")); break;
         case 4: q.d_composition_rhs_strategy.reset(new EBSCompositionRHSStrategy(0, 1, 0, 0, 0, 0, 0, 0, 0, V(), "a", nullptr, nullptr, "")); break;
         default: q.d_composition_rhs_strategy.reset(new Flux);
      }
      if (cfg("rb")) { q.d_rigid_body_forces.reset(new Rb(par)); q.d_rb_motion.reset(new RigidBodyMotionRHS(i.phi, 0, 0.)); q.d_rb_motion_conc.reset(new RigidBodyMotionConcRHS(i.phi, 0, 0.)); }
      if (cfg("frame")) { q.d_movingframe_phi.reset(new MovingFrameRHS(i.phi, false)); if (conc) q.d_movingframe_conc.reset(new MovingFrameRHS(i.conc, false)); q.d_movingframe_temp.reset(new MovingFrameRHS(i.T, false)); }
      q.d_all_refine_patch_strategy = new QuatRefinePatchStrategy("all", bcdb, i.phi, i.eta, i.quat, i.conc, unsteady ? i.T : -1, 1, 0.);
      if (phase) q.d_dphidt_bc_helper = new DotBc(i.dphidt);
      if (quat) {
         q.d_quat_sys_solver = std::shared_ptr<QuatSysSolver>((QuatSysSolver*)fac_raw, [](QuatSysSolver*) {});
         q.d_diffusion4quatderiv = std::make_shared<DerivDiffusionCoeffForQuat>(m.geom, 0., 0., 1, "", "", "", i.qderiv);
      }
      if (conc) {
         q.d_flux_conc_coarsen_algorithm.registerCoarsen(i.flux, i.flux, cop);
         q.d_conc_diffusion_coarsen.registerCoarsen(i.diffusion, i.diffusion, cop);
         const int n = m.h->getNumberOfLevels();
         q.d_flux_conc_coarsen_schedule.resize(n);
         q.d_conc_diffusion_coarsen_schedule.resize(n);
         for (int l = 0; l + 1 < n; l++) {
            q.d_flux_conc_coarsen_schedule[l] = q.d_flux_conc_coarsen_algorithm.createSchedule(m.level(l), m.level(l + 1));
            q.d_conc_diffusion_coarsen_schedule[l] = q.d_conc_diffusion_coarsen.createSchedule(m.level(l), m.level(l + 1));
         }
      }
      // the state and its derivative
      if (phase) order.push_back("phase");
      if (eta) order.push_back("eta");
      if (unsteady) order.push_back("temperature");
      if (conc) order.push_back("conc");
      if (quat) order.push_back("quat");
      vy = std::make_shared<Vec>("y", m.h, 0, m.h->getFinestLevelNumber());
      vdot = std::make_shared<Vec>("dot", m.h, 0, m.h->getFinestLevelNumber());
      int n = 0;
      for (auto& o : order) {
         const int depth = o == "phase" ? cfg("np", 1) : o == "quat" ? cfg("qlen", 2) : o == "conc" ? cfg("nc", 1) : 1;
         y[o] = cell(m, "y_" + o, 0, depth);
         dot[o] = out(m, "dot_" + o, 0, depth);
         vy->addComponent(var(y[o]), y[o], -1);
         vdot->addComponent(var(dot[o]), dot[o], -1);
         if (o == "phase") { q.d_phase_component_index = n; q.d_phase_id = y[o]; q.d_phase_var = std::dynamic_pointer_cast<pdat::CellVariable<double> >(var(y[o])); }
         if (o == "eta") { q.d_eta_component_index = n; q.d_eta_id = y[o]; }
         if (o == "temperature") { q.d_temperature_component_index = n; q.d_temperature_id = y[o]; }
         if (o == "conc") { q.d_conc_component_index = n; q.d_conc_id = y[o]; q.d_conc_var = std::dynamic_pointer_cast<pdat::CellVariable<double> >(var(y[o])); }
         if (o == "quat") { q.d_quat_component_index = n; q.d_quat_id = y[o]; }
         n++;
      }
   }
   ~Setup() { delete qi->d_quat_grad_strategy; delete qi->d_heat_capacity_strategy; delete qi->d_partition_coeff_strategy; delete qi->d_all_refine_patch_strategy; if (phase) delete qi->d_dphidt_bc_helper; }
   // ---------------- the reference
   // coarse cells below fine ones hold their averages
   void average(int id)
   {
      for (int l = m.h->getFinestLevelNumber(); l > 0; l--)
         for (auto& c : *m.level(l - 1)) for (auto& f : *m.level(l)) for (auto& x : c->getBox()) {
            hier::Index x0(x);
            for (int a = 0; a < NDIM; a++) x0[a] = 2 * x[a];
            if (!f->getBox().contains(x0)) continue;
            for (int k = 0; k < cd(*c, id)->getDepth(); k++) {
               R s = 0.;
               for (int n = 0; n < (1 << NDIM); n++) { hier::Index z(x0); for (int a = 0; a < NDIM; a++) z[a] += (n >> a) & 1; s = s + (*cd(*f, id))(pdat::CellIndex(z), k); }
               (*cd(*c, id))(pdat::CellIndex(x), k) = s * (1. / (1 << NDIM));
            }
         }
   }
   // interior and ghost cells of dst: the cell of the same level, else of the level below, else the boundary's
   void filled(int dst, int src)
   {
      HPATCHES(m.h, p) {
         auto d = cd(*p, dst);
         for (auto& x : d->getGhostBox()) for (int k = 0; k < d->getDepth(); k++) {
            bool done = false;
            for (auto& q : *m.level(hl)) if (!done && q->getBox().contains(x)) { (*d)(pdat::CellIndex(x), k) = (*cd(*q, src))(pdat::CellIndex(x), k); done = true; }
            if (done || hl == 0) continue;
            hier::Index c(x);
            for (int a = 0; a < NDIM; a++) c[a] = x[a] >= 0 ? x[a] / 2 : (x[a] - 1) / 2;
            for (auto& q : *m.level(hl - 1)) if (!done && q->getBox().contains(c)) { (*d)(pdat::CellIndex(x), k) = (*cd(*q, src))(pdat::CellIndex(c), k); done = true; }
         }
         bc(*p, dst, time);
      }
   }
   std::vector<double> rbforces()
   {
      std::vector<double> f;
      const int n = par.d_norderp_A;
      for (int a = 0; a < n; a++) for (int d = 0; d < NDIM; d++) {
         R s = par.d_rb_external_force[d];
         for (int b = 0; b < n; b++) if (b != a) s = s + pairforce(a, b, d);
         f.push_back(s);
      }
      return f;
   }
   std::map<std::string, int> refy;
   void reference_coefficients(bool fresh)
   {
      Ids* keep = I;
      I = &r;
      if (!unsteady) Temp::model(m.h, r.T, time);
      for (auto& o : order) {
         const int depth = o == "phase" ? cfg("np", 1) : o == "quat" ? cfg("qlen", 2) : o == "conc" ? cfg("nc", 1) : 1;
         refy[o] = cell(m, "y_" + o, 0, depth);
         average(refy[o]);
      }
      if (phase) filled(r.phi, refy["phase"]);
      if (eta) filled(r.eta, refy["eta"]);
      if (quat) filled(r.quat, refy["quat"]);
      if (conc) filled(r.conc, refy["conc"]);
      if (unsteady) filled(r.T, refy["temperature"]);
      if (quat) {
         int d = outs(m, "differences", 0, cfg("qlen", 2));
         putsh(m.h, d, "diffs", {r.quat}, {time});
         puth(m.h, r.gcell, "grad_cell", {}, {time}, {d});
         putsh(m.h, r.gside, "grad_side", {}, {time}, {d});
         if (fresh) putsh(m.h, r.gsidecopy, "grad_side", {}, {time}, {d});
         if (phase) { if (cfg("cells")) puth(m.h, r.gmod, "modulus_cells", {r.gcell}, {time}); else puth(m.h, r.gmod, "modulus_sides", {}, {time}, {r.gside}); }
         if (cfg("dquatdphi", 1)) putsh(m.h, r.qderiv, "diffusion_deriv", {r.phi, r.T}, {}, {r.gsidecopy});
      }
      if (conc) {
         if (cfg("partition")) puth(m.h, r.k, "partition", {r.T, r.velocity});
         puth(m.h, r.cl, "c_l", {r.T, r.phi, r.eta, r.conc, r.k});
         puth(m.h, r.ca, "c_a", {r.T, r.phi, r.eta, r.conc, r.k});
      }
      if (phase) MobilityMock::phase(m.h, r, r.phi, r.mobility, time);
      if (eta) puth(m.h, r.emobility, "eta_mobility", {r.eta}, {time});
      if (cfg("dTdphi")) puth(m.h, r.ptmobility, "phase_temperature_mobility", {r.mobility, r.cp});
      if (quat) { puth(m.h, r.qmobility, "quat_mobility", {r.phi}, {time}); if (cfg("dquatdphi", 1)) puth(m.h, r.qmobderiv, "quat_mobility_deriv", {r.phi}, {time}); }
      I = keep;
   }
   void same(int a, int b, const std::string& what) { if (a >= 0) eqall(m, a, [&](const hier::Index& x, int k) { return Ref{m, b}(x, k); }, what); }
   void sames(int a, int b, const std::string& what) { if (a >= 0) eqalls(m, a, [&](int ax, const hier::Index& x, int k) { return Ref{m, b}(ax, x, k); }, what); }
   void check_coefficients()
   {
      same(i.phi, r.phi, "phase read by the models"); same(i.eta, r.eta, "eta read by the models"); same(i.quat, r.quat, "quaternion read by the models"); same(i.conc, r.conc, "composition read by the models"); same(i.T, r.T, "temperature read by the models");
      sames(i.gside, r.gside, "gradient of the quaternion at sides"); sames(i.gsidecopy, r.gsidecopy, "gradient that diffusion uses"); same(i.gcell, r.gcell, "gradient at cells"); same(i.gmod, r.gmod, "modulus of the gradient");
      same(i.mobility, r.mobility, "phase mobility"); same(i.emobility, r.emobility, "eta mobility"); same(i.qmobility, r.qmobility, "quaternion mobility");
      if (cfg("dquatdphi", 1)) { same(i.qmobderiv, r.qmobderiv, "its derivative"); sames(i.qderiv, r.qderiv, "derivative of diffusion"); }
      same(i.cl, r.cl, "liquid composition"); same(i.ca, r.ca, "solid composition");
      for (auto& o : order) same(y[o], refy[o], "state " + o + ", coarse cells averaged");
   }
};
CASE(rhs)
{
   Setup s;
   auto& m = s.m;
   auto& r = s.r;
   const bool fd = cfg("fd"), lag = cfg("lag", 1), fresh = !fd || !lag;
   auto y = Sundials_SAMRAIVector::createSundialsVector(s.vy), dot = Sundials_SAMRAIVector::createSundialsVector(s.vdot);
   const int rc = fd ? s.qi->evaluateJTimesRHSFunction(s.time, y, dot) : s.qi->evaluateRHSFunction(s.time, y, dot);
   prove(B(rc == 0), "succeeds");
   s.reference_coefficients(fresh);
   std::map<std::string, int> d;
   for (auto& o : s.order) d[o] = out(m, "ref_" + o, 0, o == "phase" ? cfg("np", 1) : o == "quat" ? cfg("qlen", 2) : o == "conc" ? cfg("nc", 1) : 1);
   std::string expect;
   if (s.phase) {
      PhaseRhs::model(m.h, r, s.time, d["phase"]);
      if (cfg("antitrap") || cfg("frame") || s.unsteady) s.filled(r.dphidt, d["phase"]);
      if (cfg("rb")) puth(m.h, d["phase"], "motion", {r.phi}, s.rbforces(), {}, true);
      if (cfg("frame")) puth(m.h, d["phase"], "frame", {r.phi}, {s.vel}, {}, true);
      expect += fd ? "phase-;" : "phase+;";
      if (cfg("velocity") && !fd) {
         putsh(m.h, r.vdiffs, "phase_diffs", {r.phi}, {s.time});
         puth(m.h, r.vgrad, "phase_grad", {}, {s.time}, {r.vdiffs});
         puth(m.h, r.velocity, "velocity", {d["phase"], r.vgrad});
      }
      s.same(s.dot["phase"], d["phase"], "rate of the phase");
      s.same(s.i.velocity, r.velocity, "velocity");
   }
   if (s.quat) {
      puth(m.h, d["quat"], "quat_rhs", {r.phi, r.T, r.qmobility, r.quat}, {R(1.)}, {r.gside, r.gsidecopy});
      s.same(s.dot["quat"], d["quat"], "rate of the quaternion");
   }
   if (s.conc) {
      auto coarse = [&](int id) {       // coarse sides below fine ones hold their averages
         for (int l = m.h->getFinestLevelNumber(); l > 0; l--) for (auto& c : *m.level(l - 1)) for (auto& f : *m.level(l)) for (int a = 0; a < NDIM; a++)
            for (auto& x : pdat::SideGeometry::toSideBox(c->getBox(), a)) {
               hier::Index x0(x);
               for (int b = 0; b < NDIM; b++) x0[b] = 2 * x[b];
               if (!pdat::SideGeometry::toSideBox(f->getBox(), a).contains(x0)) continue;
               for (int k = 0; k < sd(*c, id)->getDepth(); k++) {
                  R t = 0.;
                  for (int n = 0; n < (1 << NDIM); n++) { if ((n >> a) & 1) continue; hier::Index z(x0); for (int b = 0; b < NDIM; b++) z[b] += (n >> b) & 1; t = t + sd(*f, id)->getArrayData(a)(z, k); }
                  sd(*c, id)->getArrayData(a)(x, k) = t * (1. / (1 << (NDIM - 1)));
               }
            }
      };
      if (fresh && cfg("flux")) {
         if (cfg("flux") == 4) { putsh(m.h, r.diffusion, "diffusion_ebs", {r.phi, r.T}); expect += "precond;"; }
         else diffuse(m.h, r, cfg("flux"), s.time);
      }
      if (fresh) coarse(r.diffusion);
      s.sames(s.i.diffusion, r.diffusion, "diffusion");
      HPATCHES(m.h, p) {
         Flux::model(*p, r, r.flux);
         if (cfg("gradT")) Flux::gradT(*p, r.T, r.flux);
         if (cfg("antitrap")) Flux::trap(*p, r.phi, r.dphidt, s.alpha, r.flux);
      }
      coarse(r.flux);
      fill(m, d["conc"], [&](const hier::Index& x, int k) {
         R v = 0.;
         Ref F{m, r.flux};
         for (int a = 0; a < NDIM; a++) v = v + (F(a, nb(x, a, 1), k) - F(a, x, k)) / m.dx[a];
         return R(s.mob * v);
      });
      if (cfg("rb")) puth(m.h, d["conc"], "motion_conc", {r.phi}, s.rbforces(), {}, true);
      if (cfg("frame")) puth(m.h, d["conc"], "frame", {r.conc}, {s.vel}, {}, true);
      s.same(s.dot["conc"], d["conc"], "rate of the composition");
   }
   if (s.unsteady) {
      puth(m.h, r.cp, "heat_capacity", {r.T, r.conc});
      HPATCHES(m.h, p) TRhs::model(*p, r, d["temperature"], s.phase ? r.dphidt : -1);
      if (cfg("frame")) puth(m.h, d["temperature"], "frame", {r.T}, {s.vel}, {}, true);
      s.same(s.dot["temperature"], d["temperature"], "rate of the temperature");
   }
   s.check_coefficients();
   prove(B(seen == expect), lab("models asked as expected", seen, expect));
   intact(m);
}

CASE(precond)
{
   Setup s;
   auto& m = s.m;
   auto& r = s.r;
   auto& q = *s.qi;
   const R gamma = real_pos("gamma"), delta = real_pos("delta");
   std::map<std::string, int> id, od, d;
   auto vr = std::make_shared<Vec>("r", m.h, 0, m.h->getFinestLevelNumber()), vz = std::make_shared<Vec>("z", m.h, 0, m.h->getFinestLevelNumber());
   std::map<std::string, int> depth;
   for (auto& o : s.order) {
      depth[o] = o == "phase" ? cfg("np", 1) : o == "quat" ? cfg("qlen", 2) : o == "conc" ? cfg("nc", 1) : 1;
      id[o] = cell(m, "r_" + o, 0, depth[o]);
      od[o] = out(m, "z_" + o, 0, depth[o]);
      d[o] = out(m, "ref_z_" + o, 0, depth[o]);
      vr->addComponent(s.var(id[o]), id[o], -1);
      vz->addComponent(s.var(od[o]), od[o], -1);
   }
   const char* const who[] = {"", "phase", "eta", "conc", "temperature", "quat"};
   fails = who[cfg("fails")];
   auto y = Sundials_SAMRAIVector::createSundialsVector(s.vy), fy = Sundials_SAMRAIVector::createSundialsVector(s.vdot);
   auto rr = Sundials_SAMRAIVector::createSundialsVector(vr), zz = Sundials_SAMRAIVector::createSundialsVector(vz);
   int current = 0;
   const int lr = cfg("lr", 1);
   if (!s.unsteady) Temp::model(m.h, s.i.T, s.time);    // CVODE evaluates the right-hand side first
   prove(B(q.CVSpgmrPrecondSet(s.time, y, fy, 0, &current, gamma) == 0), "set up");
   prove(B(current == 1), "says that the matrices are current");
   const int rc = q.CVSpgmrPrecondSolve(s.time, y, fy, rr, zz, gamma, delta, lr);
   // the reference
   s.reference_coefficients(true);
   s.check_coefficients();
   bool failed = false;
   const bool use = cfg("solvers", 1), on = lr == 1 || lr == 2;
   auto fresh = [&](const std::string& n) { return out(m, "ref_coefficients_" + n, 0); };
   auto zero = [&](int f) { fill(m, f, [](const hier::Index&, int) { return R(0.); }); };
   // one column of a field
   auto take = [&](int to, int a, int from, int b) { fill(m, to, [&](const hier::Index& x, int k) { return k == a ? Ref{m, from}(x, b) : Ref{m, to}(x, k); }); };
   int psol = s.phase ? out(m, "ref_phase_sol", 1) : -1;
   auto block = [&](const std::string& o, int k, int coef, int rhs, int sol) { zero(sol); solve(k, sol, rhs, coef, delta); if (fails == o) failed = true; return sol; };
   auto same = [&](const std::string& o, const std::string& what) { s.same(od[o], d[o], what); };
   if (s.phase) {
      if (use && on) {
         int c = fresh("phase");
         coef_phase(c, r.phi, r.mobility, real("epsilon phase"), gamma, cfg("np", 1) > 1 ? R(0.) : real("phase well"), "double");
         int f = out(m, "ref_phase_rhs", 0);
         for (int k = 0; k < depth["phase"]; k++) { fill(m, f, [&](const hier::Index& x, int) { return Ref{m, id["phase"]}(x, k); }); block("phase", 0, c, f, psol); if (k == 0) zero(d["phase"]); take(d["phase"], k, psol, 0); }
      } else {
         fill(m, d["phase"], [&](const hier::Index& x, int k) { return Ref{m, id["phase"]}(x, k); });
         if (on) s.filled(psol, d["phase"]);
      }
      same("phase", "phase block");
   }
   auto simple = [&](const std::string& o, int k, int c, int rhs) {
      if (!use || !on) { fill(m, d[o], [&](const hier::Index& x, int n) { return Ref{m, id[o]}(x, n); }); }
      else { int sol = out(m, "ref_sol_" + o, 1, depth[o]); block(o, k, c, rhs, sol); fill(m, d[o], [&](const hier::Index& x, int n) { return Ref{m, sol}(x, n); }); }
      same(o, o + " block");
   };
   // r + gamma (coupling to the phase's correction)
   auto coupled = [&](const std::string& o, const std::string& n, int c) {
      int f = out(m, "ref_rhs_" + o, 0, depth[o]);
      puth(m.h, f, n, {c, psol}, {}, {}, false, false);
      fill(m, f, [&](const hier::Index& x, int k) { return R(Ref{m, id[o]}(x, k) + gamma * Ref{m, f}(x, k)); });
      return f;
   };
   if (s.eta) { int c = fresh("eta"); coef_eta(c, r.phi, r.eta, r.emobility, real("epsilon eta"), gamma, int(q.d_energy_interp_func_type), real("eta well"), "single"); simple("eta", 1, c, id["eta"]); }
   if (s.unsteady) {
      int c = fresh("temperature"), f = id["temperature"];
      coef_temperature(c, 1., 1., -gamma * real("thermal diffusivity"));
      if (cfg("dTdphi") && on && use) { int e = fresh("dtdphi"); coef_dtdphi(e, r.phi, r.ptmobility, real("epsilon phase"), real("latent heat"), real("phase well"), "double"); f = coupled("temperature", "dtdphi", e); }
      simple("temperature", 3, c, f);
   }
   if (s.conc) { int c = fresh("conc"); coef_conc(c, gamma, {r.diffusion}, s.mob); simple("conc", 2, c, id["conc"]); }
   if (s.quat) {
      int f = id["quat"], c = fresh("quat");
      coef_quat(c, gamma, r.qmobility, r.qmobderiv, r.phi, r.T, r.qderiv, r.gsidecopy, r.quat);
      if (cfg("precquat", 1) && on) {
         if (cfg("dquatdphi", 1)) f = coupled("quat", "dqdphi", c);
         int sol = out(m, "ref_sol_quat", 1, depth["quat"]);
         block("quat", 9, c, f, sol);
         fill(m, d["quat"], [&](const hier::Index& x, int k) { return Ref{m, sol}(x, k); });
      } else fill(m, d["quat"], [&](const hier::Index& x, int k) { return Ref{m, id["quat"]}(x, k); });
      same("quat", "quaternion block");
   }
   prove(B((rc != 0) == failed), "says whether every block converged");
   intact(m);
}
CASE(projection)
{
   Setup s;
   auto& m = s.m;
   auto& q = *s.qi;
   auto ve = std::make_shared<Vec>("e", m.h, 0, m.h->getFinestLevelNumber());
   std::map<std::string, int> e;
   for (auto& o : s.order) {
      e[o] = cell(m, "e_" + o, 0, o == "phase" ? cfg("np", 1) : o == "quat" ? cfg("qlen", 2) : o == "conc" ? cfg("nc", 1) : 1);
      ve->addComponent(s.var(e[o]), e[o], -1);
   }
   auto y = Sundials_SAMRAIVector::createSundialsVector(s.vy), c = Sundials_SAMRAIVector::createSundialsVector(s.vdot), ee = Sundials_SAMRAIVector::createSundialsVector(ve);
   prove(B(q.applyProjection(s.time, y, c, real("eps"), ee) == 0), "succeeds");
   for (auto& o : s.order) {
      const bool p = o == "quat" && cfg("qlen", 2) > 1;
      const int depth = o == "phase" ? cfg("np", 1) : o == "quat" ? cfg("qlen", 2) : o == "conc" ? cfg("nc", 1) : 1;
      int y0 = cell(m, "y_" + o, 0, depth), e0 = cell(m, "e_" + o, 0, depth), c0 = out(m, "ref_corr_" + o, 0, depth);
      fill(m, c0, [](const hier::Index&, int) { return R(0.); });
      if (p) { puth(m.h, c0, "projection", {y0, e0}); puth(m.h, e0, "projected_error", {y0, e0}); }
      s.same(s.dot[o], c0, "correction of " + o);
      s.same(e[o], e0, "error of " + o);
      s.same(s.y[o], y0, "state of " + o);
   }
   intact(m);
}
CASE(vector)
{
   Setup s;
   auto& m = s.m;
   auto& q = *s.qi;
   const int w = q.d_weight_id = cell(m, "weight", 0);
   for (auto& o : s.order) {
      auto v = std::dynamic_pointer_cast<pdat::CellVariable<double> >(s.var(s.y[o]));
      if (o == "eta") q.d_eta_var = v;
      if (o == "temperature") q.d_temperature_var = v;
      if (o == "quat") q.d_quat_var = v;
   }
   q.createSolutionvector(m.h);
   auto& v = *q.d_solution_vec;
   prove(B(v.getNumberOfComponents() == (int)s.order.size()), "as many components as there are fields evolved");
   std::map<std::string, int> n = {{"phase", q.d_phase_component_index}, {"eta", q.d_eta_component_index}, {"temperature", q.d_temperature_component_index}, {"conc", q.d_conc_component_index}, {"quat", q.d_quat_component_index}};
   for (auto& o : s.order) {
      const bool in = n[o] >= 0 && n[o] < (int)s.order.size();
      prove(B(in), "component of " + o + " exists");
      if (!in) continue;
      prove(B(v.getComponentDescriptorIndex(n[o]) == s.y[o]), "component of " + o + " is its field");
      prove(B(v.getControlVolumeIndex(n[o]) == w), "component of " + o + " is weighted");
   }
   prove(B(v.getFinestLevelNumber() == m.h->getFinestLevelNumber()), "on all levels");
}

// what fills the ghost cells at the boundaries of the domain
CASE(boundary)
{
   Setup s;
   auto& m = s.m;
   auto& q = *s.qi;
   auto& p = s.par;
   const int y0 = s.phase ? s.y["phase"] : -1;
   (void)y0;
   delete q.d_all_refine_patch_strategy;
   q.d_all_refine_patch_strategy = nullptr;
   q.d_all_periodic = cfg("periodic");
   q.d_conc_id = s.conc ? s.y["conc"] : -1;
   q.d_phase_id = s.phase ? s.y["phase"] : -1;
   q.d_temperature_var = std::dynamic_pointer_cast<pdat::CellVariable<double> >(s.var(s.i.T));
   if (s.eta) q.d_eta_var = std::dynamic_pointer_cast<pdat::CellVariable<double> >(s.var(s.i.eta));
   p.d_with_rescaled_temperature = cfg("rescaled");
   p.d_rescale_factorT = real("temperature scale", 0.5, 1000.);
   p.d_moving_frame_upwind = cfg("upwind");
   boundary_factor = 0.;
   auto rop = std::make_shared<hier::RefineOperator>("QUAT_REFINE");
   auto cop = std::make_shared<geom::ConservativeCoarsen>();
   auto g = std::shared_ptr<mesh::GriddingAlgorithm>((mesh::GriddingAlgorithm*)fac_raw, [](mesh::GriddingAlgorithm*) {});
   q.initializeCoarseRefineOperators(g, rop, cop);
   if (cfg("periodic")) { prove(B(q.d_all_refine_patch_strategy == nullptr), "no boundary to fill"); }
   else {
      auto b = dynamic_cast<QuatRefinePatchStrategy*>(q.d_all_refine_patch_strategy);
      prove(B(b != nullptr), "boundaries are filled");
      prove(B(b->d_phase_id == s.i.phi && b->d_eta_id == s.i.eta && b->d_quat_id == s.i.quat && b->d_conc_id == s.i.conc && b->d_temperature_id == s.i.T), "in the fields that the models read");
      prove(B(b->d_nghosts == (cfg("upwind") ? 2 : 1)), lab("as many layers as the stencils need", b->d_nghosts));
      eq(boundary_factor, cfg("rescaled") ? R(1. / real("temperature scale", 0.5, 1000.)) : R(-1.), "with temperatures on the scale of the model");
   }
   prove(B(q.d_quat_refine_op == rop && q.d_quat_coarsen_op == cop), "operators of the quaternion");
   for (auto& o : s.order) if (o != "quat") {
      auto r = o == "phase" ? q.d_phase_refine_op : o == "eta" ? q.d_eta_refine_op : o == "conc" ? q.d_conc_refine_op : q.d_temperature_refine_op;
      prove(B(r && r->getOperatorName() == "LINEAR_REFINE"), "interpolation of " + o + " is linear");
   }
   (void)m;
}
// one step
CASE(step)
{
   Setup s;
   auto& m = s.m;
   auto& q = *s.qi;
   auto SCR = hier::VariableDatabase::getDatabase()->getContext("SCRATCH");
   q.d_current = hier::VariableDatabase::getDatabase()->getContext("CURRENT");
   q.d_scratch = SCR;
   q.d_weight_id = cell(m, "weight", 0);
   if (!s.unsteady) q.d_temperature_id = cell(m, "current_T", 1);
   auto tv = s.var(q.d_temperature_id);
   q.d_temperature_var = std::dynamic_pointer_cast<pdat::CellVariable<double> >(tv);
   const int T = q.d_temperature_scratch_id = hier::VariableDatabase::getDatabase()->registerVariableAndContext(tv, SCR, hier::IntVector(tbox::Dimension(NDIM), 1));
   for (int l = 0; l < m.h->getNumberOfLevels(); l++) m.level(l)->allocatePatchData(T);
   fill(m, T, [](const hier::Index& x, int) { return real(at("before", x)); });
   for (auto& o : s.order) {
      auto v = std::dynamic_pointer_cast<pdat::CellVariable<double> >(s.var(s.y[o]));
      if (o == "eta") q.d_eta_var = v;
      if (o == "quat") q.d_quat_var = v;
   }
   q.d_use_preconditioner = cfg("precond");
   q.d_max_precond_steps = 3;
   q.d_max_order = 2;
   q.d_rtol = real("rtol", 1.e-8, 1.);
   q.d_atol = real("atol", 1.e-8, 1.);
   q.d_max_step_size = cfg("hmax") ? real_pos("hmax") : R(0.);
   q.d_end_time = real("end", 20., 30.);
   q.d_current_time = s.time;
   const R h0 = q.d_previous_timestep = real_pos("previous step");
   q.d_show_integrator_stats = false;
   q.d_use_warm_start = false;
   s.par.d_moving_frame_adapt = false;
   resets.clear();
   cvode_step() = nullptr;
   q.resetIntegrator(m.h, 0, m.h->getFinestLevelNumber());
   std::vector<V> want;
   if (cfg("precond")) {
      if (s.phase) want.push_back({0, q.d_phase_sol_id, q.d_phase_rhs_id});
      if (s.eta) want.push_back({1, q.d_eta_sol_id, q.d_eta_rhs_id});
      if (s.conc) want.push_back({2, q.d_conc_sol_id, q.d_conc_rhs_id});
   }
   if (s.unsteady) want.push_back({3, q.d_temperature_sol_id, q.d_temperature_rhs_id});
   if (s.quat) want.push_back({9, q.d_quat_sol_id, q.d_quat_rhs_id});
   for (auto& w : want) { int n = 0; for (auto& r : resets) n += r == w; prove(B(n == 1), lab("linear solver follows the hierarchy", w[0])); }
   prove(B(resets.size() == want.size()), "and no other");
   auto state = [&](const char* n) {
      auto v = q.d_solution_vec;
      for (size_t k = 0; k < s.order.size(); k++) fill(m, v->getComponentDescriptorIndex(k), [&](const hier::Index& x, int d) { return real(at(n + s.order[k], x, d)); });
      fill(m, T, [&](const hier::Index& x, int) { return real(at(std::string(n) + "scratch", x)); });
   };
   const int code = cfg("code");
   cvode_step() = [&](N_Vector) { state("after"); return code; };
   R dt = 0.;
   const bool stopped = refuses([&] { dt = q.Advance(m.h); });
   prove(B(stopped == (code != 0)), "fails only when CVODE does");
   auto k = cvode_now();
   prove(B(k->lmm == CV_BDF && k->itask == CV_ONE_STEP && k->ord == 2), "one step of BDF");
   prove(B(k->rhs && k->proj && k->jtimes), "right-hand side, projection, products with the Jacobian");
   prove(B(!!k->pset == !!cfg("precond") && !!k->psolve == !!cfg("precond") && k->lsetup == 3 && k->prec == (cfg("precond") ? PREC_LEFT : PREC_NONE)), "preconditioner");
   eq(k->t0, s.time, "starts from the current time");
   eq(k->tout, q.d_end_time, "towards the end time");
   eq(k->rtol, q.d_rtol, "relative tolerance");
   eq(k->atol, q.d_atol, "absolute tolerance");
   prove(B(k->has_init), "first step given");
   eq(k->hinit, h0, "first step");
   prove(B(k->has_max == !!cfg("hmax")), "largest step only when given");
   if (cfg("hmax")) eq(k->hmax, q.d_max_step_size, "largest step");
   if (!stopped) {
      eq(dt, real("last step"), "returns the step taken");
      eq(q.d_previous_timestep, real("last step"), "which the next start uses");
      eq(q.d_current_time, real("time reached"), "current time");
      std::map<std::string, int> r;
      for (size_t c = 0; c < s.order.size(); c++) {
         auto& o = s.order[c];
         const int id = q.d_solution_vec->getComponentDescriptorIndex(c), ref = out(m, "ref_" + o, 0, cd(**m.level(0)->begin(), id)->getDepth());
         fill(m, ref, [&](const hier::Index& x, int d) { return real(at("after" + o, x, d)); });
         s.average(ref);
         s.same(id, ref, "current " + o);
         HPATCHES(m.h, p) { auto d = p->getPatchData(id); eq(d->getTime(), real("time reached"), "time of " + o); }
      }
      if (!s.unsteady) eqall(m, q.d_temperature_id, [&](const hier::Index& x, int) { return real(at("afterscratch", x)); }, "current temperature");
   }
   cvode_step() = nullptr;
   intact(m);
}
