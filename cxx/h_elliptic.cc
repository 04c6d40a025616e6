// solvers of the elliptic equations: what is solved, on which levels, with which data, also after the mesh changed
#include "stubs.h"
#include "PhaseFACSolver.h"
#include "EtaFACSolver.h"
#include "ConcFACSolver.h"
#include "TemperatureFACSolver.h"
#include "PhaseFACOps.h"
#include "EtaFACOps.h"
#include "ConcFACOps.h"
#include "TemperatureFACOps.h"
#include "SteadyStateTemperatureStrategy.h"
#include "QuatSysSolver.h"
#include "QuatFACOps.h"
using namespace fx;
struct Matrix { int k, level, id; R D; };
static std::vector<Matrix> matrices;
struct Log { std::string what; int u, f, lo, hi; const void* h; };
static std::vector<Log> logs;
static EllipticFACOps* the_ops;
static std::string quat_state;
typedef solv::SAMRAIVectorReal<double> Vec;
static void note(const char* w, const Vec& u, const Vec& f)
{
   prove(B(u.getNumberOfComponents() == 1 && f.getNumberOfComponents() == 1 && u.getCoarsestLevelNumber() == f.getCoarsestLevelNumber() && u.getFinestLevelNumber() == f.getFinestLevelNumber() && u.getPatchHierarchy() == f.getPatchHierarchy()), "solution and right hand side on the same levels");
   logs.push_back({w, u.getComponentDescriptorIndex(0), f.getComponentDescriptorIndex(0), u.getCoarsestLevelNumber(), u.getFinestLevelNumber(), u.getPatchHierarchy().get()});
}
// the cycles: an unknown function of the right hand side, the coefficients and the values the solution starts from
FACPreconditioner::FACPreconditioner(const std::string& n, std::shared_ptr<solv::FACOperatorStrategy> o, const std::shared_ptr<tbox::Database>&) : d_object_name(n), d_fac_operator(o), d_number_iterations(1), d_residual_norm(0.) {}
FACPreconditioner::~FACPreconditioner() {}
void FACPreconditioner::printClassData(std::ostream&) const {}
void FACPreconditioner::initializeSolverState(const Vec& u, const Vec& f)
{
   note("init", u, f);
   d_patch_hierarchy = u.getPatchHierarchy();
   d_fac_operator->initializeOperatorState(u, f);
}
void FACPreconditioner::deallocateSolverState()
{
   logs.push_back({"free", -1, -1, -1, -1, d_patch_hierarchy.get()});
   if (d_patch_hierarchy) d_fac_operator->deallocateOperatorState();
   d_patch_hierarchy.reset();
}
bool FACPreconditioner::solveSystem(Vec& u, Vec& f)
{
   note("solve", u, f);
   prove(B(bool(d_patch_hierarchy)), "cycles set up before the solve");
   for (int l = u.getCoarsestLevelNumber(); l <= u.getFinestLevelNumber(); l++)
      for (auto& pp : *u.getPatchHierarchy()->getPatchLevel(l)) {
         auto& p = *pp;
         auto U = cd(p, u.getComponentDescriptorIndex(0)), F = cd(p, f.getComponentDescriptorIndex(0));
         for (auto& i : p.getBox()) for (int k = 0; k < U->getDepth(); k++) { pdat::CellIndex c(i); (*U)(c, k) = fn("solution", {R(R((*F)(c, k))), double(R((*U)(c, k)))}); }
      }
   return cfg("converged", 1);
}
static int count(const char* w) { int n = 0; for (auto& l : logs) n += l.what == w; return n; }
static const Log& last(const char* w) { for (size_t i = logs.size(); i-- > 0;) if (logs[i].what == w) return logs[i]; ::verif_stop("nothing recorded", "elliptic", 0); return logs[0]; }
static int called(const char* w, int v = -1, int w1 = -1)
{
   int n = 0;
   for (auto& c : tbox::verif_calls()) if (c.what == w && (v < 0 || c.v[0] == v) && (w1 < 0 || c.v[1] == w1)) n++;
   return n;
}
CellPoissonHypreSolver::CellPoissonHypreSolver(const std::string& n, std::shared_ptr<tbox::Database>) : d_dim(tbox::Dimension(NDIM)), d_object_name(n), d_physical_bc_simple_case(tbox::Dimension(NDIM), n), d_cf_bc_coef(tbox::Dimension(NDIM), n) { d_ln = -1; }
CellPoissonHypreSolver::~CellPoissonHypreSolver() {}
void CellPoissonHypreSolver::deallocateSolverState() { d_ln = -1; d_hierarchy.reset(); }
void CellPoissonHypreSolver::initializeSolverState(std::shared_ptr<hier::PatchHierarchy> h, int l) { d_hierarchy = h; d_ln = l; }
void CellPoissonHypreSolver::setMatrixCoefficients(const PoissonSpecifications& s) { prove(B(bool(d_hierarchy)), "coarsest level solver set up before its matrix"); matrices.push_back({d_object_name.back() - '0', d_ln, s.dIsConstant() ? -1 : s.getDPatchDataId(), s.dIsConstant() ? R(s.getDConstant()) : R(0.)}); }
int CellPoissonHypreSolver::solveSystem(const int, const int, bool, bool) { ::verif_stop("unmodelled coarse solver", "facops", 0); }
class FixedBc : public solv::RobinBcCoefStrategy
{
 public:
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<hier::Variable>&, const hier::Patch&, const hier::BoundaryBox&, const double = 0.0) const override {}
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1); }
};
static std::shared_ptr<tbox::Database> options()
{
   auto db = std::make_shared<tbox::MemoryDatabase>("solver");
   db->putString("coarse_solver_choice", "hypre");
   return db;
}
static void grow(const Mesh& m, const std::vector<int>& ids)
{
   auto lv = m.h->getPatchLevel(m.h->getFinestLevelNumber());
   for (int id : ids) { lv->allocatePatchData(id, 0.); for (auto& p : *lv) cd(*p, id)->fillAll(0.5); }
}
static void expect(const char* w, int n, int u, int f, int lo, int hi, const Mesh& m, const std::string& s)
{
   prove(B(count(w) == n), s + ", times");
   if (!count(w)) return;
   auto& l = last(w);
   prove(B(l.u == u && l.f == f), s + ", data");
   prove(B(l.lo == lo && l.hi == hi), s + ", levels");
   prove(B(l.h == m.h.get()), s + ", mesh");
}
CASE(facsolver)
{
   logs.clear(); matrices.clear(); tbox::verif_calls().clear();
   Mesh m = grid(box(2));
   if (cfg("levels", 1) > 1) refine(m, box(2));
   const int kind = cfg("kind"), depth = kind == 2 ? 2 : 1;
   int u = cell(m, "u", 1, depth), f = cell(m, "f", 0, depth), u2 = cell(m, "u2", 1, depth), f2 = cell(m, "f2", 0, depth);
   std::shared_ptr<EllipticFACOps> ops;
   std::shared_ptr<EllipticFACSolver> s;
   if (kind == 0) { auto o = std::make_shared<PhaseFACOps>("ops", options()); ops = o; s = std::make_shared<PhaseFACSolver>("solver", o, options()); }
   if (kind == 1) { auto o = std::make_shared<EtaFACOps>("ops", options()); ops = o; s = std::make_shared<EtaFACSolver>("solver", o, options()); }
   if (kind == 2) { auto o = std::make_shared<ConcFACOps>("ops", depth, options()); ops = o; s = std::make_shared<ConcFACSolver>("solver", o, options()); }
   if (kind == 3) { auto o = std::make_shared<TemperatureFACOps>("ops", options()); ops = o; s = std::make_shared<TemperatureFACSolver>("solver", o, options()); }
   FixedBc bc;
   const int own = cfg("own");      // 1: boundary data of the caller
   prove(B(refuses([&] { s->initializeSolverState(u, f, m.h, 0, 0); })), "no boundary conditions, no solver");
   if (own) s->setBcObject(&bc); else s->setBoundaries("Dirichlet");
   prove(B(ops->d_physical_bc_coef == (own ? (const solv::RobinBcCoefStrategy*)&bc : &s->d_simple_bc)), "boundary conditions of the operators");
   if (own) prove(B(refuses([&] { s->setBoundaries("Dirichlet"); })), "boundary conditions of the caller are kept");
   prove(B(refuses([&] { s->solveSystem(u, f); })), "no solve before the set up");
   const int fine = m.h->getFinestLevelNumber();
   if (cfg("full", 1)) s->initializeSolverState(u, f, m.h); else s->initializeSolverState(u, f, m.h, fine, fine);
   const int lo = cfg("full", 1) ? 0 : fine;
   expect("init", 1, u, f, lo, fine, m, "set up");
   s->initializeSolverState(u2, f2, m.h);
   prove(B(count("init") == 1), "set up once");
   // coefficients, then the solve
   int phi = cell(m, "phi", 0), eta = cell(m, "eta", 0), mob = cell(m, "mobility", 0, 1, 0.1, 2.), D = side(m, "D", 0), D1 = side(m, "D1", 0);
   R g = real_pos("gamma"), e = real_pos("epsilon"), W = real_pos("well"), M = real_pos("M"), C = real("C"), Dc = real("Dc", -3., -0.1);
   if (kind == 0) std::static_pointer_cast<PhaseFACSolver>(s)->setOperatorCoefficients(phi, mob, e, g, W, "d");
   if (kind == 1) std::static_pointer_cast<EtaFACSolver>(s)->setOperatorCoefficients(phi, eta, mob, e, g, Thermo4PFM::EnergyInterpolationType::PBG, W, "d");
   if (kind == 2) std::static_pointer_cast<ConcFACSolver>(s)->setOperatorCoefficients(g, {D, D1}, M);
   if (kind == 3) std::static_pointer_cast<TemperatureFACSolver>(s)->setOperatorCoefficients(M, C, Dc);
   if (kind <= 1 || kind == 3) eq(R(ops->getDConstant()), kind == 3 ? Dc : -g * e * e, "constant D");
   if (kind == 3) eq(R(ops->d_poisson_spec[0].getCConstant()), C, "constant C");
   if (kind == 2) for (int k = 0; k < depth; k++) {
      const int id = ops->getDPatchDataId(k), from = k ? D1 : D;
      for (int l = lo; l <= fine; l++) for (auto& pp : *m.h->getPatchLevel(l)) { auto& p = *pp; for (int a = 0; a < NDIM; a++) for (auto i = pdat::SideGeometry::begin(p.getBox(), a); i != pdat::SideGeometry::end(p.getBox(), a); ++i) eq(R((*sd(p, id))(*i)), -g * R((*sd(p, from))(*i)), "D of the component"); }
   }
   prove(B((int)matrices.size() == depth), "a matrix per component for the coarsest level");
   for (int k = 0; k < (int)matrices.size(); k++) {
      auto& x = matrices[k];
      prove(B(x.k == k && x.level == lo), lab("coarsest level solver", k));
      if (kind == 2) prove(B(x.id == ops->getDPatchDataId(k)), lab("coefficient of component", k)); else eq(x.D, kind == 3 ? Dc : -g * e * e, "coefficient of the coarsest level");
   }
   if (!own) {
      prove(B(called("bc levels", lo, fine) == 1), "boundary data on the levels of the solve");
      if (kind == 2) prove(B(called("bc D id", ops->getDPatchDataId()) == 1), "boundary data with the diffusion coefficient");
      else { prove(B(called("bc D") == 1), "boundary data with the constant coefficient"); for (auto& c : tbox::verif_calls()) if (c.what == "bc D") eq(R(c.v[0]), kind == 3 ? Dc : -g * e * e, "coefficient of the boundary data"); }
   } else prove(B(called("bc levels") + called("bc D") + called("bc D id") == 0), "no boundary data of its own");
   auto result = [&](int uu, int from, int ff, const std::string& what) {
      for (int l = lo; l <= fine; l++) for (auto& pp : *m.h->getPatchLevel(l)) { auto& p = *pp; for (auto& i : p.getBox()) for (int k = 0; k < depth; k++) { pdat::CellIndex c(i); eq(R((*cd(p, uu))(c, k)), R(fn("solution", {R(R((*cd(p, ff))(c, k))), R((*cd(p, from))(c, k))})), what); } }
   };
   const int u0 = cell(m, "u", 1, depth), v0 = cell(m, "u2", 1, depth), f0 = cell(m, "f", 0, depth);
   const bool r = s->solveSystem(u, f);
   prove(B(r == bool(cfg("converged", 1))), "reports whether it converged");
   expect("solve", 1, u, f, lo, fine, m, "solve");
   result(u, u0, f0, "solution");
   s->solveSystem(u2, f2);
   result(u2, v0, f2, "solution of other data");
   expect("solve", 2, u2, f2, lo, fine, m, "solve of other data");
   s->solveSystem(u, f2);
   expect("solve", 3, u, f2, lo, fine, m, "solve with another right hand side");
   if (!own) {
      auto& c = tbox::verif_calls();
      std::vector<std::pair<std::string, int> > seq;
      for (auto& x : c) if (x.what == "cache" || x.what == "restore") seq.push_back({x.what, x.v[0] == u ? u : x.v[0] == u2 ? u2 : -1});
      prove(B(seq == std::vector<std::pair<std::string, int> >{{"cache", u}, {"restore", u}, {"cache", u2}, {"restore", u2}, {"cache", u}, {"restore", u}}), "boundary values kept over each solve");
   }
   prove(B(refuses([&] { s->solveSystem(u, f, m.h); })), "no second set up");
   prove(B(refuses([&] { s->solveSystem(-1, f); }) && refuses([&] { s->solveSystem(u, -1); })), "no solve without data");
   // the mesh gets a level
   refine(m, box(2));
   const int nf = m.h->getFinestLevelNumber();
   grow(m, {u, f, u2, f2});
   s->resetSolverState(u2, f, m.h);
   expect("init", 2, u2, f, 0, nf, m, "set up on the new mesh");
   prove(B(count("free") == 1), "old levels given up first");
   s->solveSystem(u, f);
   expect("solve", 4, u, f, 0, nf, m, "solve on the new mesh");
   s->deallocateSolverState();
   prove(B(count("free") == 2), "given up");
   s->resetSolverState(u, f, m.h);
   prove(B(count("init") == 2), "a solver that is not set up stays so");
   prove(B(refuses([&] { s->solveSystem(u, f); })), "no solve without set up");
   s->solveSystem(u, f, m.h, 1, nf);
   expect("init", 3, u, f, 1, nf, m, "set up for one solve");
   expect("solve", 5, u, f, 1, nf, m, "one solve");
   prove(B(count("free") == 3 && !s->d_solver_is_initialized), "given up after the one solve");
}
class Steady : public SteadyStateTemperatureStrategy
{
 public:
   using SteadyStateTemperatureStrategy::SteadyStateTemperatureStrategy;
   void setCurrentTemperature(std::shared_ptr<hier::PatchHierarchy>, const double) override { solveSystem(); }
};
CASE(steady)      // the temperature solver of the steady state, through the interface of the integrator
{
   logs.clear(); matrices.clear(); tbox::verif_calls().clear();
   Mesh m = grid(box(2));
   if (cfg("levels", 1) > 1) refine(m, box(2));
   int T = cell(m, "T", 1), rhs = cell(m, "rhs", 0), w = cell(m, "w", 0);
   solv::LocationIndexRobinBcCoefs* bc = nullptr;
   Steady st(T, rhs, w, options(), bc);
   TemperatureStrategy& t = st;
   prove(B(count("init") == 0), "set up when asked for");
   t.initialize(m.h);
   const int fine = m.h->getFinestLevelNumber();
   expect("init", 1, T, rhs, 0, fine, m, "set up");
   t.setCurrentTemperature(m.h, 0.);
   expect("solve", 1, T, rhs, 0, fine, m, "solve");
   refine(m, box(2));
   grow(m, {T, rhs, w});
   t.resetSolversState(m.h, 0, fine + 1);
   expect("init", 2, T, rhs, 0, fine + 1, m, "set up on the new mesh");
   t.setCurrentTemperature(m.h, 1.);
   expect("solve", 2, T, rhs, 0, fine + 1, m, "solve on the new mesh");
}
