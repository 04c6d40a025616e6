// operators and solver of the quaternion evolution
#include "stubs.h"
#include "QuatFACOps.h"
#include "QuatSysSolver.h"
using namespace fx;
extern "C" void quatsymmrotate_(const double*, const int&, double*, const int&);
typedef solv::SAMRAIVectorReal<double> Vec;
// the coefficients at the faces: some field per time they are asked for (decided on their own)
struct Asked { int phi, T, gq, out; };
static std::vector<Asked> asked;
static const Mesh* mesh_of;
static R coefficient(int n, int a, const hier::Index& i) { return real(at(lab("fc", n) + "xyz"[a], i)); }
QuatFaceCoeff::QuatFaceCoeff(const int q, const double e, const double f, const std::string ft, const double H, const std::string t1, const std::string t2, const std::string av) : d_qlen(q), d_epsilon_q(e), d_gradient_floor(f), d_grad_floor_type(ft), d_Hparameter(H), d_interp_type1(t1), d_interp_type2(t2), d_avg_type(av) {}
QuatFaceCoeff::~QuatFaceCoeff() {}
void QuatFaceCoeff::computeFaceCoefs(std::shared_ptr<hier::PatchHierarchy> h, const int phi, const int T, const int gq, const int out)
{
   const int n = asked.size();
   asked.push_back({phi, T, gq, out});
   prove(B(h.get() == mesh_of->h.get()), "coefficients on this mesh");
   LevScope sc;
   for (int l = 0; l < h->getNumberOfLevels(); l++) {
      setlev(l);
      for (auto& pp : *h->getPatchLevel(l)) {
         auto s = sd(*pp, out);
         for (int a = 0; a < NDIM; a++) for (auto i = pdat::SideGeometry::begin(pp->getBox(), a); i != pdat::SideGeometry::end(pp->getBox(), a); ++i) (*s)(*i) = coefficient(n, a, *i);
      }
   }
}
// boundary values: the ghost cells keep theirs
struct Filled { int id; bool homogeneous; };
static std::vector<Filled> filled;
CartesianRobinBcHelperWithDepth::CartesianRobinBcHelperWithDepth(const tbox::Dimension& d, std::string n, solv::RobinBcCoefStrategy* c) : d_dim(d), d_object_name(n), d_coef_strategy(c), d_target_data_id(-1), d_homogeneous_bc(false) {}
CartesianRobinBcHelperWithDepth::~CartesianRobinBcHelperWithDepth() {}
void CartesianRobinBcHelperWithDepth::setPhysicalBoundaryConditions(hier::Patch&, const double, const hier::IntVector&) { filled.push_back({d_target_data_id, d_homogeneous_bc}); }
hier::IntVector CartesianRobinBcHelperWithDepth::getRefineOpStencilWidth(const tbox::Dimension& d) const { return hier::IntVector(d, 1); }
void CartesianRobinBcHelperWithDepth::preprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const hier::IntVector&) {}
void CartesianRobinBcHelperWithDepth::preprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) {}
void CartesianRobinBcHelperWithDepth::postprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const hier::IntVector&) {}
void CartesianRobinBcHelperWithDepth::postprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) {}
// the solver of a level
struct Matrix { int level, m, fc; R gamma; };
static std::vector<Matrix> matrices;
QuatLevelSolver::QuatLevelSolver(const int q, const std::string& n, std::shared_ptr<tbox::Database>) : d_dim(tbox::Dimension(NDIM)), d_qlen(q), d_object_name(n), d_physical_bc_simple_case(tbox::Dimension(NDIM), n), d_cf_bc_coef(tbox::Dimension(NDIM), n) { d_ln = -1; }
QuatLevelSolver::~QuatLevelSolver() {}
void QuatLevelSolver::initializeSolverState(std::shared_ptr<hier::PatchHierarchy> h, const int l) { d_hierarchy = h; d_ln = l; }
void QuatLevelSolver::deallocateSolverState() { d_hierarchy.reset(); }
void QuatLevelSolver::setMatrixCoefficients(const double g, const int m, const int fc)
{
   prove(B(bool(d_hierarchy)), "level solver set up before its matrix");
   matrices.push_back({d_ln, m, fc, R(g)});
}
int QuatLevelSolver::solveSystem(const int, const int, const bool) { ::verif_stop("unmodelled level solver", "quatops", 0); return 0; }
// the cycles: an unknown function of the right hand side and the values the solution starts from
struct Log { std::string what; int u, f, lo, hi; };
static std::vector<Log> logs;
static void note(const char* w, const Vec& u, const Vec& f) { logs.push_back({w, u.getComponentDescriptorIndex(0), f.getComponentDescriptorIndex(0), u.getCoarsestLevelNumber(), u.getFinestLevelNumber()}); }
FACPreconditioner::FACPreconditioner(const std::string& n, std::shared_ptr<solv::FACOperatorStrategy> o, const std::shared_ptr<tbox::Database>&) : d_object_name(n), d_fac_operator(o), d_number_iterations(1), d_residual_norm(0.) {}
FACPreconditioner::~FACPreconditioner() {}
void FACPreconditioner::printClassData(std::ostream&) const {}
void FACPreconditioner::initializeSolverState(const Vec& u, const Vec& f)
{
   note("init", u, f);
   d_patch_hierarchy = u.getPatchHierarchy();
   d_fac_operator->initializeOperatorState(u, f);
}
void FACPreconditioner::deallocateSolverState()
{
   logs.push_back({"free", -1, -1, -1, -1});
   if (d_patch_hierarchy) d_fac_operator->deallocateOperatorState();
   d_patch_hierarchy.reset();
}
bool FACPreconditioner::solveSystem(Vec& u, Vec& f)
{
   note("solve", u, f);
   for (int l = u.getCoarsestLevelNumber(); l <= u.getFinestLevelNumber(); l++)
      for (auto& pp : *u.getPatchHierarchy()->getPatchLevel(l)) {
         auto U = cd(*pp, u.getComponentDescriptorIndex(0)), F = cd(*pp, f.getComponentDescriptorIndex(0));
         for (auto& i : pp->getBox()) for (int k = 0; k < U->getDepth(); k++) { pdat::CellIndex c(i); (*U)(c, k) = fn("solution", {R(R((*F)(c, k))), R(R((*U)(c, k)))}); }
      }
   return cfg("converged", 1);
}
class FixedBc : public solv::RobinBcCoefStrategy
{
 public:
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<hier::Variable>&, const hier::Patch&, const hier::BoundaryBox&, const double = 0.0) const override {}
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1); }
};
static Vec vec(const Mesh& m, const char* n, int id)
{
   Vec v(n, m.h, 0, m.h->getNumberOfLevels() - 1);
   std::shared_ptr<hier::Variable> var;
   hier::VariableDatabase::getDatabase()->mapIndexToVariable(id, var);
   v.addComponent(var, id);
   return v;
}
struct Setup {
   Mesh m;
   int n, q, rhs, mob, phi, T, gq, gqc, rot;
   bool symmetric, fromgrad;
   FixedBc bc;
   std::shared_ptr<QuatFaceCoeff> fc;
   Setup() : m(grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), cfg("patches", 1), cfg("lo"))), n(cfg("qlen", 4)), symmetric(cfg("symmetric")), fromgrad(cfg("fromgrad"))
   {
      asked.clear(); filled.clear(); matrices.clear(); logs.clear(); tbox::verif_calls().clear();
      mesh_of = &m;
      q = cell(m, "q", cfg("ngq", 1), n, 0.1, 2.);
      rhs = cell(m, "rhs", cfg("ngr"), n);
      mob = cell(m, "mobility", cfg("ngm", 1), 1, 0.1, 4.);
      phi = cell(m, "phi", 1);
      T = cell(m, "T", 1);
      gq = side(m, "gradq", cfg("ngg"), NDIM * n);
      gqc = side(m, "gradqcopy", 0, NDIM * n);
      rot = -1;
      if (symmetric) {
         rot = reg(m, std::make_shared<pdat::SideVariable<int> >(tbox::Dimension(NDIM), "rot", hier::IntVector::getOne(tbox::Dimension(NDIM)), 1), cfg("ngi", 1));
         VERIF_PATCHES(m, p) { auto s = rotation(*p); for (int a = 0; a < NDIM; a++) for (auto& i : s->getArrayData(a).getBox()) s->getArrayData(a)(i, 0) = index(a, i); }
      }
      fc = std::make_shared<QuatFaceCoeff>(n, 1., 1., "", 1., "", "", "");
   }
   std::shared_ptr<pdat::SideData<int> > rotation(hier::Patch& p) const { return std::dynamic_pointer_cast<pdat::SideData<int> >(p.getPatchData(rot)); }
   int index(int a, const hier::Index& i) const
   {
      int s = 3 + 11 * a + cfg("seed");
      for (int b = 0; b < NDIM; b++) s += (5 + 2 * b) * (i(b) + 20);
      s = s % (n == 4 ? 23 : 3) + 1;
      return i(a) % 2 ? -s : s;
   }
   R flux(int a, const hier::Index& i, int k, int set) const
   {
      R c = coefficient(set, a, i);
      if (fromgrad) return c * Ref{m, gq}(a, i, a * n + k);
      Ref Q{m, q};
      return c * (Q(i, k) - Q(nb(i, a, -1), k)) / m.dx[a];
   }
   // flux through the upper side of a cell, seen from the cell
   template <class F> std::vector<R> upper(int a, const hier::Index& i, F flux) const
   {
      hier::Index s(nb(i, a, 1));
      std::vector<R> f;
      for (int k = 0; k < n; k++) f.push_back(flux(a, s, k));
      if (!symmetric) return f;
      double in[4], out[4];
      for (int k = 0; k < n; k++) in[k] = f[k];
      quatsymmrotate_(in, -index(a, s), out, n);
      for (int k = 0; k < n; k++) f[k] = R(out[k]);
      return f;
   }
   template <class F> std::vector<R> divergence(const hier::Index& i, F flux) const
   {
      std::vector<R> d(n, R(0.));
      for (int a = 0; a < NDIM; a++) { auto up = upper(a, i, flux); for (int k = 0; k < n; k++) d[k] = d[k] + (up[k] - flux(a, i, k)) / m.dx[a]; }
      return d;
   }
};
// what the time integrator evaluates
CASE(rhs)
{
   Setup s;
   const int n = s.n;
   QuatSysSolver solver(n, s.fc, "solver", nullptr);
   prove(B(refuses([&] { solver.initializeSolverState(s.q, s.rhs, s.m.h); })), "no boundary conditions, no solver");
   solver.setBcObject(&s.bc);
   solver.initializeSolverState(s.q, s.rhs, s.m.h);
   prove(B(logs.size() == 1 && logs[0].what == "init" && logs[0].u == s.q && logs[0].f == s.rhs), "set up with the data");
   const int times = cfg("times", 1);
   for (int t = 0; t < times; t++) solver.evaluateRHS(s.phi, s.T, s.gq, s.gqc, s.rot, s.mob, s.q, s.rhs, s.fromgrad);
   prove(B((int)asked.size() == times), "coefficients computed each time");
   for (auto& x : asked) prove(B(x.phi == s.phi && x.T == s.T && x.gq == s.gqc), "data of the coefficients");
   for (auto& x : filled) prove(B(x.id == s.q && !x.homogeneous), "boundary values of the solution");
   if (!s.fromgrad) prove(B(!filled.empty()), "ghost cells filled");
   Ref Q{s.m, s.q}, M{s.m, s.mob}, O{s.m, s.rhs};
   VERIF_PATCHES(s.m, p) {
      for (auto& i : p->getBox()) {
         auto d = s.divergence(i, [&](int a, const hier::Index& x, int k) { return s.flux(a, x, k, times - 1); });
         R along = 0., q2 = 0., stays = 0.;
         for (int k = 0; k < n; k++) { along = along + Q(i, k) * d[k]; q2 = q2 + Q(i, k) * Q(i, k); }
         for (int k = 0; k < n; k++) {
            eq(R((*cd(*p, s.rhs))(pdat::CellIndex(i), k)), -M(i) * (n > 1 ? d[k] - Q(i, k) * along / q2 : d[k]), at("rhs", i, k));
            stays = stays + Q(i, k) * R((*cd(*p, s.rhs))(pdat::CellIndex(i), k));
         }
         if (n > 1 && !s.symmetric) eq(stays, R(0.), at("orthogonal to q", i));
      }
   }
   eqall(s.m, s.q, [&](const hier::Index& i, int k) { return real(at("q", i, n > 1 ? k : -1), 0.1, 2.); }, "quaternion unchanged");
   intact(s.m);
}
CASE(residual)      // of the linear system of the preconditioner
{
   Setup s;
   const int n = s.n;
   QuatFACOps ops(n, s.fc, "ops", nullptr);
   ops.setPhysicalBcCoefObject(&s.bc);
   int u = cell(s.m, "u", 1, n), f = cell(s.m, "f", cfg("ngf"), n), r = out(s.m, "r", cfg("ngr"), n);
   auto vu = vec(s.m, "u", u), vf = vec(s.m, "f", f), vr = vec(s.m, "r", r);
   ops.initializeOperatorState(vu, vf);
   int used = 0;
   if (cfg("before") || s.symmetric) { ops.evaluateRHS(s.phi, s.T, s.gq, s.gqc, s.mob, s.rot, u, s.rhs, true); used = 1; filled.clear(); }
   R g = real("gamma", 0.01, 2.);
   ops.setOperatorCoefficients(g, s.mob, -1, s.phi, s.T, -1, s.gq, s.q);
   prove(B((int)asked.size() == used + 1 && asked[used].phi == s.phi && asked[used].T == s.T && asked[used].gq == s.gq), "data of the coefficients");
   prove(B((int)matrices.size() == 1 && matrices[0].level == 0 && matrices[0].m == ops.d_sqrt_m_id && matrices[0].fc == asked[used].out), "matrix of the level");
   eq(matrices[0].gamma, g, "matrix of the level, time step");
   if (cfg("before2")) ops.evaluateRHS(s.phi, s.T, s.gq, s.gqc, s.mob, s.rot, u, s.rhs, true);      // must not touch the coefficients of the linear system
   filled.clear();
   const bool error = cfg("homogeneous", 1);
   ops.computeCompositeResidualOnLevel(vr, vu, vf, 0, error);
   prove(B(!filled.empty()), "ghost cells filled");
   for (auto& x : filled) prove(B(x.id == u && x.homogeneous == error), "boundary values of the system");
   Ref U{s.m, u}, M{s.m, s.mob}, F{s.m, f};
   VERIF_PATCHES(s.m, p) {
      for (auto& i : p->getBox()) {
         auto d = s.divergence(i, [&](int a, const hier::Index& x, int k) { hier::Index y(nb(x, a, -1)); return coefficient(used, a, x) * (sqrt(M(x)) * U(x, k) - sqrt(M(y)) * U(y, k)) / s.m.dx[a]; });
         for (int k = 0; k < n; k++) eq(R((*cd(*p, r))(pdat::CellIndex(i), k)), F(i, k) - U(i, k) - g * sqrt(M(i)) * d[k], at("residual", i, k));
      }
   }
   intact(s.m);
}
CASE(solve)      // M^(1/2) A^-1 M^(-1/2) r, also on other data and after the mesh changed
{
   Setup s;
   const int n = s.n;
   QuatSysSolver solver(n, s.fc, "solver", nullptr);
   const int own = cfg("own", 1);
   if (own) solver.setBcObject(&s.bc); else solver.setBoundaries("Dirichlet");
   int u = cell(s.m, "u", 1, n), f = cell(s.m, "f", cfg("ngf"), n), g0 = s.q;
   solver.initializeSolverState(u, f, s.m.h);
   R g = real("gamma", 0.01, 2.);
   solver.setOperatorCoefficients(g, s.mob, -1, s.phi, s.T, -1, s.gq, s.q);
   prove(B(asked.size() == 1 && asked[0].phi == s.phi && asked[0].T == s.T && asked[0].gq == s.gq), "data of the coefficients");
   prove(B((int)matrices.size() == 1), "matrix of the level"); eq(matrices[0].gamma, g, "time step of the matrix");
   Ref M{s.m, s.mob}, F{s.m, f};
   int f0 = cell(s.m, "f", cfg("ngf"), n), su = cell(s.m, "su", 1, n);
   const bool ok = solver.solveSystem(su, f0);
   prove(B(ok == bool(cfg("converged", 1))), "reports whether it converged");
   prove(B(logs.back().what == "solve" && logs.back().u == su && logs.back().f == f0 && logs.back().lo == 0 && logs.back().hi == 0), "data of the solve");
   eqall(s.m, f0, [&](const hier::Index& i, int k) { return F(i, k) / sqrt(M(i)); }, "scaled right hand side");
   eqall(s.m, su, [&](const hier::Index& i, int k) { return sqrt(M(i)) * fn("solution", {F(i, k) / sqrt(M(i)), R(0.)}); }, "solution");
   if (!own) {
      std::vector<std::string> seq;
      for (auto& x : tbox::verif_calls()) if (x.what == "cache" || x.what == "restore") { seq.push_back(x.what); prove(B(x.v[0] == su), "boundary values of the solution"); }
      prove(B(seq == std::vector<std::string>{"cache", "restore"}), "boundary values kept over the solve");
   }
   // projection of a correction: q + corr on the sphere, the error along it
   int corr = out(s.m, "corr", cfg("ngc"), n), err = cell(s.m, "err", cfg("ngr"), n), e0 = cell(s.m, "err", cfg("ngr"), n);
   solver.applyProjection(s.q, corr, err);
   Ref Q{s.m, g0}, E{s.m, e0};
   VERIF_PATCHES(s.m, p) {
      for (auto& i : p->getBox()) {
         R q2 = 0., qe = 0.;
         for (int k = 0; k < n; k++) q2 = q2 + Q(i, k) * Q(i, k);
         R len = sqrt(q2);
         for (int k = 0; k < n; k++) qe = qe + Q(i, k) * E(i, k);
         for (int k = 0; k < n; k++) {
            eq(R((*cd(*p, corr))(pdat::CellIndex(i), k)), Q(i, k) / len - Q(i, k), at("correction", i, k));
            eq(R((*cd(*p, err))(pdat::CellIndex(i), k)), E(i, k) - Q(i, k) * qe / q2, at("error", i, k));
         }
      }
   }
   intact(s.m);
   // the mesh gets a level
   refine(s.m, box(2));
   const int fine = s.m.h->getFinestLevelNumber();
   for (int id : {u, f}) { auto lv = s.m.h->getPatchLevel(fine); lv->allocatePatchData(id, 0.); for (auto& p : *lv) cd(*p, id)->fillAll(0.5); }
   const int old = logs.size();
   solver.resetSolverState(u, f, s.m.h);
   prove(B((int)logs.size() == old + 2 && logs[old].what == "free" && logs[old + 1].what == "init" && logs[old + 1].u == u && logs[old + 1].f == f && logs[old + 1].lo == 0 && logs[old + 1].hi == fine), "set up on the new mesh");
}
