// operators of the elliptic solvers: M div(D grad u) + C u
#include "stubs.h"
#include "PhaseFACOps.h"
#include "EtaFACOps.h"
#include "ConcFACOps.h"
#include "TemperatureFACOps.h"
#include "PhaseTemperatureFACOps.h"
#include "FuncFort.h"
#include "InterpolationType.h"
#include "robin.h"
using namespace fx;
extern "C" double SECOND_DERIV_WELL_FUNC(const double&, const char*);
// SAMRAI's boundary kernels: ghost value such that a u + b du/dn = g at the face
extern "C" void settype1cells2d_(double* data, const int& difirst, const int& dilast, const int& djfirst, const int&, const double* a, const double* b, const double* g, const int& ifirst, const int& ilast, const int& jfirst, const int&,
                                 const int& ibeg, const int& iend, const int& jbeg, const int& jend, const int& face, const int& ghos, const int& inte, const int& location, const double& h, const int& zerog)
{
   const int n = dilast - difirst + 1, nf = ilast - ifirst + 1;
   for (int j = jbeg; j <= jend; j++)
      for (int i = ibeg; i <= iend; i++) {
         const int q = location < 2 ? (face - ifirst) + (j - jfirst) * nf : (i - ifirst) + (face - jfirst) * nf;
         const int to = location < 2 ? (ghos - difirst) + (j - djfirst) * n : (i - difirst) + (ghos - djfirst) * n;
         const int from = location < 2 ? (inte - difirst) + (j - djfirst) * n : (i - difirst) + (inte - djfirst) * n;
         double v = data[from] * (b[q] - 0.5 * h * a[q]);
         if (!zerog) v = v + h * g[q];
         data[to] = v / (b[q] + 0.5 * h * a[q]);
      }
}
extern "C" void settype1cells3d_(double* data, const int& difirst, const int& dilast, const int& djfirst, const int& djlast, const int& dkfirst, const int&, const double* a, const double* b, const double* g, const int& ifirst, const int& ilast,
                                 const int& jfirst, const int& jlast, const int& kfirst, const int&, const int& ibeg, const int& iend, const int& jbeg, const int& jend, const int& kbeg, const int& kend, const int& face, const int& ghos, const int& inte,
                                 const int& location, const double& h, const int& zerog)
{
   const int n0 = dilast - difirst + 1, n1 = djlast - djfirst + 1, f0 = ilast - ifirst + 1, f1 = jlast - jfirst + 1, ax = location / 2;
   auto at = [&](int i, int j, int k) { return (i - difirst) + ((j - djfirst) + (k - dkfirst) * n1) * n0; };
   for (int k = kbeg; k <= kend; k++)
      for (int j = jbeg; j <= jend; j++)
         for (int i = ibeg; i <= iend; i++) {
            int x[3] = {i, j, k}, y[3] = {i, j, k}, z[3] = {i, j, k};
            x[ax] = face; y[ax] = ghos; z[ax] = inte;
            const int q = (x[0] - ifirst) + ((x[1] - jfirst) + (x[2] - kfirst) * f1) * f0;
            double v = data[at(z[0], z[1], z[2])] * (b[q] - 0.5 * h * a[q]);
            if (!zerog) v = v + h * g[q];
            data[at(y[0], y[1], y[2])] = v / (b[q] + 0.5 * h * a[q]);
         }
}
extern "C" void settype2cells2d_(double*, const int&, const int&, const int&, const int&, const int*, const int*, const int&) { ::verif_stop("unmodelled corner", "facops", 0); }
extern "C" void settype2cells3d_(double*, const int&, const int&, const int&, const int&, const int&, const int&, const int*, const int*, const int&) { ::verif_stop("unmodelled edge", "facops", 0); }
extern "C" void settype3cells3d_(double*, const int&, const int&, const int&, const int&, const int&, const int&, const int*, const int*, const int&) { ::verif_stop("unmodelled corner", "facops", 0); }
// SAMRAI's flux kernels for a constant D
static void condc(double* const* flux, const int* fg, const double& D, const double* u, const int* ug, const int* lo, const int* hi, const double* dx)
{
   for (int a = 0; a < NDIM; a++) {
      int h[3] = {hi[0], hi[1], NDIM == 3 ? hi[2] : 0}, l2 = NDIM == 3 ? lo[2] : 0;
      h[a]++;
      for (int k = l2; k <= h[2]; k++)
         for (int j = lo[1]; j <= h[1]; j++)
            for (int i = lo[0]; i <= h[0]; i++) {
               const int x[3] = {i, j, k};
               auto at = [&](const int* g, int side, int back) {
                  int r = 0;
                  for (int b = NDIM - 1; b >= 0; b--) r = r * (hi[b] - lo[b] + 1 + 2 * g[b] + (b == side)) + x[b] - (b == a ? back : 0) - lo[b] + g[b];
                  return r;
               };
               flux[a][at(fg, a, 0)] = D * (u[at(ug, -1, 0)] - u[at(ug, -1, 1)]) / dx[a];
            }
   }
}
extern "C" void compfluxcondc2d_(double* x, double* y, const int* fi, const int* fj, const double& D, const double* u, const int* ui, const int* uj, const int* i0, const int* i1, const int* j0, const int* j1, const double* dx)
{
   double* f[2] = {x, y};
   const int fg[2] = {*fi, *fj}, ug[2] = {*ui, *uj}, lo[2] = {*i0, *j0}, hi[2] = {*i1, *j1};
   condc(f, fg, D, u, ug, lo, hi, dx);
}
extern "C" void compfluxcondc3d_(double* x, double* y, double* z, const int* fi, const int* fj, const int* fk, const double& D, const double* u, const int* ui, const int* uj, const int* uk, const int* i0, const int* i1, const int* j0, const int* j1,
                                 const int* k0, const int* k1, const double* dx)
{
   double* f[3] = {x, y, z};
   const int fg[3] = {*fi, *fj, *fk}, ug[3] = {*ui, *uj, *uk}, lo[3] = {*i0, *j0, *k0}, hi[3] = {*i1, *j1, *k1};
   condc(f, fg, D, u, ug, lo, hi, dx);
}
// the solver of the coarsest level is not used here
CellPoissonHypreSolver::CellPoissonHypreSolver(const std::string& n, std::shared_ptr<tbox::Database>) : d_dim(tbox::Dimension(NDIM)), d_object_name(n), d_physical_bc_simple_case(tbox::Dimension(NDIM), n), d_cf_bc_coef(tbox::Dimension(NDIM), n) {}
CellPoissonHypreSolver::~CellPoissonHypreSolver() {}
void CellPoissonHypreSolver::deallocateSolverState() {}
void CellPoissonHypreSolver::initializeSolverState(std::shared_ptr<hier::PatchHierarchy>, int) {}
void CellPoissonHypreSolver::setMatrixCoefficients(const PoissonSpecifications&) {}
int CellPoissonHypreSolver::solveSystem(const int, const int, bool, bool) { ::verif_stop("unmodelled coarse solver", "facops", 0); }

// the discrete operator on a hierarchy
struct Oper {
   const Mesh& m;
   Cell u, C, M;               // C per component
   Side D;
   bool homogeneous;
   hier::Box mine() const { hier::Box b(tbox::Dimension(NDIM)); for (auto& p : *m.level(lev)) b = b + p->getBox(); return b; }
   bool inside(const hier::Index& i) const { return mine().contains(i); }
   // value next to cell i across its side s of axis a
   R next(const hier::Index& i, int a, int s, int k) const
   {
      hier::Index n(nb(i, a, s ? 1 : -1));
      if (dom(m).contains(n)) {
         if (inside(n)) return u(n, k);
         LevScope sc;
         setlev(lev - 1);
         return u(up(n), k);
      }
      hier::Index f(s ? n : i);
      R al = Bc::coef("bca", 2 * a + s, f), be = Bc::coef("bcb", 2 * a + s, f);
      R x = u(i, k) * (be - 0.5 * m.dx[a] * al);
      if (!homogeneous) x = x + m.dx[a] * Bc::coef("bcg", 2 * a + s, f);
      return x / (be + 0.5 * m.dx[a] * al);
   }
   // flux through side s of axis a, computed on this level
   R own(int a, const hier::Index& s, int k) const
   {
      hier::Index r(s), l(nb(s, a, -1));
      if (inside(r) && inside(l)) return D(a, s, k) * (u(r, k) - u(l, k)) / m.dx[a];
      const bool high = inside(l);
      hier::Index i(high ? l : r);
      R d = high ? next(i, a, 1, k) - u(i, k) : u(i, k) - next(i, a, 0, k);
      R F = D(a, s, k) * d / m.dx[a];
      if (!dom(m).contains(nb(i, a, high ? 1 : -1))) return F;
      // coarse-fine side: weighted with the difference to the cell on the other side of the coarse face (Ewing, Lazarov, Vassilevski)
      hier::Index j(i);
      for (int b = 0; b < NDIM; b++) if (b != a) j[b] = 2 * up(i)[b] + (1 - (i[b] - 2 * up(i)[b]));
      R t = D(a, s, k) * (u(j, k) - u(i, k)) / m.dx[a];
      return (2. * F + (high ? -t : t)) / 3.;
   }
   // flux of the composite grid
   R flux(int a, const hier::Index& s, int k) const
   {
      if (lev + 1 < m.h->getNumberOfLevels()) {
         LevScope sc;
         hier::Index s2(s);
         for (int b = 0; b < NDIM; b++) s2[b] = 2 * s[b];
         setlev(lev + 1);
         hier::Box b(mine());
         if (s2[a] == b.lower(a) || s2[a] == b.upper(a) + 1) {
            hier::Index q(s2);
            q[a] = b.lower(a);
            if (b.contains(q)) {
               hier::Index hi(s2);
               for (int c = 0; c < NDIM; c++) if (c != a) hi[c] = s2[c] + 1;
               R t = 0.;
               for (auto& x : hier::Box(s2, hi)) t = t + own(a, x, k);
               return t / (NDIM == 3 ? 4. : 2.);
            }
         }
      }
      return own(a, s, k);
   }
   R div(const hier::Index& i, int k) const
   {
      R r = 0.;
      for (int a = 0; a < NDIM; a++) r = r + (flux(a, nb(i, a, 1), k) - flux(a, i, k)) / m.dx[a];
      return r;
   }
   R operator()(const hier::Index& i, int k) const { return M(i, k) * div(i, k) + C(i, k) * u(i, k); }
};
static std::shared_ptr<tbox::Database> options()
{
   auto db = std::make_shared<tbox::MemoryDatabase>("solver");
   db->putString("coarse_solver_choice", "redblack");
   return db;
}
static Mesh domain()
{
   Mesh m = grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), cfg("patches", 1), cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   return m;
}
static solv::SAMRAIVectorReal<double> vec(const Mesh& m, const char* n, int id)
{
   solv::SAMRAIVectorReal<double> v(n, m.h, 0, m.h->getNumberOfLevels() - 1);
   std::shared_ptr<hier::Variable> var;
   hier::VariableDatabase::getDatabase()->mapIndexToVariable(id, var);
   v.addComponent(var, id);
   return v;
}
// everything an operator needs, coefficients set through the interface of the base class
struct Setup {
   Mesh m;
   int depth, u, f;
   Bc bc;
   std::unique_ptr<EllipticFACOps> ops;
   std::shared_ptr<Oper> op;
   Setup(std::function<EllipticFACOps*(int)> make = nullptr) : m(domain()), depth(cfg("depth", 1))
   {
      u = cell(m, "u", 1, depth);
      f = cell(m, "f", cfg("ngf"), depth);
      bc.ext = cfg("ext");
      ops.reset(make ? make(depth) : new EllipticFACOps(tbox::Dimension(NDIM), "ops", options(), depth));
      ops->setPhysicalBcCoefObject(&bc);
      auto vu = vec(m, "solution", u), vf = vec(m, "rhs", f);
      ops->initializeOperatorState(vu, vf);
      int U = cell(m, "u", 0, depth);      // the values before the ghost cells are filled and before any sweep
      op.reset(new Oper{m, Ref{m, U}, Cell(), Cell(), Side(), false});
      if (make) return;
      if (cfg("mvar")) {
         int M = cell(m, "M", 1);
         ops->setM(M);
         const Mesh& mm = m;
         op->M = [M, &mm](const hier::Index& i, int) { return Ref{mm, M}(i); };
      } else {
         R M = real_pos("M");
         ops->setMConstant(M);
         op->M = [M](const hier::Index&, int) { return M; };
      }
      const int cv = cfg("cvar", 0);      // 0: constant, 1: field, 2: none
      if (cv == 1) {
         int C = cell(m, "C", cfg("ngc"));
         for (int k = 0; k < depth; k++) ops->setCPatchDataId(C, k);
         const Mesh& mm = m;
         op->C = [C, &mm](const hier::Index& i, int) { return Ref{mm, C}(i); };
      } else if (cv == 0) {
         R C = real_pos("C");
         for (int k = 0; k < depth; k++) ops->setCConstant(C, k);
         op->C = [C](const hier::Index&, int) { return C; };
      } else {
         for (int k = 0; k < depth; k++) ops->setCConstant(R(0.), k);
         op->C = [](const hier::Index&, int) { return R(0.); };
      }
      if (cfg("dvar")) {
         std::vector<int> D;
         for (int k = 0; k < depth; k++) { D.push_back(side(m, lab("D", k), cfg("ngd"))); ops->setDPatchDataId(D[k], k); }
         const Mesh& mm = m;
         op->D = [D, &mm](int a, const hier::Index& s, int k) { return Ref{mm, D[k]}(a, s, 0); };
      } else {
         std::vector<R> D;
         for (int k = 0; k < depth; k++) { D.push_back(real(lab("D", k), R(-10.), R(-0.01))); ops->setDConstant(D[k], k); }
         op->D = [D](int, const hier::Index&, int k) { return D[k]; };
      }
   }
};
CASE(apply)      // evaluateRHS
{
   Setup s;
   int out = cell(s.m, "result", cfg("ngr"), s.depth);
   s.ops->evaluateRHS(s.u, out);
   eqall(s.m, out, [&](const hier::Index& i, int k) { return -(*s.op)(i, k); }, "result");
   eqall(s.m, s.u, [&](const hier::Index& i, int k) { return real(at("u", i, s.depth > 1 ? k : -1)); }, "the argument keeps its values");
   intact(s.m);
}
CASE(residual)
{
   Setup s;
   int out = cell(s.m, "result", cfg("ngr"), s.depth);
   s.op->homogeneous = cfg("homogeneous");
   auto vu = vec(s.m, "u", s.u), vf = vec(s.m, "f", s.f), vr = vec(s.m, "r", out);
   for (int l = s.m.h->getNumberOfLevels() - 1; l >= 0; l--) s.ops->computeCompositeResidualOnLevel(vr, vu, vf, l, s.op->homogeneous);
   eqall(s.m, out, [&](const hier::Index& i, int k) { return Ref{s.m, s.f}(i, k) - (*s.op)(i, k); }, "residual");
   intact(s.m);
}
CASE(smooth)      // sweeps of red-black Gauss-Seidel on one level
{
   Setup s;
   s.op->homogeneous = true;
   const int ln = cfg("level");
   auto vu = vec(s.m, "u", s.u), vf = vec(s.m, "f", s.f);
   const int sweeps = cfg("sweeps", 1);
   s.ops->smoothError(vu, vf, ln, sweeps);
   {
   LevScope sc;
   setlev(ln);
   std::map<std::string, R> now;
   auto key = [](const hier::Index& i, int k) { return at("", i, k); };
   Cell init = s.op->u;
   hier::Box cells(s.op->mine());
   for (auto& i : cells) for (int k = 0; k < s.depth; k++) now[key(i, k)] = init(i, k);
   Oper cur(*s.op);
   auto own = [&](const hier::Index& i, int k) {
      R d = 0.;
      for (int a = 0; a < NDIM; a++) d = d + (cur.own(a, nb(i, a, 1), k) - cur.own(a, i, k)) / s.m.dx[a];
      return s.op->M(i, k) * d + s.op->C(i, k) * cur.u(i, k);
   };
   for (int n = 0; n < sweeps; n++)
      for (int colour = 0; colour < 2; colour++) {
         std::map<std::string, R> old(now);
         cur.u = [&](const hier::Index& i, int k) { return lev == ln ? old.at(key(i, k)) : init(i, k); };
         for (auto& i : cells) {
            int sum = 0;
            for (int a = 0; a < NDIM; a++) sum += i[a];
            if ((sum % 2 != 0) != (colour != 0)) continue;
            for (int k = 0; k < s.depth; k++) {
               R diag = s.op->C(i, k);
               for (int a = 0; a < NDIM; a++) diag = diag - s.op->M(i, k) * (s.op->D(a, i, k) + s.op->D(a, nb(i, a, 1), k)) / (s.m.dx[a] * s.m.dx[a]);
               now[key(i, k)] = old.at(key(i, k)) + (Ref{s.m, s.f}(i, k) - own(i, k)) / diag;
            }
         }
      }
   const int u = s.u;
   eqall(s.m, u, [&](const hier::Index& i, int k) { return lev == ln ? now.at(key(i, k)) : init(i, k); }, "smoothed");
   }
   intact(s.m);
}
// value of a field averaged over the children of a coarse cell
static R children(const Mesh& m, const Cell& f, const hier::Index& i, int k)
{
   LevScope sc;
   setlev(lev + 1);
   hier::Index l(i), h(i);
   for (int a = 0; a < NDIM; a++) { l[a] = 2 * i[a]; h[a] = l[a] + 1; }
   R s = 0.;
   for (auto& j : hier::Box(l, h)) s = s + f(j, k);
   return s / (NDIM == 3 ? 8. : 4.);
}
static bool covered(const Setup& s, const hier::Index& i)
{
   if (lev + 1 >= s.m.h->getNumberOfLevels()) return false;
   LevScope sc;
   setlev(lev + 1);
   hier::Index l(i);
   for (int a = 0; a < NDIM; a++) l[a] = 2 * i[a];
   return s.op->mine().contains(l);
}
CASE(transfer)      // between two levels
{
   Setup s;
   const int what = cfg("what");
   Cell f = s.op->u;
   auto vu = vec(s.m, "u", s.u), vf = vec(s.m, "f", s.f);
   int w = cell(s.m, "w", 1, s.depth), W = cell(s.m, "w", 0, s.depth);
   Ref old{s.m, W};
   auto vw = vec(s.m, "w", w);
   if (what == 0) {
      s.ops->prolongErrorAndCorrect(vu, vw, 1);
      eqall(s.m, w, [&](const hier::Index& i, int k) {
         R r = old(i, k);
         if (lev == 0) return r;
         LevScope sc;
         setlev(0);
         return r + f(up(i), k);
      }, "corrected");
   } else {
      if (what == 1) s.ops->restrictSolution(vu, vw, 0);
      else s.ops->restrictResidual(vu, vw, 0);
      eqall(s.m, w, [&](const hier::Index& i, int k) { return lev == 0 && covered(s, i) ? children(s.m, f, i, k) : old(i, k); }, what == 1 ? "restricted solution" : "restricted residual");
   }
   eqall(s.m, s.u, [&](const hier::Index& i, int k) { return f(i, k); }, "the source keeps its values");
   intact(s.m);
}
CASE(weights)      // cell volumes of the cells not covered by a finer level
{
   Setup s;
   int w = cell(s.m, "w", cfg("ngw"), s.depth);
   s.ops->computeVectorWeights(s.m.h, w);
   eqall(s.m, w, [&](const hier::Index& i, int) {
      if (covered(s, i)) return R(0.);
      R v = 1.;
      for (int a = 0; a < NDIM; a++) v = v * s.m.dx[a];
      return v;
   }, "weight");
   intact(s.m);
}
static R dwell(R x, const char* t) { return SECOND_DERIV_WELL_FUNC(x, t); }
CASE(coefficients)      // the operators of the preconditioner blocks
{
   const int kind = cfg("kind");
   Setup s([&](int depth) -> EllipticFACOps* {
      tbox::Dimension d(NDIM);
      switch (kind) {
         case 0: return new PhaseFACOps("ops", options());
         case 1: return new EtaFACOps("ops", options());
         case 2: return new ConcFACOps("ops", depth, options());
         case 3: return new TemperatureFACOps("ops", options());
         default: return new PhaseTemperatureFACOps("ops", options());
      }
   });
   R g = real_pos("gamma"), e = real_pos("epsilon"), W = real_pos("well");
   const char* well = cfg("well") ? "s" : "d";
   int phi = cell(s.m, "phi", cfg("ngp"), 1, 0., 1.), eta = cell(s.m, "eta", cfg("ngp"), 1, 0., 1.), mob = cell(s.m, "mobility", 1, 1, 0.1, 2.);
   Ref P{s.m, phi}, E{s.m, eta}, Mob{s.m, mob};
   Oper& o = *s.op;
   o.M = [&](const hier::Index& i, int) { return Mob(i); };
   auto constant = [](R v) { return [v](const hier::Index&, int) { return v; }; };
   auto sides = [](R v) { return [v](int, const hier::Index&, int) { return v; }; };
   std::vector<int> dif;
   R sign = 1.;
   if (kind == 0) {
      static_cast<PhaseFACOps&>(*s.ops).setOperatorCoefficients(phi, mob, e, g, W, well);
      o.C = [&](const hier::Index& i, int) { return 1. + g * Mob(i) * W * dwell(P(i), well); };
      o.D = sides(-g * e * e);
   } else if (kind == 1) {
      static_cast<EtaFACOps&>(*s.ops).setOperatorCoefficients(phi, eta, mob, e, g, cfg("interp") ? Thermo4PFM::EnergyInterpolationType::HARMONIC : Thermo4PFM::EnergyInterpolationType::PBG, W, well);
      o.C = [&](const hier::Index& i, int) { return 1. + g * Mob(i) * W * INTERP_FUNC(P(i), cfg("interp") ? "h" : "p") * dwell(E(i), well); };
      o.D = sides(-g * e * e);
   } else if (kind == 2) {
      R M = real_pos("M");
      for (int k = 0; k < s.depth; k++) dif.push_back(side(s.m, lab("diffusion", k), 0));
      static_cast<ConcFACOps&>(*s.ops).setOperatorCoefficients(g, dif, M);
      o.M = constant(M);
      o.C = constant(1.);
      o.D = [&](int a, const hier::Index& i, int k) { return -g * Ref{s.m, dif[k]}(a, i, 0); };
   } else if (kind == 3) {
      R M = real_pos("M"), C = cfg("steady") ? R(0.) : real("C"), D = real("D", R(-10.), R(-0.01));
      static_cast<TemperatureFACOps&>(*s.ops).setOperatorCoefficients(M, C, D);
      o.M = constant(M);
      o.C = constant(C);
      o.D = sides(D);
   } else {
      static_cast<PhaseTemperatureFACOps&>(*s.ops).setOperatorCoefficients(phi, mob, e, g, W, well);
      o.C = [&](const hier::Index& i, int) { return g * Mob(i) * W * dwell(P(i), well); };
      o.D = sides(-g * e * e);
   }
   int out = cell(s.m, "result", 0, s.depth);
   if (kind == 4) static_cast<PhaseTemperatureFACOps&>(*s.ops).multiplyDTDPhiBlock(s.u, out);
   else s.ops->evaluateRHS(s.u, out);
   eqall(s.m, out, [&](const hier::Index& i, int k) { return -o(i, k); }, "result");
   intact(s.m);
}
