// forces between particles and their motion as rigid bodies
#include "stubs.h"
#include "QuatModelParameters.h"
#include "WangRigidBodyForces.h"
#include "PhaseRigidBodyForces.h"
#include "RigidBodyMotionRHS.h"
#include "RigidBodyMotionConcRHS.h"
#include "FuncFort.h"
using namespace fx;
typedef QuatModelParameters QP;
void copyDatabase(std::shared_ptr<SAMRAI::tbox::Database>, boost::property_tree::ptree&) {}
// all processes hold the same part
static R* ranks = nullptr;
void sumReduction(double* x, const int n) { for (int i = 0; i < n; i++) x[i] = x[i] * *ranks; }
double sumReduction(const double x) { return x * *ranks; }
static Mesh make()
{
   Mesh m = cfg("patches", 1) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), 1, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(cfg("fx", 1), 1, 1));
   return m;
}
static hier::Index up(hier::Index i, int a, int s) { i[a] += s; return i; }
CASE(forces)
{
   Mesh m = make();
   const bool wang = cfg("wang", 1);
   const int n = cfg("n", 2), nc = cfg("nc", 1);
   R rk = real_pos("processes");
   ranks = &rk;
   int phi = cell(m, "phi", cfg("ng", 1), n + 1), conc = cell(m, "conc", cfg("ngc", 1), nc), w = cell(m, "weight", 0);
   QP par;
   par.d_norderp_A = n;
   par.d_norderp_B = 0;
   par.d_norderp = n + 1;
   R k = par.d_rb_stiffness = real("stiffness"), rho = par.d_rb_equil_gb = real("rhoe"), thr = par.d_rb_threshold = real("threshold");
   R ws = par.d_phase_well_scale = real("well"), gam = par.d_gamma = real("gamma");
   std::shared_ptr<RigidBodyForces> s;
   if (wang) s.reset(new WangRigidBodyForces(par, phi, conc, w)); else s.reset(new PhaseRigidBodyForces(par, phi, w));
   for (int c = 0; c < cfg("calls", 1); c++) s->evaluatePairForces(m.h);
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      std::array<double, NDIM> f, g;
      s->getPairForce(i, j, f);
      s->getPairForce(j, i, g);
      for (int a = 0; a < NDIM; a++) {
         R sum = 0.;
         VERIF_PATCHES(m, p) for (auto& x : p->getBox()) {
            Ref P{m, phi}, C{m, conc}, W{m, w};
            auto grad = [&](int q) { return (P(up(x, a, 1), q) - P(up(x, a, -1), q)) / (2. * m.dx[a]); };
            if (i == j) continue;
            if (wang) {
               R rhos = 0.;
               for (int q = 0; q < nc; q++) rhos = rhos + C(x, q);
               rhos = vmin(rhos, R(1.));
               const R z = 0.5 + 10. * (P(x, i) * P(x, j) - thr);
               sum = ite(gt(z, R(0.)), sum + W(x, 0) * (rhos - rho) * INTERP_FUNC(z, "p") * (grad(i) - grad(j)), sum);
            } else sum = sum + W(x, 0) * gam * 8. * ws * P(x, i) * P(x, i) * P(x, j) * grad(j);
         }
         eq(f[a], rk * k * sum, lab("force on particle", i, "by", j, "along", a));
         if (wang) eq(f[a], -g[a], lab("action and reaction", i, j, a));
      }
   }
   intact(m);
}
CASE(motion)
{
   Mesh m = make();
   const bool conc = cfg("conc");
   const int n = cfg("n", 2);
   int phi = cell(m, "phi", cfg("ng", 1), n + 1), w = cell(m, "weight", 0), rhs = cell(m, "rhs", cfg("ngr"), conc ? 1 : n + 1), old = cell(m, "rhs", cfg("ngr"), conc ? 1 : n + 1);
   R mob = real("mobility");
   std::vector<std::array<double, NDIM>> F(n);
   std::vector<R> vol;
   for (int i = 0; i < n; i++) {
      for (int a = 0; a < NDIM; a++) F[i][a] = real(lab("F", i, a));
      R v = 0.;
      VERIF_PATCHES(m, p) for (auto& x : p->getBox()) v = v + (*cd(*p, w))(pdat::CellIndex(x), 0) * (*cd(*p, phi))(pdat::CellIndex(x), i);
      assume(gt(v, R(0.)));
      vol.push_back(v);
   }
   if (conc) { RigidBodyMotionConcRHS s(phi, w, mob); s.addRHS(m.h, rhs, F); } else { RigidBodyMotionRHS s(phi, w, mob); s.addRHS(m.h, rhs, F); }
   Ref P{m, phi}, O{m, old};
   VERIF_PATCHES(m, p) for (auto& x : p->getBox()) for (int d = 0; d < (conc ? 1 : n + 1); d++) {
      R v = O(x, d);
      for (int i = 0; i < n; i++) for (int a = 0; a < NDIM; a++)
         if (conc || i == d) v = v - mob * F[i][a] / vol[i] * (P(up(x, a, 1), i) - P(up(x, a, -1), i)) / (2. * m.dx[a]);
      eq((*cd(*p, rhs))(pdat::CellIndex(x), d), v, at("rhs", x, d));
   }
   intact(m);
}
