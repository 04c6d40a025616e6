// diffusion coefficients as the strategies classes set them on hierarchies
#include "stubs.h"
#include "ConcFort.h"
#include "QuatFort.h"
#include "FuncFort.h"
#include "ScalarCompositionDiffusionStrategy.h"
#include "TbasedCompositionDiffusionStrategy.h"
#include "WangSinteringCompositionDiffusionStrategy.h"
#include "MobilityCompositionDiffusionStrategy.h"
#include "CompositionStrategyMobilities.h"
#include "QuatFaceCoeff.h"
#include "DerivDiffusionCoeffForQuat.h"
#include "QuatModel.h"
#include "QuatModelParameters.h"
#include "CompositionDiffusionStrategyFactory.h"
using namespace fx;
typedef DiffusionInterpolationType DI;
static const double RGAS = 8.314472;
static DI itype() { return cfg("itype", 0) == 0 ? DI::LINEAR : cfg("itype") == 1 ? DI::PBG : DI::BIASED; }
static char ichar() { return "lpb"[cfg("itype", 0)]; }
static const char* avg() { return cfg("harm") ? "h" : "a"; }
static Mesh twolevels()
{
   Mesh m = cfg("patches", 2) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), 1, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   return m;
}
// pairs of phases with a diffusion of their own; which are switched on is a bit mask of the configuration
struct Pairs {
   R d[5], q[5];
   Pairs()
   {
      const char* n[5] = {"LA", "LB", "AA", "AB", "BB"};
      for (int k = 0; k < 5; k++) {
         d[k] = (cfg("pairs") >> k & 1) ? real_pos(std::string("D0_") + n[k]) : R(0.);
         q[k] = real(std::string("Q0_") + n[k], 0., 1e5);
      }
   }
};
struct Phases {      // components of the order parameters that make up L, A, B
   int n, nA, nB;
   bool three, B;
   int first(int p) const { return three ? p : p == 0 ? n - 1 : p == 1 ? 0 : nA; }
   int count(int p) const { return three || p == 0 ? 1 : p == 1 ? nA : nB; }
};
static Phases phases()
{
   Phases p;
   p.three = cfg("three");
   p.nA = cfg("nA", 1);
   p.nB = cfg("nB", 0);
   p.B = p.three || p.nB > 0;
   p.n = p.three ? 3 : p.nA + p.nB + 1;
   if (!p.three && p.nA == 0) p.n = 1;
   if (p.three) p.nA = p.nB = 1;
   return p;
}
static double* sp(const std::shared_ptr<SD>& s, int a) { return s->getPointer(a, 0); }
#if NDIM == 3
#define SIDES(s) sp(s, 0), sp(s, 1), sp(s, 2)
#else
#define SIDES(s) sp(s, 0), sp(s, 1)
#endif

// which = 0: scalar, 1: temperature dependent, 2: Wang sintering; built directly or by the factory from the parameters
static void check_diffusion(int which)
{
   Mesh m = twolevels();
   Phases P = phases();
   Pairs I;
   int ng = cfg("ng", 1), ngd = cfg("ngd"), ngt = cfg("ngt", 1), dep = cfg("ternary") ? 4 : 1;
   int phi = cell(m, "phi", ng, P.n), T = cell(m, "T", ngt, 1, 100., 4000.), conc = cell(m, "conc", cfg("ngc", 1));
   int id[3], rid[3];
   for (int k = 0; k < 3; k++) { id[k] = side(m, "D" + std::to_string(k), ngd, dep); rid[k] = side(m, "D" + std::to_string(k), ngd, dep); }
   R DL = real_pos("D_liquid"), DA = real_pos("D_solidA"), DB = P.B ? real_pos("D_solidB") : R(0.), QL = real_pos("Q_liquid"), QA = real_pos("Q_solidA"), QB = real_pos("Q_solidB");
   std::shared_ptr<CompositionDiffusionStrategy> s;
   QuatModelParameters par;
   if (cfg("factory")) {
      par.d_with_three_phases = P.three;
      par.d_norderp = P.n;
      par.d_norderp_A = P.nA;
      par.d_norderp_B = P.nB;
      par.d_D_liquid = DL; par.d_D_solid_A = DA; par.d_D_solid_B = DB;
      par.d_Q0_liquid = QL; par.d_Q0_solid_A = QA; par.d_Q0_solid_B = QB;
      par.d_D0_LA = I.d[0]; par.d_D0_LB = I.d[1]; par.d_D0_AA = I.d[2]; par.d_D0_AB = I.d[3]; par.d_D0_BB = I.d[4];
      par.d_Q0_LA = I.q[0]; par.d_Q0_LB = I.q[1]; par.d_Q0_AA = I.q[2]; par.d_Q0_AB = I.q[3]; par.d_Q0_BB = I.q[4];
      par.d_diffusion_interp_type = itype();
      par.d_avg_func_type = avg();
      par.d_conc_diffusion_type = QuatModelParameters::ConcDiffusionType::TD;
      par.d_conc_rhs_strategy = which == 1 ? QuatModelParameters::ConcRHSstrategy::EBS : QuatModelParameters::ConcRHSstrategy::KKS;
      par.d_conc_model = which == 2 ? QuatModelParameters::ConcModel::WangSintering : QuatModelParameters::ConcModel::QUADRATIC;
      s = CompositionDiffusionStrategyFactory::create(nullptr, par, 1, conc, -1, -1, -1, std::vector<int>{id[0]}, id[0], id[1], P.B ? id[2] : -1, -1, -1, -1, nullptr, nullptr);
   } else if (which == 0)
      s = std::make_shared<ScalarCompositionDiffusionStrategy>(P.n, P.nA, P.nB, P.three, id[0], DL, DA, DB, I.d[0], I.d[1], I.d[2], I.d[3], I.d[4], itype(), avg());
   else if (which == 1)
      s = std::make_shared<TbasedCompositionDiffusionStrategy>(P.n, P.nA, P.nB, P.three, id[0], id[1], P.B ? id[2] : -1, DL, QL, DA, QA, DB, QB, I.d[0], I.q[0], I.d[1], I.q[1], I.d[2], I.q[2], I.d[3], I.q[3], I.d[4], I.q[4], itype(), avg());
   else s = std::make_shared<WangSinteringCompositionDiffusionStrategy>(conc, id[0], DL, DA, I.d[0], I.d[2], itype(), avg());
   s->setDiffusion(m.h, T, phi);
   char c = ichar();
   VERIF_PATCHES(m, p) {
      auto f = cd(*p, phi), t = cd(*p, T), x = cd(*p, conc);
      std::shared_ptr<SD> D[3] = {sd(*p, rid[0]), sd(*p, rid[1]), sd(*p, rid[2])};
      const hier::Box& b = p->getBox();
      double* ph[3];
      for (int k = 0; k < 3; k++) ph[k] = f->getPointer(P.first(k) < P.n ? P.first(k) : 0);
      if (which == 0) {
         if (P.B) CONCENTRATION_PFMDIFFUSION_SCALAR_3PHASES(VERIF_BOX(b), ph[0], 1, ph[1], P.count(1), ph[2], P.count(2), ng, SIDES(D[0]), ngd, DL, DA, DB, &c, avg());
         else if (P.n > 1) CONCENTRATION_PFMDIFFUSION_SCALAR_2PHASES(VERIF_BOX(b), ph[0], ph[1], P.count(1), ng, SIDES(D[0]), ngd, DL, DA, &c, avg());
         else CONCENTRATION_PFMDIFFUSION_SCALAR(VERIF_BOX(b), ph[0], ng, SIDES(D[0]), ngd, DL, DA, &c, avg());
      } else if (which == 1) {
         if (P.B) CONCENTRATION_PFMDIFFUSION_OF_TEMPERATURE_THREEPHASES(VERIF_BOX(b), ph[0], 1, ph[1], P.count(1), ph[2], P.count(2), ng, SIDES(D[0]), SIDES(D[1]), SIDES(D[2]), ngd, t->getPointer(), ngt, DL, QL, DA, QA, DB, QB, RGAS, &c, avg());
         else if (P.n > 1) CONCENTRATION_PFMDIFFUSION_OF_TEMPERATURE_MULTIPHASES(VERIF_BOX(b), f->getPointer(), P.n, ng, SIDES(D[0]), SIDES(D[1]), ngd, t->getPointer(), ngt, DL, QL, DA, QA, RGAS, &c, avg());
         else CONCENTRATION_PFMDIFFUSION_OF_TEMPERATURE(VERIF_BOX(b), ph[0], ng, SIDES(D[0]), SIDES(D[1]), ngd, t->getPointer(), ngt, DL, QL, DA, QA, RGAS, &c, avg());
      } else {
         CONCENTRATION_PFMDIFFUSION_SCALAR(VERIF_BOX(b), x->getPointer(), cfg("ngc", 1), SIDES(D[0]), ngd, DL, DA, &c, avg());
         ADD_AB_DIFFUSION(VERIF_BOX(b), f->getPointer(), P.n, f->getPointer(), P.n, ng, SIDES(D[0]), ngd, I.d[2], 1);
         ADD_AB_DIFFUSION_SINGLE(VERIF_BOX(b), x->getPointer(), cfg("ngc", 1), SIDES(D[0]), ngd, I.d[0]);
      }
      if (which != 2 && P.n > 1) {
         const int a[5] = {1, 2, 1, 2, 2}, bb[5] = {0, 0, 1, 1, 2};
         for (int k = 0; k < 5; k++) {
            if (!(cfg("pairs") >> k & 1) || ((a[k] == 2 || bb[k] == 2) && !P.B)) continue;
            if (which == 0) ADD_AB_DIFFUSION(VERIF_BOX(b), ph[a[k]], P.count(a[k]), ph[bb[k]], P.count(bb[k]), ng, SIDES(D[0]), ngd, I.d[k], a[k] == bb[k]);
            else AB_DIFFUSION_OF_TEMPERATURE(VERIF_BOX(b), ph[a[k]], P.count(a[k]), ph[bb[k]], P.count(bb[k]), ng, SIDES(D[a[k]]), SIDES(D[bb[k]]), ngd, t->getPointer(), ngt, I.d[k], I.q[k], RGAS, a[k] == bb[k]);
         }
      }
   }
   for (int k = 0; k < (which == 1 ? (P.B ? 3 : 2) : 1); k++) {
      VERIF_PATCHES(m, p) {
         auto X = sd(*p, id[k]), Y = sd(*p, rid[k]);
         for (int a = 0; a < NDIM; a++)
            for (auto& i : X->getArrayData(a).getBox())
               for (int d = 0; d < dep; d++) eq(X->getArrayData(a)(i, d), Y->getArrayData(a)(i, d == 3 ? 0 : d), at("D" + std::to_string(k) + "xyz"[a], i, d));
      }
   }
   intact(m);
}
CASE(scalar) { check_diffusion(0); }
CASE(tbased) { check_diffusion(1); }
CASE(wang) { check_diffusion(2); }

// composition dependent diffusion: mobility matrix times second derivatives of the energy, phase by phase
struct EnergyStub : public StubFreeEnergy {
   void put2(const char* n, const double t, const std::vector<double>& c, std::vector<double>& d, bool internal)
   {
      std::vector<double> a{t};
      for (auto& x : c) a.push_back(x);
      for (size_t k = 0; k < c.size() * c.size(); k++) d[k] = fn(std::string(n) + (internal ? "i" : "") + std::to_string(k), a);
   }
   void computeSecondDerivativeEnergyPhaseL(const double t, const std::vector<double>& c, std::vector<double>& d, const bool u = true) { put2("d2fL", t, c, d, u); }
   void computeSecondDerivativeEnergyPhaseA(const double t, const std::vector<double>& c, std::vector<double>& d, const bool u = true) { put2("d2fA", t, c, d, u); }
};
// interdiffusion mobilities of the phases: any functions of composition and temperature
static void mobility(const char* n, const std::vector<double>& c, const double t, std::vector<double>& v)
{
   std::vector<double> a{t};
   for (auto& x : c) a.push_back(x);
   for (size_t k = 0; k < c.size() * c.size(); k++) v[k] = fn(std::string(n) + std::to_string(k), a);
}
void CompositionStrategyMobilities::computeDiffusionMobilityPhaseL(const std::vector<double>& c, const double t, std::vector<double>& v) { mobility("mobL", c, t, v); }
void CompositionStrategyMobilities::computeDiffusionMobilityPhaseA(const std::vector<double>& c, const double t, std::vector<double>& v) { mobility("mobA", c, t, v); }
void CompositionStrategyMobilities::computeDiffusionMobilityPhaseB(const std::vector<double>& c, const double t, std::vector<double>& v) { mobility("mobB", c, t, v); }
CASE(composition_dependent)
{
   Mesh m = twolevels();
   int nc = cfg("nc", 1), ng = cfg("ng", 1), ngt = cfg("ngt", 1), ngc = cfg("ngc", 1);
   int phi = cell(m, "phi", ng), T = cell(m, "T", ngt, 1, 100., 4000.), cl = cell(m, "cl", ngc, nc, 0., 0.4), ca = cell(m, "ca", ngc, nc, 0., 0.4);
   int dl = outs(m, "Dl", cfg("ngdc"), nc * nc), da = outs(m, "Da", cfg("ngdc"), nc * nc), pl = outs(m, "Pl", cfg("ngd"), nc * nc), pa = outs(m, "Pa", cfg("ngd"), nc * nc);
   static char raw[sizeof(CompositionStrategyMobilities)] __attribute__((aligned(16)));
   CompositionStrategyMobilities* s = reinterpret_cast<CompositionStrategyMobilities*>(raw);
   s->d_ncompositions = nc;
   auto fe = std::make_shared<EnergyStub>();
   MobilityCompositionDiffusionStrategy st(nc, cl, ca, pl, pa, dl, da, avg(), itype(), s, fe);
   st.setDiffusion(m.h, T, phi);
   char c = ichar();
   VERIF_PATCHES(m, p) {
      auto F = cd(*p, phi), t = cd(*p, T), CL = cd(*p, cl), CA = cd(*p, ca);
      for (int a = 0; a < NDIM; a++)
         for (auto& i : pdat::SideGeometry::toSideBox(p->getBox(), a)) {
            pdat::CellIndex u(i), d(nb(i, a, -1));
            R Ts = 0.5 * ((*t)(u) + (*t)(d));
            std::vector<double> xl(nc), xa(nc), ml(nc * nc), ma(nc * nc), fl(nc * nc), fa(nc * nc);
            for (int k = 0; k < nc; k++) { xl[k] = 0.5 * ((*CL)(u, k) + (*CL)(d, k)); xa[k] = 0.5 * ((*CA)(u, k) + (*CA)(d, k)); }
            mobility("mobL", xl, Ts, ml);
            mobility("mobA", xa, Ts, ma);
            fe->computeSecondDerivativeEnergyPhaseL(Ts, xl, fl, false);
            fe->computeSecondDerivativeEnergyPhaseA(Ts, xa, fa, false);
            R h = INTERP_FUNC(AVERAGE_FUNC((*F)(u), (*F)(d), avg()), &c);
            for (int r = 0; r < nc; r++)
               for (int q = 0; q < nc; q++) {
                  R Dl = 0., Da = 0.;
                  for (int k = 0; k < nc; k++) { Dl = Dl + ml[r * nc + k] * fl[k * nc + q]; Da = Da + ma[r * nc + k] * fa[k * nc + q]; }
                  int e = q * nc + r;   // as the flux kernels take it: by columns
                  std::string w = std::string(1, "xyz"[a]);
                  eq(sd(*p, dl)->getArrayData(a)(i, e), Dl, at("liquid diffusion " + w, i, e));
                  eq(sd(*p, da)->getArrayData(a)(i, e), Da, at("solid diffusion " + w, i, e));
                  eq(sd(*p, pl)->getArrayData(a)(i, e), (1. - h) * sd(*p, dl)->getArrayData(a)(i, e), at("weighted liquid diffusion " + w, i, e));
                  eq(sd(*p, pa)->getArrayData(a)(i, e), h * sd(*p, da)->getArrayData(a)(i, e), at("weighted solid diffusion " + w, i, e));
               }
         }
   }
   intact(m);
}
CASE(face_coef)
{
   Mesh m = twolevels();
   int ql = cfg("qlen", 1), ng = cfg("ng", 1), ngt = cfg("ngt", 1), ngg = cfg("ngg");
   int phi = cell(m, "phi", ng), T = cell(m, "T", ngt), gq = side(m, "gradq", ngg, NDIM * ql), fc = outs(m, "coef", cfg("ngf")), rf = outs(m, "reference", cfg("ngf"));
   R e = real_pos("epsilon_q"), fl = real_pos("floor"), H = real_pos("H");
   const char* ft = cfg("smooth", 0) == 0 ? "max" : cfg("smooth") == 1 ? "tanh" : "sqrt";
   const char* t1 = cfg("i1") ? "p" : "q";
   const char* t2 = cfg("i2") ? "p" : "l";
   QuatFaceCoeff s(ql, e, fl, ft, H, t1, t2, avg());
   s.computeFaceCoefs(m.h, phi, T, gq, fc);
   VERIF_PATCHES(m, p) {
#if NDIM == 2
      COMPUTE_FACE_COEF2D
#else
      COMPUTE_FACE_COEF3D
#endif
      (VERIF_BOX(p->getBox()), ql, e, cd(*p, phi)->getPointer(), ng, cd(*p, T)->getPointer(), ngt, 2. * H, SIDES(sd(*p, gq)), ngg, SIDES(sd(*p, rf)), cfg("ngf"), fl, ft, t1, t2, avg());
   }
   Ref X{m, rf};
   eqalls(m, fc, [&](int a, const hier::Index& i, int k) { return X(a, i, k); }, "coefficient");
   intact(m);
}
CASE(deriv_coef)
{
   Mesh m = twolevels();
   int ql = cfg("qlen", 1), ng = cfg("ng", 1), ngt = cfg("ngt", 1);
   int phi = cell(m, "phi", ng), T = cell(m, "T", ngt), gq = side(m, "gradq", 0, NDIM * ql), fc = outs(m, "coef", 0, 2), rf = outs(m, "reference", 0, 2);
   R fl = real_pos("floor"), H = real_pos("H");
   const char* ft = cfg("smooth", 0) == 0 ? "max" : cfg("smooth") == 1 ? "tanh" : "sqrt";
   const char* t1 = cfg("i1") ? "p" : "q";
   DerivDiffusionCoeffForQuat s(m.geom, H, fl, ql, t1, avg(), ft, fc);
   s.setup(m.h);
   s.setDerivDiffusion(m.h, phi, T, gq);
   VERIF_PATCHES(m, p) QUATDIFFUSIONDERIV(VERIF_BOX(p->getBox()), 2. * H, cd(*p, T)->getPointer(), ngt, cd(*p, phi)->getPointer(), ng, ql, SIDES(sd(*p, gq)), 0, SIDES(sd(*p, rf)), 0, fl, ft, t1, avg());
   Ref X{m, rf};
   // sides covered by finer ones take their average
   eqalls(m, fc, [&](int a, const hier::Index& i, int k) {
      if (lev + 1 >= m.h->getNumberOfLevels()) return X(a, i, k);
      auto fb = pdat::SideGeometry::toSideBox(m.patch(0, 1).getBox(), a);
      R t = 0.;
      int n = 0;
      for (int u = 0; u < 2; u++)
         for (int v = 0; v < (NDIM == 3 ? 2 : 1); v++) {
            hier::Index j(i);
            int b = a == 0 ? 1 : 0, cc = 3 - a - b;
            for (int d = 0; d < NDIM; d++) j[d] = 2 * i[d];
            j[b] += u;
            if (NDIM == 3) j[cc] += v;
            if (!fb.contains(j)) return X(a, i, k);
            LevScope ls;
            setlev(1);
            t = t + X(a, j, k);
            n++;
         }
      return t / double(n);
   }, "derivative");
   intact(m);
}
