// composition right-hand side strategies: diffusion coefficients they set and fluxes they compute
#include "stubs.h"
#include "ConcFort.h"
#include "QuatFort.h"
#include "FuncFort.h"
#include "QuatModel.h"
#include "QuatModelParameters.h"
#include "CompositionStrategyMobilities.h"
#include "EBSCompositionRHSStrategyWithGradT.h"
#include "CompositionRHSStrategyFactory.h"
extern "C" double AVERAGE_FUNC(const double&, const double&, const char*);
using namespace fx;
typedef QuatModelParameters QP;
static const double RGAS = 8.314472;
static const char* avg() { return cfg("harm") ? "h" : "a"; }
static R mean(const R& a, const R& b) { double x = a, y = b; return AVERAGE_FUNC(x, y, avg()); }
static char einterp() { return "lph"[cfg("interp", 1)]; }
static Thermo4PFM::EnergyInterpolationType einterp_type() { typedef Thermo4PFM::EnergyInterpolationType T; return cfg("interp", 1) == 0 ? T::LINEAR : cfg("interp", 1) == 1 ? T::PBG : T::HARMONIC; }
static Thermo4PFM::ConcInterpolationType cinterp_type() { typedef Thermo4PFM::ConcInterpolationType T; return cfg("interp", 1) == 0 ? T::LINEAR : cfg("interp", 1) == 1 ? T::PBG : T::HARMONIC; }
static Mesh twolevels()
{
   Mesh m = cfg("patches", 2) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), 1, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   return m;
}
// records the ids it is given and sets the diffusion to named values
struct StubDiffusion : public CompositionDiffusionStrategy {
   Mesh* m;
   std::vector<int> ids;
   std::vector<std::string> names;
   int T = -1, phi = -1, calls = 0;
   StubDiffusion() : CompositionDiffusionStrategy(DiffusionInterpolationType::LINEAR) {}
   void setDiffusion(const std::shared_ptr<hier::PatchHierarchy> h, const int t, const int p)
   {
      prove(B(h == m->h), "hierarchy given to the diffusion strategy");
      T = t;
      phi = p;
      calls++;
      for (size_t k = 0; k < ids.size(); k++) fills(*m, ids[k], [&](int a, const hier::Index& i, int d) { return real(at(names[k] + "xyz"[a], i, d)); });
   }
};
double CompositionStrategyMobilities::computeDiffusionMobilityBinaryPhaseL(const double c, const double T) { return fn("ML", {c, T}); }
double CompositionStrategyMobilities::computeDiffusionMobilityBinaryPhaseA(const double c, const double T) { return fn("MA", {c, T}); }
double CompositionStrategyMobilities::computeDiffusionMobilityBinaryPhaseB(const double c, const double T) { return fn("MB", {c, T}); }
static int ghosts_filled = 0;
void QuatModel::fillPartitionCoeffGhosts() { ghosts_filled++; }

// the side field equals f, on all sides of the interiors; the kernels called for the reference use the same arguments
static void same(const Mesh& m, int id, int rid, const std::string& label)
{
   Ref r{m, rid};
   VERIF_PATCHES(m, p) {
      auto X = sd(*p, id), Y = sd(*p, rid);
      for (int a = 0; a < NDIM; a++)
         for (auto& i : X->getArrayData(a).getBox())
            for (int k = 0; k < X->getDepth(); k++) eq(X->getArrayData(a)(i, k), Y->getArrayData(a)(i, k), at(label + "xyz"[a], i, X->getDepth() > 1 ? k : -1));
   }
}
static void flux(const Mesh& m, CompositionRHSStrategy& s, int id) { VERIF_PATCHES(m, p) s.computeFluxOnPatch(*p, id); }
static R side_gradient(const Mesh& m, const Ref& u, int a, const hier::Index& i, int k) { return (u(i, k) - u(nb(i, a, -1), k)) / m.dx[a]; }

template <class S> static std::shared_ptr<S> make(QP& par, QuatModel* qm, int nc, int conc, int phi, int T, std::vector<int> D, int Dl, int Da, int Db, int Dphi, int cl, int ca, int cb, int k, std::shared_ptr<CompositionDiffusionStrategy> diff)
{
   auto s = std::dynamic_pointer_cast<S>(CompositionRHSStrategyFactory::create(qm, std::make_shared<StubFreeEnergy>(), par, nc, conc, phi, T, D, Dl, Da, Db, Dphi, -1, -1, cl, ca, cb, k, -1, nullptr, diff));
   if (!s) ::verif_stop("another strategy than the one asked for", "conc", 0);
   return s;
}
CASE(kks)
{
   Mesh m = twolevels();
   int ng = cfg("ng", 1), nc = cfg("nc", 1), ngf = cfg("ngf");
   int phi = cell(m, "phi", ng), T = cell(m, "T", cfg("ngt", 1), 1, 100., 4000.), c = cell(m, "c", cfg("ngc", 1), nc), cl = cell(m, "cl", cfg("ngcl", 1)), ca = cell(m, "ca", cfg("ngcl", 1));
   int D = side(m, "D"), Dphi = side(m, "Dphi"), F = side(m, "F", ngf, nc), rD = side(m, "D");
   QP par;
   par.d_conc_rhs_strategy = QP::ConcRHSstrategy::KKS;
   R DL = par.d_D_liquid = real_pos("D_liquid"), DA = par.d_D_solid_A = real_pos("D_solidA"), QL = par.d_Q0_liquid = real_pos("Q_liquid"), QA = par.d_Q0_solid_A = real_pos("Q_solidA");
   par.d_energy_interp_func_type = einterp_type();
   par.d_avg_func_type = avg();
   auto s = make<KKSCompositionRHSStrategy>(par, nullptr, nc, c, phi, T, {D}, -1, -1, -1, Dphi, cl, ca, -1, -1, nullptr);
   s->setDiffusionCoeff(m.h, real("time"));
   char h = einterp();
   VERIF_PATCHES(m, p) {
      auto d = sd(*p, rD);
      CONCENTRATION_PFMDIFFUSION(VERIF_BOX(p->getBox()), cd(*p, phi)->getPointer(), ng, VERIF_SIDES(d), 0, cd(*p, T)->getPointer(), cfg("ngt", 1), DL, QL, DA, QA, RGAS, &h, avg());
   }
   same(m, D, rD, "D");
   Ref p_{m, phi}, l_{m, cl}, a_{m, ca}, c_{m, c}, D_{m, D}, P_{m, Dphi};
   eqalls(m, Dphi, [&](int a, const hier::Index& i, int) {
      hier::Index j = nb(i, a, -1);
      double f = mean(p_(i), p_(j));
      return D_(a, i, 0) * DERIV_INTERP_FUNC(f, &h) * (0.5 * (l_(i) + l_(j)) - 0.5 * (a_(i) + a_(j)));
   }, "Dphi");
   // fluxes with any coefficients
   fills(m, D, [&](int a, const hier::Index& i, int) { return real(at(std::string("E") + "xyz"[a], i)); });
   fills(m, Dphi, [&](int a, const hier::Index& i, int) { return real(at(std::string("G") + "xyz"[a], i)); });
   flux(m, *s, F);
   eqalls(m, F, [&](int a, const hier::Index& i, int k) { return D_(a, i, 0) * side_gradient(m, c_, a, i, k) + P_(a, i, 0) * side_gradient(m, p_, a, i, 0); }, "flux");
   intact(m);
}
CASE(beckermann)
{
   Mesh m = twolevels();
   int ng = cfg("ng", 1), ngc = cfg("ngc", 1), ngk = cfg("ngk", 1), ngf = cfg("ngf");
   int phi = cell(m, "phi", ng, 1, 0., 1.), c = cell(m, "c", ngc), k = cell(m, "k", ngk, 1, 0.1, 0.9);
   int D = side(m, "D"), Dphi = side(m, "Dphi"), F = side(m, "F", ngf), rD = side(m, "D");
   QP par;
   par.d_conc_rhs_strategy = QP::ConcRHSstrategy::Beckermann;
   R DL = par.d_D_liquid = real_pos("D_liquid"), DA = par.d_D_solid_A = real_pos("D_solidA");
   par.d_conc_interp_func_type = cinterp_type();
   par.d_avg_func_type = avg();
   static long store[sizeof(QuatModel) / sizeof(long) + 1];
   auto s = make<BeckermannCompositionRHSStrategy>(par, (QuatModel*)store, 1, c, phi, 0, {D}, -1, -1, -1, Dphi, -1, -1, -1, k, nullptr);
   ghosts_filled = 0;
   s->setDiffusionCoeff(m.h, real("time"));
   prove(B(ghosts_filled >= 1), "ghost cells of the partition coefficient are filled first");
   char h = einterp();
   VERIF_PATCHES(m, p) {
      auto d = sd(*p, rD);
      CONCENTRATIONDIFFUSION_BECKERMANN(VERIF_BOX(p->getBox()), cd(*p, phi)->getPointer(), ng, VERIF_SIDES(d), 0, cd(*p, k)->getPointer(), ngk, DL, DA, &h, avg());
   }
   same(m, D, rD, "D");
   Ref p_{m, phi}, k_{m, k}, c_{m, c}, D_{m, D}, P_{m, Dphi};
   eqalls(m, Dphi, [&](int a, const hier::Index& i, int) {
      hier::Index j = nb(i, a, -1);
      double f = mean(p_(i), p_(j));
      R hphi = INTERP_FUNC(f, &h), kk = mean(k_(i), k_(j)), cc = mean(c_(i), c_(j));
      return D_(a, i, 0) * (1. - kk) * cc / (1. - hphi + kk * hphi);
   }, "Dphi");
   fills(m, D, [&](int a, const hier::Index& i, int) { return real(at(std::string("E") + "xyz"[a], i)); });
   fills(m, Dphi, [&](int a, const hier::Index& i, int) { return real(at(std::string("G") + "xyz"[a], i)); });
   flux(m, *s, F);
   eqalls(m, F, [&](int a, const hier::Index& i, int) { return D_(a, i, 0) * side_gradient(m, c_, a, i, 0) + P_(a, i, 0) * side_gradient(m, p_, a, i, 0); }, "flux");
   intact(m);
}
CASE(ebs)
{
   Mesh m = twolevels();
   int nc = cfg("nc", 1), ng = cfg("ng", 1), ngd = cfg("ngd"), ngf = cfg("ngf"), stencil = cfg("stencil"), np = cfg("np", 2), norder = cfg("norder", 1);
   int phi = cell(m, "phi", cfg("ngp", 1), norder), T = cell(m, "T", 1);
   int c[3], D[3];
   std::vector<int> prec;
   for (int k = 0; k < 3; k++) { c[k] = k < np ? cell(m, std::string("c") + "lab"[k], ng, nc) : -1; D[k] = k < np ? side(m, std::string("D") + "lab"[k], ngd, nc * nc) : -1; }
   if (cfg("precond", 1)) for (int k = 0; k < nc; k++) prec.push_back(side(m, "P" + std::to_string(k), cfg("ngp2")));
   int F = side(m, "F", ngf, nc), rF = side(m, "F", ngf, nc);
   QP par;
   par.d_conc_rhs_strategy = QP::ConcRHSstrategy::EBS;
   par.d_ebs_stencil_type = stencil == 0 ? "regular" : stencil == 1 ? "isotropic" : "order4";
   par.d_avg_func_type = avg();
   auto diff = std::make_shared<StubDiffusion>();
   diff->m = &m;
   for (int k = 0; k < np; k++) { diff->ids.push_back(D[k]); diff->names.push_back(std::string("New") + "lab"[k]); }
   auto s = make<EBSCompositionRHSStrategy>(par, nullptr, nc, -1, phi, T, prec, D[0], D[1], D[2], -1, c[0], c[1], c[2], -1, diff);
   s->setDiffusionCoeff(m.h, real("time"));
   prove(B(diff->calls == 1 && diff->T == T && diff->phi == phi), "diffusion of the phases set from temperature and phase");
   for (size_t k = 0; k < prec.size(); k++)
      eqalls(m, prec[k], [&](int a, const hier::Index& i, int) {
         R v = 0.;
         for (int q = 0; q < np; q++) v = v + Ref{m, D[q]}(a, i, k * nc + k);
         return v;
      }, "preconditioner" + std::to_string(k));
   flux(m, *s, F);
   VERIF_PATCHES(m, p) {
      auto f = sd(*p, rF);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry());
      f->fillAll(0.);
      int pb[6];
      for (int a = 0; a < NDIM; a++) for (int q = 0; q < 2; q++) pb[2 * a + q] = g->getTouchesRegularBoundary(a, q);
      for (int k = 0; k < np; k++) {
         auto x = cd(*p, c[k]);
         auto d = sd(*p, D[k]);
         if (stencil == 0) ADD_FLUX(VERIF_BOX(p->getBox()), g->getDx(), x->getPointer(), ng, nc, VERIF_SIDES(d), ngd, VERIF_SIDES(f), ngf);
         else if (stencil == 1) ADD_FLUX_ISO(VERIF_BOX(p->getBox()), g->getDx(), x->getPointer(), ng, nc, VERIF_SIDES(d), ngd, VERIF_SIDES(f), ngf);
         else ADD_FLUX_4TH(VERIF_BOX(p->getBox()), g->getDx(), x->getPointer(), ng, nc, VERIF_SIDES(d), ngd, VERIF_SIDES(f), ngf, pb);
      }
   }
   same(m, F, rF, "flux");
   if (stencil == 0)
      eqalls(m, F, [&](int a, const hier::Index& i, int k) {
         R v = 0.;
         for (int q = 0; q < np; q++) for (int j = 0; j < nc; j++) v = v + Ref{m, D[q]}(a, i, j * nc + k) * side_gradient(m, Ref{m, c[q]}, a, i, j);
         return v;
      }, "flux");
   intact(m);
}
CASE(antitrapping)
{
   Mesh m = twolevels();
   int np = cfg("np", 2), norder = cfg("norder", 1), nc = cfg("nc", 1), ng = cfg("ng", 1), ngp = cfg("ngp", 1), ngf = cfg("ngf"), ngr = cfg("ngr", 1);
   int phi = cell(m, "phi", ngp, norder), rate = cell(m, "rate", ngr, norder), c[3];
   for (int k = 0; k < 3; k++) c[k] = k < np ? cell(m, std::string("c") + "lab"[k], ng, nc) : -1;
   int F = side(m, "F", ngf, nc), rF = side(m, "F", ngf, nc), D = side(m, "D", 0, nc * nc);
   QP par;
   par.d_conc_rhs_strategy = QP::ConcRHSstrategy::EBS;
   par.d_ebs_stencil_type = "regular";
   par.d_avg_func_type = avg();
   auto s = make<EBSCompositionRHSStrategy>(par, nullptr, nc, -1, phi, cell(m, "T", 1), {}, D, D, np > 2 ? D : -1, -1, c[0], c[1], c[2], -1, std::make_shared<StubDiffusion>());
   R alpha = real("alpha");
   VERIF_PATCHES(m, p) {
      s->addFluxFromAntitrappingonPatch(*p, phi, rate, alpha, F);
      auto f = sd(*p, rF);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry());
      std::vector<double*> x;
      for (int k = 0; k < np; k++) x.push_back(cd(*p, c[k])->getPointer());
      double* ph = cd(*p, phi)->getPointer();
      double* r = cd(*p, rate)->getPointer();
      if (np > 2) ADDCONCENTRATIONFLUXFROMANTITRAPPING3PHASES(VERIF_BOX(p->getBox()), g->getDx(), ph, ngp, x[0], x[1], x[2], ng, r, ngr, alpha, VERIF_SIDES(f), ngf);
      else if (norder > 1) ADDCONCENTRATIONFLUXFROMANTITRAPPINGMULTIORDERP(VERIF_BOX(p->getBox()), g->getDx(), ph, ngp, norder, x[0], x[1], ng, r, ngr, alpha, VERIF_SIDES(f), ngf);
      else ADDCONCENTRATIONFLUXFROMANTITRAPPING(VERIF_BOX(p->getBox()), g->getDx(), ph, ngp, x[0], x[1], ng, nc, r, ngr, alpha, VERIF_SIDES(f), ngf);
   }
   same(m, F, rF, "flux");
   intact(m);
}
CASE(thermal)      // diffusion driven by temperature gradients
{
   Mesh m = twolevels();
   bool three = cfg("three");
   int ng = cfg("ng", 1), ngp = cfg("ngp", 1), ngt = cfg("ngt", 1), ngf = cfg("ngf"), ngq = cfg("ngq");
   int phi = cell(m, "phi", ngp), eta = three ? cell(m, "eta", ngp) : -1, T = cell(m, "T", ngt, 1, 100., 4000.);
   int cl = cell(m, "cl", ng), ca = cell(m, "ca", ng), cb = three ? cell(m, "cb", ng) : -1;
   int D[3] = {side(m, "Dl"), side(m, "Da"), three ? side(m, "Db") : -1}, Mq = side(m, "Mq", ngq), F = side(m, "F", ngf), rF = side(m, "F", ngf);
   R Q0 = real("Q0"), Q1 = real("Q1");
   static long store[sizeof(CompositionStrategyMobilities) / sizeof(long) + 1];
   auto diff = std::make_shared<StubDiffusion>();
   diff->m = &m;
   std::vector<int> prec;
   if (cfg("precond")) prec.push_back(side(m, "P"));
   EBSCompositionRHSStrategyWithGradT s(phi, eta, 1, cl, ca, cb, T, D[0], D[1], D[2], Mq, std::vector<double>{Q0, Q1}, prec, avg(), std::make_shared<StubFreeEnergy>(), (CompositionStrategyMobilities*)store, diff);
   s.setDiffusionCoeff(m.h, real("time"));
   prove(B(diff->calls == 1 && diff->T == T && diff->phi == phi), "diffusion of the phases set from temperature and phase");
   Ref p_{m, phi}, t_{m, T};
   const char h = 'l';
   eqalls(m, Mq, [&](int a, const hier::Index& i, int) {
      hier::Index j = nb(i, a, -1);
      double f = mean(p_(i), p_(j));
      R hp = INTERP_FUNC(f, &h), he = 0., t = 0.5 * (t_(i) + t_(j)), v = 0.;
      if (three) { Ref e_{m, eta}; double e = mean(e_(i), e_(j)); he = INTERP_FUNC(e, &h); }
      for (int k = 0; k < (three ? 3 : 2); k++) {
         Ref c_{m, k == 0 ? cl : k == 1 ? ca : cb};
         R c = 0.5 * (c_(i) + c_(j)), w = k == 0 ? 1. - hp : k == 1 ? (1. - he) * hp : he * hp;
         std::string M = std::string("M") + "LAB"[k];
         v = v + w * c * (1. - c) * (fn(M, {c, t}) * Q0 - fn(M, {1. - c, t}) * Q1);
      }
      return v;
   }, "Mq");
   for (int id : prec)
      eqalls(m, id, [&](int a, const hier::Index& i, int) {
         R v = 0.;
         for (int q = 0; q < (three ? 3 : 2); q++) v = v + Ref{m, D[q]}(a, i, 0);
         return v;
      }, "preconditioner");
   fills(m, Mq, [&](int a, const hier::Index& i, int) { return real(at(std::string("N") + "xyz"[a], i)); });
   CompositionRHSStrategy* base = &s;
   VERIF_PATCHES(m, p) {
      base->addFluxFromGradTonPatch(*p, T, F);
      auto f = sd(*p, rF), q = sd(*p, Mq);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry());
      ADDCONCENTRATIONFLUXFROMGRADT(VERIF_BOX(p->getBox()), g->getDx(), cd(*p, T)->getPointer(), ngt, VERIF_SIDES(q), ngq, VERIF_SIDES(f), ngf, avg());
   }
   same(m, F, rF, "flux");
   intact(m);
}
CASE(cahn_hilliard)
{
   Mesh m = twolevels();
   int nc = cfg("nc", 1), ng = 2 + cfg("more"), ngf = 1 + cfg("moref");
   int c = cell(m, "c", ng, nc), F = side(m, "F", ngf, nc), rF = side(m, "F", ngf, nc);
   QP par;
   par.d_conc_rhs_strategy = QP::ConcRHSstrategy::CahnHilliard;
   R ca = par.d_CH_ca = real("ca"), cb = par.d_CH_cb = real("cb"), kappa = par.d_CH_kappa = real_pos("kappa"), well = par.d_CH_well_scale = real_pos("well");
   par.d_avg_func_type = avg();
   auto s = make<CahnHilliardDoubleWell>(par, nullptr, nc, c, 0, 0, {}, -1, -1, -1, -1, -1, -1, -1, -1, nullptr);
   s->setDiffusionCoeff(m.h, real("time"));
   flux(m, *s, F);
   VERIF_PATCHES(m, p) {
      auto f = sd(*p, rF);
      f->fillAll(0.);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry());
      for (int k = 0; k < nc; k++) ADD_CAHNHILLIARDDOUBLEWELL_FLUX(VERIF_BOX(p->getBox()), g->getDx(), cd(*p, c)->getPointer(k), ng, 1., ca, cb, well, kappa, VERIF_SIDESK(f, k), ngf);
   }
   same(m, F, rF, "flux");
   intact(m);
}
CASE(wang)
{
   Mesh m = twolevels();
   int n = cfg("norder", 2), ngc = 2 + cfg("morec"), ngp = 2 + cfg("morep"), ngd = cfg("ngd", 1), ngf = 1 + cfg("moref");
   int c = cell(m, "c", ngc), phi = cell(m, "phi", ngp, n), T = cell(m, "T", 1), D = side(m, "D", ngd), F = side(m, "F", ngf), rF = side(m, "F", ngf);
   QP par;
   par.d_conc_rhs_strategy = QP::ConcRHSstrategy::WangSintering;
   par.d_conc_model = QP::ConcModel::WangSintering;
   R M = par.d_conc_mobility = real_pos("mobility"), A = par.d_WangSintering_A = real_pos("A"), B_ = par.d_WangSintering_B = real_pos("B"), rho = par.d_WangSintering_beta_rho = real_pos("rho");
   par.d_avg_func_type = avg();
   auto diff = std::make_shared<StubDiffusion>();
   diff->m = &m;
   diff->ids = {D};
   diff->names = {"New"};
   auto s = make<WangSinteringCompositionRHSStrategy>(par, nullptr, 1, c, phi, T, {D}, -1, -1, -1, -1, -1, -1, -1, -1, diff);
   s->setDiffusionCoeff(m.h, real("time"));
   prove(B(diff->calls == 1 && diff->T == T && diff->phi == phi), "diffusion set from temperature and phase");
   flux(m, *s, F);
   VERIF_PATCHES(m, p) {
      auto f = sd(*p, rF), d = sd(*p, D);
      f->fillAll(0.);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry());
      std::vector<double> t1(cd(*p, phi)->getGhostBox().size()), t2(t1);
      ADD_WANG_SINTERING_FLUX(VERIF_BOX(p->getBox()), g->getDx(), cd(*p, c)->getPointer(), ngc, VERIF_SIDES(d), ngd, cd(*p, phi)->getPointer(), ngp, n, M, A, B_, rho, VERIF_SIDES(f), ngf, t1.data(), t2.data());
   }
   same(m, F, rF, "flux");
   intact(m);
}
CASE(zero_boundary_flux)
{
   Mesh m = twolevels();
   int F = side(m, "F"), c = cell(m, "c", 2);
   QP par;
   par.d_conc_rhs_strategy = QP::ConcRHSstrategy::CahnHilliard;
   par.d_CH_ca = 0.; par.d_CH_cb = 1.; par.d_CH_kappa = 1.; par.d_CH_well_scale = 1.;
   par.d_avg_func_type = avg();
   auto s = make<CahnHilliardDoubleWell>(par, nullptr, 1, c, 0, 0, {}, -1, -1, -1, -1, -1, -1, -1, -1, nullptr);
   VERIF_PATCHES(m, p) s->setZeroFluxAtBoundaryOnPatch(*p, F);
   VERIF_PATCHES(m, p) {
      auto g = p->getPatchGeometry();
      auto f = sd(*p, F);
      for (int a = 0; a < NDIM; a++)
         for (auto& i : pdat::SideGeometry::toSideBox(p->getBox(), a)) {
            bool zero = (i(a) == p->getBox().lower(a) && g->getTouchesRegularBoundary(a, 0)) || (i(a) == p->getBox().upper(a) + 1 && g->getTouchesRegularBoundary(a, 1));
            eq(f->getArrayData(a)(i, 0), zero ? R(0.) : real(at(std::string("F") + "xyz"[a], i)), at(std::string("flux") + "xyz"[a], i));
         }
   }
   intact(m);
}
