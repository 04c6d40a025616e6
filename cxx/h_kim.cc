// mobilities of the order parameters
#include "stubs.h"
#include "QuatModelParameters.h"
#include "QuatModel.h"
#include "Database2JSON.h"
#include "MobilityFactory.h"
using namespace fx;
typedef QuatModelParameters QP;
void copyDatabase(std::shared_ptr<SAMRAI::tbox::Database> db, boost::property_tree::ptree&) { if (!db) ::verif_stop("copy of a database that is not there", "kim", 0); }
void computeWeights3Pairs(const double a, const double b, const double c, double& w01, double& w02, double& w12)
{
   w01 = fn("w01", {a, b, c});
   w02 = fn("w02", {a, b, c});
   w12 = fn("w12", {a, b, c});
}
static const double RGAS = 8.314472;
// calls forwarded to the model
struct Call { int what = 0, id = -2, mob = -2; double time = 0.; int cache = -1; } last;
static Mesh* current = nullptr;
#define FORWARD(f, n) void QuatModel::f(const std::shared_ptr<hier::PatchHierarchy> h, int& id, int& mob, const double time, const CACHE_TYPE cache) \
   { prove(B(h == current->h), "hierarchy handed over"); last.what = n; last.id = id; last.mob = mob; last.time = time; last.cache = cache; id += 100; mob += 200; }
FORWARD(computeUniformPhaseMobility, 1)
FORWARD(computeEtaMobility, 2)
FORWARD(computeQuatMobility, 3)
FORWARD(computeQuatMobilityDeriv, 4)

enum Kind { INF, INFTER, INFDIL, FINITE, ANTI, ANTITER, ANTIDIL, THREE };
CASE(kim)
{
   Mesh m = cfg("patches", 2) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), 1, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   const int kind = cfg("kind"), ng = cfg("ng", 1), ngm = cfg("ngm", 1), ngt = cfg("ngt", 1);
   const int nc = kind == INFTER || kind == ANTITER ? 2 : 1;
   int phi = cell(m, "phi", ng, kind == THREE ? 3 : 1), T = cell(m, "T", ngt, 1, R(100.), R(4000.)), cl = cell(m, "cl", ng, nc), ca = cell(m, "ca", ng, nc), cb = kind == THREE ? cell(m, "cb", ng, nc) : -1;
   int mob = cell(m, "mob", ngm);
   QP par;
   par.d_phi_mobility_type = "kim";
   R eps = par.d_epsilon_phase = real_pos("eps"), w = par.d_phase_well_scale = real_pos("w"), vm = par.d_molar_volume_liquid = real_pos("vm"), DL = par.d_D_liquid = real_pos("DL"), Q0 = par.d_Q0_liquid = real_pos("Q0");
   const bool finite = kind >= FINITE && kind <= ANTIDIL;
   R mu = par.d_interface_mobility = finite ? real_pos("mu") : R(-1.);
   par.d_with_antitrapping = kind >= ANTI && kind <= ANTIDIL;
   const bool harm = cfg("harm");
   par.d_energy_interp_func_type = harm ? Thermo4PFM::EnergyInterpolationType::HARMONIC : Thermo4PFM::EnergyInterpolationType::PBG;
   par.d_energy_three_args_interp_func_type = EnergyThreeArgsInterpolationType::FOLCHPLAPP2005;
   par.d_conc_interp_func_type = Thermo4PFM::ConcInterpolationType::PBG;
   par.d_conc_diffusion_type = QP::ConcDiffusionType::TD;
   const bool zeta = cfg("zeta") || kind == THREE;
   R Tref = par.d_zetaTref = zeta ? real_pos("Tref") : R(-1.);
   R A[3], Bz[3];
   for (int i = 0; i < 3; i++) A[i] = par.d_zetaKimMobilityLA[i] = real(lab("zetaLA", i)), Bz[i] = par.d_zetaKimMobilityLB[i] = real(lab("zetaLB", i));
   auto db = std::make_shared<tbox::MemoryDatabase>("conc");
   const bool dilute = kind == INFDIL || kind == ANTIDIL;
   db->putString("model", dilute ? "dilute" : "calphad");
   db->putDatabase("Calphad")->putString("filename", "data.dat");
   if (cfg("newton")) db->putDatabase("NewtonSolver");
   auto s = MobilityFactory::create(nullptr, par, cl, ca, cb, T, nc, kind == THREE, db);
   prove(B(s != nullptr), "a mobility exists for this model");
   R a2 = harm ? R(0.5) : R(47.) / 60., factor = 16. * w / (3. * eps * eps * a2);
   auto zeta_of = [&](const R& t, const R* z) { return z[0] + z[1] * (t - Tref) + z[2] * (t - Tref) * (t - Tref); };
   // the assumptions the model itself requires
   auto val = [&](hier::Patch& p, const hier::Index& i, bool only_assume) -> R {
      pdat::CellIndex ci(i);
      R t = (*cd(p, T))(ci, 0);
      if (kind == FINITE) return mu / (3. * sqrt(2.) * eps / sqrt(16. * w));
      if (kind == THREE) {
         std::vector<double> a;
         for (int k = 0; k < 3; k++) a.push_back((*cd(p, phi))(ci, k));
         R la = zeta_of(t, A), lb = zeta_of(t, Bz), w01 = fn("w01", a), w02 = fn("w02", a), w12 = fn("w12", a);
         if (only_assume) { assume(gt(la, R(0.))); assume(gt(lb, R(0.))); assume(le(w01, R(1.))); assume(le(w02, R(1.))); assume(le(w12, R(1.))); return R(0.); }
         R mla = factor * vm * 1.e6 / la, mlb = factor * vm * 1.e6 / lb;
         return w01 * mla + w02 * mlb + w12 * 0.5 * (mla + mlb);
      }
      R z;
      if (zeta) z = zeta_of(t, A);
      else {
         std::vector<double> a(1, t);
         std::vector<R> d;
         for (int k = 0; k < nc; k++) { a.push_back((*cd(p, cl))(ci, k)); d.push_back((*cd(p, cl))(ci, k) - (*cd(p, ca))(ci, k)); }
         R sum = 0.;
         for (int i = 0; i < nc; i++) for (int j = 0; j < nc; j++) sum = sum + d[i] * fn(i + j == 0 ? "fL'1'1" : i + j == 1 ? "fL'1'2" : "fL'2'2", a) * d[j];
         z = sum / (DL * exp(-Q0 / (RGAS * t)));
      }
      if (only_assume) { if (zeta) assume(gt(z, R(0.))); return R(0.); }
      z = z * 1.e-6 / vm;
      return finite ? 1. / (3. * sqrt(2.) * eps / sqrt(16. * w) / mu + z / factor) : factor / z;
   };
   for (int pass = 0; pass < 2; pass++) {
      for (lev = 0; lev < m.h->getNumberOfLevels(); lev++)
         for (auto& p : *m.level(lev))
            for (auto& i : cd(*p, mob)->getGhostBox()) {
               R v = val(*p, i, pass == 0);
               if (pass) eq((*cd(*p, mob))(pdat::CellIndex(i), 0), v, at("mobility", i));
            }
      lev = 0;
      if (!pass) {
         int ip = phi, im = mob;
         s->computePhaseMobility(m.h, ip, im, real("time"), QuatMobilityStrategy::FORCE);
      }
   }
   intact(m);
}
CASE(scalar)
{
   Mesh m = grid(box(1), 1, cfg("lo"));
   current = &m;
   static long store[8];
   QP par;
   par.d_phi_mobility_type = "scalar";
   auto s = MobilityFactory::create((QuatModel*)store, par, 1, 2, -1, 3, 1, false, nullptr);
   for (int what = 1; what <= 4; what++)
      for (int c = 0; c < 2; c++) {
         int id = 10 * what + c, mob = 50 + what;
         R time = real("time");
         auto cache = c ? QuatMobilityStrategy::FORCE : QuatMobilityStrategy::CACHE;
         last = Call();
         switch (what) {
            case 1: s->computePhaseMobility(m.h, id, mob, time, cache); break;
            case 2: s->computeEtaMobility(m.h, id, mob, time, cache); break;
            case 3: s->computeQuatMobility(m.h, id, mob, time, cache); break;
            case 4: s->computeQuatMobilityDeriv(m.h, id, mob, time, cache); break;
         }
         prove(B(last.what == what && last.id == 10 * what + c && last.mob == 50 + what), lab("forwarded to the right function with the fields given ", what));
         prove(B(last.cache == (c ? QuatModel::FORCE : QuatModel::CACHE)), lab("recomputation asked for is the one requested ", what));
         prove(B(id == 110 + 10 * what - 10 + c && mob == 250 + what), lab("indices come back ", what));
         eq(last.time, time, lab("time handed over ", what));
      }
   current = nullptr;
}
CASE(temperature_mobility)
{
   Mesh m = cfg("patches", 2) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(cfg("nx", 1), 1, 1), 1, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   int ng = cfg("ng"), pm = cell(m, "pm", ng), cp = cell(m, "cp", ng, 1, R(0.1), R(10.)), mob = cell(m, "mob", ng);
   static long store[8];
   SimpleQuatMobilityStrategy s((QuatModel*)store);
   s.computePhaseTemperatureMobility(m.h, pm, cp, mob);
   Ref p{m, pm}, c{m, cp};
   eqall(m, mob, [&](const hier::Index& i, int) { return p(i) / c(i); }, "mobility over heat capacity", ng);
   intact(m);
}
