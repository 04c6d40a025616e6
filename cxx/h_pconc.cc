// compositions of the phases: how the overall composition is split between them, and partition coefficients
#include "stubs.h"
#include "FuncFort.h"
#include "QuatModelParameters.h"
#include "CALPHADequilibriumPhaseConcentrationsStrategy.h"
#include "KKSdiluteEquilibriumPhaseConcentrationsStrategy.h"
#include "QuadraticEquilibriumPhaseConcentrationsStrategy.h"
#include "QuadraticEquilibriumPhaseConcentrationsStrategyMultiOrder.h"
#include "QuadraticEquilibriumThreePhasesTernaryStrategyMultiOrder.h"
#include "PartitionPhaseConcentrationsStrategy.h"
#include "PhaseConcentrationsStrategyFactory.h"
#include "AzizPartitionCoefficientStrategy.h"
#include "UniformPartitionCoefficientStrategy.h"
using namespace fx;
typedef QuatModelParameters QP;
void copyDatabase(std::shared_ptr<SAMRAI::tbox::Database> db, boost::property_tree::ptree&) { if (!db) ::verif_stop("copy of a database that is not there", "pconc", 0); }
static char cinterp() { return "lph"[cfg("interp", 1)]; }
static R h_of(const R& phi) { char c = cinterp(); double p = phi; return INTERP_FUNC(p, &c); }
static Thermo4PFM::ConcInterpolationType ctype() { typedef Thermo4PFM::ConcInterpolationType T; return cfg("interp", 1) == 0 ? T::LINEAR : cfg("interp", 1) == 1 ? T::PBG : T::HARMONIC; }

enum Kind { CALPHAD2, CALPHAD3, CALPHADTER, MULTI, MULTI3, QUAD, QUADMULTI, QUADTER, DILUTE, PARTITION, INDEPENDENT };
struct Setup {
   Mesh m;
   int kind = cfg("kind"), nc, np, nop, nA = cfg("nA", 1), ng = cfg("ng", 1), ngc = cfg("ngc", 1), ngt = cfg("ngt", 1);
   int T, phi, c, cl, ca, cb = -1, rl, ra, rb = -1, ol, oa, ob = -1, k = -1;
   std::vector<R> par;
   std::shared_ptr<tbox::Database> db = std::make_shared<tbox::MemoryDatabase>("conc");
   R num(std::shared_ptr<tbox::Database> q, const char* n) { R v = real(n); q->putDouble(n, v); return v; }
   R pair(std::shared_ptr<tbox::Database> q, const char* n, int i) { return real(std::string(n) + std::to_string(i)); }
   Setup() : m(cfg("patches", 2) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), 1, cfg("lo")))
   {
      if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
      nc = kind == CALPHADTER || kind == QUADTER ? 2 : kind >= PARTITION ? cfg("nc", 1) : 1;
      np = kind == CALPHAD3 || kind == MULTI3 || kind == QUADTER ? 3 : 2;
      nop = kind == CALPHAD3 ? 3 : kind == MULTI || kind == QUADMULTI ? nA + 1 : kind == MULTI3 || kind == QUADTER ? nA + cfg("nB", 1) + 1 : 1;
      double lo = cfg("any") ? -0.5 : 0., hi = cfg("any") ? 1.5 : 1.;
      if (nop > 1 && kind != CALPHAD3) lo = 0.125, hi = nop > 3 ? 0.25 : 0.375;
      phi = cell(m, "phi", ng, nop, lo, hi);
      T = cell(m, "T", ngt, 1, R(100.), R(4000.));
      c = cell(m, "c", ng, nc);
      cl = cell(m, "cl", ngc, nc), ca = cell(m, "ca", ngc, nc);
      ol = cell(m, "cl", ngc, nc), oa = cell(m, "ca", ngc, nc);
      rl = cell(m, "cl_ref", ngc, nc), ra = cell(m, "ca_ref", ngc, nc);
      if (np == 3) cb = cell(m, "cb", ngc, nc), ob = cell(m, "cb", ngc, nc), rb = cell(m, "cb_ref", ngc, nc);
      if (kind == PARTITION) k = cell(m, "k", cfg("ngk"), 1, R(0.05), R(0.95));
   }
   std::shared_ptr<PhaseConcentrationsStrategy> make()
   {
      auto cal = db->putDatabase("Calphad");
      cal->putString("filename", cfg("json") ? "data.json" : "data.dat");
      auto q = db->putDatabase("Quadratic");
      if (kind == QUADTER)
         for (const char* n : {"A_liquid", "Ceq_liquid", "A_solid_A", "Ceq_solid_A", "A_solid_B", "Ceq_solid_B"}) {
            std::vector<double> v;
            for (int i = 0; i < 2; i++) { v.push_back(pair(q, n, i)); par.push_back(v.back()); }
            q->putDoubleVector(n, v);
         }
      else if (kind == QUAD || kind == QUADMULTI) {
         R t = num(q, "T_ref");
         for (const char* n : {"A_liquid", "Ceq_liquid", "m_liquid"}) num(q, n);
         for (const char* n : {"A_solid", "Ceq_solid", "m_solid"}) num(q, n);
         par = {t, real("A_liquid"), real("Ceq_liquid"), real("m_liquid"), t, real("A_solid"), real("Ceq_solid"), real("m_solid")};
      }
      QP p;
      typedef QP::ConcModel M;
      p.d_conc_model = kind <= MULTI3 ? M::CALPHAD : kind <= QUADTER ? M::QUADRATIC : kind == DILUTE ? M::KKSdilute : cfg("model") ? M::KKSdilute : M::CALPHAD;
      p.d_phase_concentration_model = kind == PARTITION ? "partition" : kind == INDEPENDENT ? "independent" : "kks";
      p.d_norderp = kind == CALPHAD3 ? 1 : nop;
      p.d_with_three_phases = kind == CALPHAD3;
      p.d_with_third_phase = false;
      p.d_norderp_A = nA;
      p.d_norderp_B = np == 3 && kind != CALPHAD3 ? nop - 1 - nA : 0;
      p.d_conc_interp_func_type = ctype();
      p.d_energy_interp_func_type = Thermo4PFM::EnergyInterpolationType::HARMONIC;
      std::shared_ptr<tbox::Database> newton;
      if (cfg("newton")) newton = std::make_shared<tbox::MemoryDatabase>("newton");
      return PhaseConcentrationsStrategyFactory::create(p, cl, ca, cb, rl, ra, rb, k, nc, db, newton);
   }
};
CASE(split)
{
   Setup S;
   Mesh& m = S.m;
   auto s = S.make();
   prove(B(s != nullptr), "a strategy exists for this model");
   s->computePhaseConcentrations(m.h, S.T, S.phi, -1, S.c);
   const bool inner = S.kind == PARTITION || S.kind == INDEPENDENT;
   for (lev = 0; lev < m.h->getNumberOfLevels(); lev++) {
      Ref phi{m, S.phi}, T{m, S.T}, c{m, S.c}, k{m, S.k};
      for (auto& p : *m.level(lev)) {
         auto cl = cd(*p, S.cl), ca = cd(*p, S.ca), ol = cd(*p, S.ol), oa = cd(*p, S.oa);
         auto cb = S.cb >= 0 ? cd(*p, S.cb) : nullptr, ob = S.cb >= 0 ? cd(*p, S.ob) : nullptr;
         hier::Box b(inner ? p->getBox() : cl->getGhostBox());
         // beyond a physical boundary only one ghost cell is known; CALPHAD solves are skipped further out
         if (S.kind <= CALPHADTER && S.ngc > 1)
            for (int d = 0; d < NDIM; d++) {
               hier::Index lo(b.lower()), hi(b.upper());
               if (p->getPatchGeometry()->touch[d][0]) lo[d]++;
               if (p->getPatchGeometry()->touch[d][1]) hi[d]--;
               b = hier::Box(lo, hi);
            }
         for (auto& i : cl->getGhostBox()) {
            pdat::CellIndex ci(i);
            if (!b.contains(i)) {
               for (int d = 0; d < S.nc; d++) {
                  eq((*cl)(ci, d), (*ol)(ci, d), at("cl not computed", i, d));
                  eq((*ca)(ci, d), (*oa)(ci, d), at("ca not computed", i, d));
                  if (cb) eq((*cb)(ci, d), (*ob)(ci, d), at("cb not computed", i, d));
               }
               continue;
            }
            auto P = cd(*p, S.phi), C = cd(*p, S.c), TT = cd(*p, S.T);
            std::vector<R> x;
            if (S.kind == INDEPENDENT) {
               for (int r = 0; r < 2; r++) for (int d = 0; d < S.nc; d++) x.push_back((*C)(ci, d));
            } else if (S.kind == PARTITION) {
               R kk = k(i), h = h_of((*P)(ci, 0));
               for (int d = 0; d < S.nc; d++) x.push_back((*C)(ci, d) / (1. - h + kk * h));
               for (int d = 0; d < S.nc; d++) x.push_back(kk * (*C)(ci, d) / (1. - h + kk * h));
            } else {
               std::vector<double> a(1, (*TT)(ci, 0));
               for (int d = 0; d < S.nc; d++) a.push_back((*C)(ci, d));
               if (S.kind == DILUTE)
                  a.push_back((*P)(ci, 0));
               else if (S.kind == CALPHAD3)
                  for (int o = 0; o < 3; o++) a.push_back(Thermo4PFM::interp_func(ctype(), (*P)(ci, o)));
               else if (S.kind == CALPHAD2 || S.kind == CALPHADTER)
                  a.push_back(Thermo4PFM::interp_func(ctype(), (*P)(ci, 0)));
               else if (S.kind == QUAD)
                  a.push_back(h_of((*P)(ci, 0)));
               else if (S.np == 2) {
                  R sum = 0.;
                  for (int o = 0; o < S.nop - 1; o++) sum = sum + (*P)(ci, o);
                  a.push_back(h_of(sum));
               } else {
                  R w[3] = {(*P)(ci, S.nop - 1) * (*P)(ci, S.nop - 1), 0., 0.};
                  for (int o = 0; o < S.nop - 1; o++) { R& y = w[o < S.nA ? 1 : 2]; y = y + (*P)(ci, o) * (*P)(ci, o); }
                  R inv = 1. / (w[0] + w[1] + w[2]);
                  for (int o = 0; o < 3; o++) a.push_back(w[o] * inv);
               }
               for (auto& v : S.par) a.push_back(v);
               for (int r = 0; r < S.nc * S.np; r++) x.push_back(fn("kks" + std::to_string(r), a));
            }
            for (int d = 0; d < S.nc; d++) {
               eq((*cl)(ci, d), x[d], at("cl", i, d));
               eq((*ca)(ci, d), x[S.nc + d], at("ca", i, d));
               if (cb) eq((*cb)(ci, d), x[2 * S.nc + d], at("cb", i, d));
               if (S.kind == PARTITION) {
                  R h = h_of((*P)(ci, 0));
                  eq((1. - h) * (*cl)(ci, d) + h * (*ca)(ci, d), (*C)(ci, d), at("mass", i, d));
               }
            }
         }
      }
   }
   lev = 0;
   intact(m);
}
CASE(partition_coefficient)
{
   Mesh m = cfg("patches", 2) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), 1, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   int T = cell(m, "T", cfg("ngt", 1), 1, R(100.), R(4000.)), v = cell(m, "v", cfg("ngv"), 1), k = cell(m, "k", cfg("ngk", 1)), o = cell(m, "k", cfg("ngk", 1));
   R keq = real("keq", 0.1, 5.), vd = real_pos("vd");
   std::shared_ptr<PartitionCoefficientStrategy> s;
   const int kind = cfg("kind");
   auto ei = Thermo4PFM::EnergyInterpolationType::PBG;
   auto db = std::make_shared<tbox::MemoryDatabase>("conc");
   db->putDatabase("Calphad")->putString("filename", "data.dat");
   if (cfg("newton")) db->putDatabase("NewtonSolver");
   const bool given = cfg("given", 1);
   if (kind == 0)
      s = std::make_shared<UniformPartitionCoefficientStrategy>(cfg("ids") ? v : -1, cfg("ids") ? T : -1, k, keq);
   else if (kind == 1)
      s = std::make_shared<AzizPartitionCoefficientStrategy<Thermo4PFM::CALPHADFreeEnergyFunctionsBinary> >(v, T, k, vd, given ? keq : R(-1.), ei, ctype(), db);
   else
      s = std::make_shared<AzizPartitionCoefficientStrategy<Thermo4PFM::KKSFreeEnergyFunctionDiluteBinary> >(v, T, k, vd, given ? keq : R(-1.), ei, ctype(), db);
   if (!given && kind)
      VERIF_PATCHES(m, p) for (auto& i : p->getBox()) { R t = (*cd(*p, T))(pdat::CellIndex(i), 0); assume(gt(fn("ceq0", {t}), R(0.))); assume(gt(fn("ceq1", {t}), R(0.))); }
   s->evaluate(m.h);
   VERIF_PATCHES(m, p) {
      auto K = cd(*p, k), O = cd(*p, o), V = cd(*p, v), TT = cd(*p, T);
      for (auto& i : K->getGhostBox()) {
         pdat::CellIndex ci(i);
         if (kind == 0) { eq((*K)(ci, 0), keq, at("k", i)); continue; }
         if (!p->getBox().contains(i)) { eq((*K)(ci, 0), (*O)(ci, 0), at("k outside", i)); continue; }
         R t = (*TT)(ci, 0), s = vabs((*V)(ci, 0)) / vd, ke = given ? keq : fn("ceq1", {t}) / fn("ceq0", {t});
         eq((*K)(ci, 0), ite(lt(ke, R(1.)), (ke + s) / (1. + s), (1. + s) / (1. / ke + s)), at("k", i));
         // trapping: between the equilibrium value and one
         prove(ite(lt(ke, R(1.)), (*K)(ci, 0) - ke, ke - (*K)(ci, 0)) >= R(0.), at("k on the near side of equilibrium", i));
         prove(ite(lt(ke, R(1.)), 1. - (*K)(ci, 0), (*K)(ci, 0) - 1.) >= R(0.), at("k on the near side of one", i));
      }
   }
   intact(m);
}
