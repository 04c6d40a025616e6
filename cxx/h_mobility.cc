// atomic and interdiffusion mobilities of species (CALPHAD assessments)
#include "verif.h"
#include "samrai.h"
#include "CompositionStrategyMobilities.h"
using namespace verif;
using namespace SAMRAI;
static const double RGAS = 8.314472;
struct Params {      // a0 + R T log(a1), extra T log T and 1/T
   R a0, a1, b0, b1;
   bool extra;
   R operator()(const R& T) const { R v = a0 + RGAS * T * log(a1); return extra ? v + b0 * T * log(T) + b1 / T : v; }
};
struct Species {
   Params q[3], qq[4][3];
   CALPHADMobility* m;
};
static int pairof(int a, int b) { return a + b - 1; }     // (0,1) (0,2) (1,2)
static Params params(const std::string& n, bool extra) { return Params{real(n + ".0", -1e5, 1e5), real(n + ".1", 1e-3, 10.), real(n + ".2", -100., 100.), real(n + ".3", -1e5, 1e5), extra}; }
static std::shared_ptr<tbox::Database> species_db(const std::string& name, int ns, Species& s, int extra, int which)
{
   auto db = std::make_shared<tbox::MemoryDatabase>(name);
   const char* L = "ABC";
   for (int i = 0; i < ns; i++) {
      Params p = s.q[i] = params(name + ".q" + L[i], extra >> i & 1);
      if (!p.extra) { s.q[i].b0 = s.q[i].b1 = 0.; s.q[i].extra = extra != 0; }
      std::vector<double> v{p.a0, p.a1};
      if (p.extra) { v.push_back(p.b0); if (cfg("short")) s.q[i].b1 = 0.; else v.push_back(p.b1); }
      db->putDoubleVector(std::string("q") + L[i], v);
   }
   for (int k = 0; k < 4; k++)
      for (int a = 0; a < ns; a++)
         for (int b = a + 1; b < ns; b++) {
            std::string key = "q" + std::to_string(k) + L[a] + L[b];
            Params& p = s.qq[k][pairof(a, b)];
            if (which >> k & 1) { p = params(name + "." + key, false); db->putDoubleVector(key, std::vector<double>{p.a0, p.a1}); } else p = Params{0., 1., 0., 0., false};
         }
   return db;
}
static R deltag(const Species& s, const std::vector<R>& c, const R& T)
{
   int n = c.size();
   R g = 0.;
   for (int i = 0; i < n; i++) g = g + c[i] * s.q[i](T);
   for (int a = 0; a < n; a++)
      for (int b = a + 1; b < n; b++) {
         R dc = c[a] - c[b], t = 0.;
         for (int k = n == 2 ? 3 : 1; k >= 0; k--) t = s.qq[k][pairof(a, b)](T) + dc * t;
         g = g + c[a] * c[b] * t;
      }
   return g;
}
// M_ij = sum over species k of (delta_ki - c_i)(delta_kj - c_j) c_k m_k, in um^2
static R interdiffusion(const std::vector<R>& mob, const std::vector<R>& c, int i, int j)
{
   R s = 0.;
   for (size_t k = 0; k < c.size(); k++) s = s + ((int)k == i ? 1. - c[i] : -c[i]) * ((int)k == j ? 1. - c[j] : -c[j]) * c[k] * mob[k];
   return s * 1e12;
}
CASE(mobilities)
{
   int ns = cfg("ns", 2), extra = cfg("extra"), which = cfg("terms", 15);
   R T = real("T", 200., 4000.);
   std::vector<R> c;
   c.push_back(real("c0", 0., 1.));
   if (ns > 2) { c.push_back(real("c1", 0., 1.)); assume(le(c[0] + c[1], 1.)); }
   c.push_back(ns > 2 ? 1. - c[0] - c[1] : 1. - c[0]);
   std::vector<Species> S(ns);
   std::vector<CALPHADMobility> M;
   for (int i = 0; i < ns; i++) {
      M.push_back(CALPHADMobility("MobilitySpecies" + std::to_string(i)));
      M[i].initialize(species_db("s" + std::to_string(i), ns, S[i], extra, which));
   }
   std::vector<R> mob;
   for (int i = 0; i < ns; i++) {
      R g = deltag(S[i], c, T);
      R code = ns == 2 ? M[i].getDeltaG(c[0], c[1], T) : M[i].getDeltaG(c[0], c[1], c[2], T);
      eq(code, g, "activation energy");
      R am = ns == 2 ? M[i].getAtomicMobility(c[0], c[1], T) : M[i].getAtomicMobility(c[0], c[1], c[2], T);
      eq(am, exp(code / (RGAS * T)) / (RGAS * T), "atomic mobility");
      if (ns == 2) eq(M[i].getAtomicMobilityBinary(c[0], T), am, "atomic mobility of a binary");
      mob.push_back(am);
   }
   if (ns == 2) eq(computeDiffusionMobilityBinaryPhase(c[0], T, M), interdiffusion(mob, c, 0, 0), "interdiffusion mobility");
   else {
      std::vector<double> v(4);
      computeDiffusionMobilityTernaryPhase(c[0], c[1], T, M, v);
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(v[2 * i + j], interdiffusion(mob, c, i, j), "interdiffusion mobility");
   }
   // through the strategy: phases are not mixed up
   static char raw[sizeof(CompositionStrategyMobilities)] __attribute__((aligned(16)));
   CompositionStrategyMobilities* s = reinterpret_cast<CompositionStrategyMobilities*>(raw);
   std::vector<CALPHADMobility> other;
   Species tmp;
   for (int i = 0; i < ns; i++) { other.push_back(CALPHADMobility("o")); other[i].initialize(species_db("o" + std::to_string(i), ns, tmp, 0, 1)); }
   s->d_ncompositions = ns - 1;
   new (&s->d_calphad_mobilities_phaseL) std::vector<CALPHADMobility>(other);
   new (&s->d_calphad_mobilities_phaseA) std::vector<CALPHADMobility>(other);
   new (&s->d_calphad_mobilities_phaseB) std::vector<CALPHADMobility>(other);
   int ph = cfg("phase");
   (ph == 0 ? s->d_calphad_mobilities_phaseL : ph == 1 ? s->d_calphad_mobilities_phaseA : s->d_calphad_mobilities_phaseB) = M;
   std::vector<double> cc(1, c[0]), v(4);
   if (ns > 2) cc.push_back(c[1]);
   if (ph == 0) s->computeDiffusionMobilityPhaseL(cc, T, v);
   else if (ph == 1) s->computeDiffusionMobilityPhaseA(cc, T, v);
   else s->computeDiffusionMobilityPhaseB(cc, T, v);
   for (int i = 0; i < ns - 1; i++) for (int j = 0; j < ns - 1; j++) eq(v[(ns - 1) * i + j], interdiffusion(mob, c, i, j), "interdiffusion mobility of the phase");
}
