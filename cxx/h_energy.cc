// bulk free energies of the phases, the driving forces derived from them, the totals reported
#include "fixture.h"
#include "stubs.h"
#include "ConcFreeEnergyStrategy.h"
#include "CALPHADFreeEnergyStrategyBinary.h"
#include "CALPHADFreeEnergyStrategyBinaryThreePhase.h"
#include "CALPHADFreeEnergyStrategyMultiOrder.h"
#include "CALPHADFreeEnergyStrategyTernary.h"
#include "QuadraticFreeEnergyStrategy.h"
#include "QuadraticFreeEnergyStrategyMultiOrder.h"
#include "QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.h"
#include "KKSdiluteBinary.h"
#include "TiltingFolchPlapp2005.h"
#include "TiltingMoelans2011.h"
#include "ConstantMolarVolumeStrategy.h"
#include "PhaseFreeEnergyStrategy.h"
#include "TemperatureFreeEnergyStrategy.h"
#include "DeltaTemperatureFreeEnergyStrategy.h"
#include "BiasDoubleWellBeckermannFreeEnergyStrategy.h"
#include "BiasDoubleWellUTRCFreeEnergyStrategy.h"
#include "ConstantMeltingTemperatureStrategy.h"
#include "LinearMeltingTemperatureStrategy.h"
#include "TwoPhasesEnergyEvaluationStrategy.h"
#include "MultiOrderPEnergyEvaluationStrategy.h"
#include "QuatModelParameters.h"
#include "QuatModelParameters.cc"
#include "FuncFort.h"
extern "C" double AVERAGE_FUNC(const double&, const double&, const char*);
#include "QuatFort.h"
#include "ConcFort.h"
#include "Database2JSON.h"
using namespace fx;
void copyDatabase(std::shared_ptr<SAMRAI::tbox::Database>, boost::property_tree::ptree&) {}
double sumReduction(const double x) { return x; }
void sumReduction(double*, const int) {}
typedef Thermo4PFM::PhaseIndex PI;
static const PI PH[3] = {PI::phaseL, PI::phaseA, PI::phaseB};

// inverse volumes depending on everything they may depend on
class StubVolume : public MolarVolumeStrategy
{
 public:
   int nc = 1;
   static R val(int p, const R& T, const std::vector<R>& c) { std::vector<double> a(1, T); for (auto& x : c) a.push_back(x); return fn("invvm" + std::to_string(p), a); }
   double computeInvMolarVolume(const double T, const double* const c, const PI pi) { return val((int)pi, T, std::vector<R>(c, c + nc)); }
};
enum Kind { BINARY, BINARY_SUBL, THREE_FOLCH, THREE_MOELANS, MULTI, MULTI_B, TERNARY, QUADRATIC, QUAD_MULTI, QUAD_TERNARY, DILUTE };
struct Model {
   int kind, nc = 1, np = 2, nop = 1, nA = 1;
   char interp = 'p';
   Mesh& m;
   int ng, T, phi, cl, ca, cb = -1, c;
   StubVolume vol;
   R vm[3];
   std::vector<R> par[3];
   std::shared_ptr<FreeEnergyStrategy> s;
   Model(Mesh& mesh) : m(mesh)
   {
      kind = cfg("kind");
      ng = cfg("ng", 1);
      int ngc = cfg("ngc", 0), ngt = cfg("ngt", 1);
      nc = vol.nc = kind == TERNARY || kind == QUAD_TERNARY ? 2 : 1;
      np = kind == THREE_FOLCH || kind == THREE_MOELANS || kind == MULTI_B || kind == QUAD_TERNARY ? 3 : 2;
      nA = cfg("nA", 1);
      nop = kind == THREE_FOLCH || kind == THREE_MOELANS ? 3 : kind == MULTI || kind == QUAD_MULTI ? nA + 1 : kind == MULTI_B || kind == QUAD_TERNARY ? nA + cfg("nB", 1) + 1 : 1;
      interp = "lph"[cfg("interp", 1)];
      auto it = interp == 'l' ? Thermo4PFM::EnergyInterpolationType::LINEAR : interp == 'p' ? Thermo4PFM::EnergyInterpolationType::PBG : Thermo4PFM::EnergyInterpolationType::HARMONIC;
      auto ci = Thermo4PFM::ConcInterpolationType::LINEAR;
      T = cell(m, "T", ngt, 1, R(200.), R(3000.));
      phi = cell(m, "phi", ng, nop, R(-0.25), R(1.25));
      c = cell(m, "c", 0, nc);
      cl = cell(m, "cl", ngc, nc, R(0.), R(1.));
      ca = cell(m, "ca", ngc, nc, R(0.), R(1.));
      if (np > 2) cb = cell(m, "cb", ngc, nc, R(0.), R(1.));
      boost::property_tree::ptree pt;
      auto db = std::make_shared<tbox::MemoryDatabase>("db");
      std::shared_ptr<tbox::Database> none;
      for (int p = 0; p < 3; p++) vm[p] = real("vm" + std::to_string(p), 1e-6, 1e-4);
      auto put = [&](const std::string& k) { R v = real(k, -10., 10.); db->putDouble(k, v); return v; };
      auto put2 = [&](const std::string& k, std::vector<R>& p) { std::vector<double> v{real(k + ".0", -10., 10.), real(k + ".1", -10., 10.)}; db->putDoubleVector(k, v); p.push_back(v[0]); p.push_back(v[1]); };
      if (kind == QUADRATIC || kind == QUAD_MULTI) {
         R tr = put("T_ref");
         par[0] = {tr, put("A_liquid"), put("Ceq_liquid"), put("m_liquid")};
         par[1] = {tr, put("A_solid"), put("Ceq_solid"), put("m_solid")};
      }
      if (kind == QUAD_TERNARY) {
         const char* n[3] = {"liquid", "solid_A", "solid_B"};
         for (int p = 0; p < 3; p++) { put2(std::string("A_") + n[p], par[p]); put2(std::string("Ceq_") + n[p], par[p]); }
      }
      using namespace Thermo4PFM;
      switch (kind) {
         case BINARY: s.reset(new CALPHADFreeEnergyStrategyBinary<CALPHADFreeEnergyFunctionsBinary>(pt, none, it, ci, &vol, cl, ca, -1, false)); break;
         case BINARY_SUBL: s.reset(new CALPHADFreeEnergyStrategyBinary<CALPHADFreeEnergyFunctionsBinary2Ph1Sl>(pt, none, it, ci, &vol, cl, ca, -1, false)); break;
         case THREE_FOLCH: s.reset(new CALPHADFreeEnergyStrategyBinaryThreePhase<CALPHADFreeEnergyFunctionsBinaryThreePhase, TiltingFolchPlapp2005>(pt, none, it, ci, &vol, cl, ca, cb)); break;
         case THREE_MOELANS: s.reset(new CALPHADFreeEnergyStrategyBinaryThreePhase<CALPHADFreeEnergyFunctionsBinary3Ph2Sl, TiltingMoelans2011>(pt, none, it, ci, &vol, cl, ca, cb)); break;
         case MULTI: s.reset(new CALPHADFreeEnergyStrategyMultiOrder<CALPHADFreeEnergyFunctionsBinary2Ph1Sl>(pt, none, ci, nA, &vol, cl, ca, -1)); break;
         case MULTI_B: s.reset(new CALPHADFreeEnergyStrategyMultiOrder<CALPHADFreeEnergyFunctionsBinaryThreePhase>(pt, none, ci, nA, &vol, cl, ca, cb)); break;
         case TERNARY: s.reset(new CALPHADFreeEnergyStrategyTernary(none, none, it, ci, &vol, cl, ca)); break;
         case QUADRATIC: s.reset(new QuadraticFreeEnergyStrategy(db, it, vm[0], vm[1], cl, ca)); break;
         case QUAD_MULTI: s.reset(new QuadraticFreeEnergyStrategyMultiOrder(db, it, vm[0], vm[1], cl, ca)); break;
         case QUAD_TERNARY: s.reset(new QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase(db, it, nA, vm[0], vm[1], vm[2], cl, ca, cb)); break;
         case DILUTE: s.reset(new KKSdiluteBinary(db, it, ci, &vol, cl, ca)); break;
      }
   }
   bool quad() const { return kind == QUADRATIC || kind == QUAD_MULTI || kind == QUAD_TERNARY; }
   int cid(int p) const { return p == 0 ? cl : p == 1 ? ca : cb; }
   std::vector<R> conc(int p, const hier::Index& i) const { Ref r{m, cid(p)}; std::vector<R> v; for (int k = 0; k < nc; k++) v.push_back(r(i, k)); return v; }
   R temp(const hier::Index& i) const { return Ref{m, T}(i); }
   R scale(int p, const R& t, const std::vector<R>& x) const { return quad() ? R(1e-6) / vm[p] : StubVolume::val(p, t, x); }
   // per mole, d counts the derivatives
   R molar(int p, const R& t, const std::vector<R>& x, int d1 = 0, int d2 = 0) const
   {
      std::string n = p == 0 ? "fL" : p == 1 ? "fA" : "fB";
      if (d1 && d2 && d1 > d2) std::swap(d1, d2);
      if (d1) n += "'" + std::to_string(d1);
      if (d2) n += "'" + std::to_string(d2);
      std::vector<double> a(1, t);
      for (auto& v : x) a.push_back(v);
      for (auto& v : par[p]) a.push_back(v);
      return fn(n, a);
   }
   R f(int p, const hier::Index& i, bool gp) const
   {
      R t = temp(i);
      auto x = conc(p, i);
      R v = molar(p, t, x);
      if (gp && !quad()) for (int k = 0; k < nc; k++) v = v - molar(p, t, x, k + 1) * x[k];
      return v * scale(p, t, x);
   }
   R mu(int p, const hier::Index& i, int k) const { R t = temp(i); auto x = conc(p, i); return molar(p, t, x, k + 1) * scale(p, t, x); }
};
// energies of each phase on every level, in energy per volume; their derivatives
CASE(energies)
{
   Mesh m = grid(box(1, 2, 1), cfg("patches", 2), cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   Model M(m);
   bool gp = cfg("gp");
   int ngf = cfg("ngf", 1);
   int fl = out(m, "fl", ngf), fa = out(m, "fa", ngf), fb = out(m, "fb", ngf);
   M.s->computeFreeEnergyLiquid(m.h, M.T, fl, gp);
   M.s->computeFreeEnergySolidA(m.h, M.T, fa, gp);
   if (M.np > 2) M.s->computeFreeEnergySolidB(m.h, M.T, fb, gp);
   eqall(m, fl, [&](const hier::Index& i, int) { return M.f(0, i, gp); }, "energy of the liquid");
   eqall(m, fa, [&](const hier::Index& i, int) { return M.f(1, i, gp); }, "energy of solid A");
   if (M.np > 2) eqall(m, fb, [&](const hier::Index& i, int) { return M.f(2, i, gp); }, "energy of solid B");
   if (auto cf = std::dynamic_pointer_cast<ConcFreeEnergyStrategy>(M.s)) {
      int d[3];
      for (int p = 0; p < M.np; p++) d[p] = out(m, "df" + std::to_string(p), ngf, M.nc);
      cf->computeDerivFreeEnergyLiquid(m.h, M.T, d[0]);
      cf->computeDerivFreeEnergySolidA(m.h, M.T, d[1]);
      if (M.np > 2) cf->computeDerivFreeEnergySolidB(m.h, M.T, d[2]);
      for (int p = 0; p < M.np; p++) eqall(m, d[p], [&](const hier::Index& i, int k) { return M.mu(p, i, k); }, lab("chemical potential in phase [", p));
   }
   intact(m);
}
CASE(second_derivatives)
{
   Mesh m = grid(box(1, 1, 1));
   Model M(m);
   R t = real("t", 200., 3000.);
   std::vector<double> x;
   std::vector<R> xr;
   for (int k = 0; k < M.nc; k++) { x.push_back(real("x" + std::to_string(k), 0., 1.)); xr.push_back(x[k]); }
   R tt = M.kind == QUAD_MULTI || M.kind == QUAD_TERNARY ? R(0.) : t;      // quadratic energies: same curvature at any temperature
   for (int units = 0; units < 2; units++)
      for (int p = 0; p < 2; p++) {
         std::vector<double> d(M.nc * M.nc);
         if (p == 0) M.s->computeSecondDerivativeEnergyPhaseL(t, x, d, units); else M.s->computeSecondDerivativeEnergyPhaseA(t, x, d, units);
         for (int i = 0; i < M.nc; i++)
            for (int j = 0; j < M.nc; j++)
               eq(d[M.nc * i + j], M.molar(p, tt, xr, i + 1, j + 1) * (units ? M.scale(p, t, xr) : R(1.)), lab("second derivative, phase [", p, lab(units ? "] per volume [" : "] per mole [", i, j)));
      }
}
// driving force: minus the derivative, with respect to the phases, of sum of h_p(phi) (f_p - mu c_p)
CASE(driving)
{
   Mesh m = grid(box(1, cfg("ny", 2), 1), cfg("patches", 1), cfg("lo"));
   Model M(m);
   int ngf = cfg("ngf", 1);
   int fl = cell(m, "fl", ngf), fa = cell(m, "fa", ngf), fb = M.np > 2 ? cell(m, "fb", ngf) : -1;
   int rhs = cell(m, "rhs", 0, M.nop);
   int flat = cell(m, "flat", 0, M.nop);
   int raw = cfg("raw");
   if (M.nop > 1) VERIF_PATCHES(m, p) for (auto& i : p->getBox()) { R s2 = 0.; for (int k = 0; k < M.nop; k++) { R v = Ref{m, M.phi}(i, k); s2 = s2 + v * v; } assume(lt(R(0.01), s2)); }
   if (M.kind == THREE_FOLCH || M.kind == THREE_MOELANS) {
      VERIF_PATCHES(m, p) for (auto& i : p->getBox()) { Ref v{m, M.phi}; for (int k = 0; k < 3; k++) { assume(le(R(0.), v(i, k))); assume(le(v(i, k), R(1.))); } }
   }
   if (raw) M.s->computeDrivingForce(0.5, m.h, M.T, M.phi, -1, M.c, fl, fa, fb, flat);
   VERIF_PATCHES(m, p) M.s->addDrivingForce(0.5, *p, M.T, M.phi, -1, M.c, fl, fa, fb, rhs);
   auto force = [&](const hier::Index& i, int k, bool lin) -> R {
      Ref F[3] = {Ref{m, fl}, Ref{m, fa}, Ref{m, fb}};
      std::vector<R> w(3, R(0.));          // grand potentials
      for (int p = 0; p < M.np; p++) {
         w[p] = F[p](i);
         for (int d = 0; d < M.nc; d++) {
            int ref = M.kind == QUAD_TERNARY ? p : M.kind == MULTI || M.kind == MULTI_B || M.kind == QUADRATIC || M.kind == QUAD_MULTI ? 0 : 1;
            w[p] = w[p] - M.mu(ref, i, d) * Ref{m, M.cid(p)}(i, d);
         }
      }
      Ref ph{m, M.phi};
      if (M.nop == 1) {
         char t = lin ? 'l' : M.interp;
         return DERIV_INTERP_FUNC(double(ph(i)), &t) * (w[0] - w[1]);
      }
      if (M.kind == THREE_FOLCH || M.kind == THREE_MOELANS) {
         bool fo = M.kind == THREE_FOLCH;
         auto own = fo ? TiltingFolchPlapp2005::dg0dp0 : TiltingMoelans2011::dg0dp0;
         auto cross = fo ? TiltingFolchPlapp2005::dg0dp1 : TiltingMoelans2011::dg0dp1;
         R r[3], sum = 0.;
         for (int a = 0; a < 3; a++) {
            int b = (a + 1) % 3, d = (a + 2) % 3;
            r[a] = own(ph(i, a), ph(i, b), ph(i, d)) * w[a] + cross(ph(i, b), ph(i, a), ph(i, d)) * w[b] + cross(ph(i, d), ph(i, a), ph(i, b)) * w[d];
            sum = sum + r[a];
         }
         return -(r[k] - sum / 3.);
      }
      R s2 = 0., hw = 0.;
      for (int a = 0; a < M.nop; a++) {
         R q = ph(i, a) * ph(i, a);
         s2 = s2 + q;
         hw = hw + q * w[a == M.nop - 1 ? 0 : a < M.nA ? 1 : 2];
      }
      int mine = k == M.nop - 1 ? 0 : k < M.nA ? 1 : 2;
      return -2. * ph(i, k) * (w[mine] - hw / s2) / s2;
   };
   eqall(m, rhs, [&](const hier::Index& i, int k) { return real(at("rhs", i, M.nop > 1 ? k : -1)) + force(i, k, false); }, "driving force");
   if (raw) eqall(m, flat, [&](const hier::Index& i, int k) { return force(i, k, M.kind != QUADRATIC); }, "driving force alone");
   intact(m);
}
CASE(molar_volume)
{
   R v[3];
   for (int p = 0; p < 3; p++) v[p] = real("vm" + std::to_string(p), 1e-6, 1e-4);
   ConstantMolarVolumeStrategy s(v[0], v[1], v[2]);
   double c[2] = {real("c0"), real("c1")};
   for (int p = 0; p < 3; p++) eq(s.computeInvMolarVolume(real("T"), c, PH[p]) * v[p], R(1e-6), lab("joule per mole to picojoule per cubic micron, phase [", p));
}
// pure materials: energies that depend on temperature only
CASE(pure)
{
   Mesh m = grid(box(1, 2, 1), cfg("patches", 2), cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   int kind = cfg("kind"), nop = cfg("nop", 1), ngt = cfg("ngt", 1), ng = cfg("ng", 1);
   char it = "lph"[cfg("interp", 1)];
   auto type = it == 'l' ? Thermo4PFM::EnergyInterpolationType::LINEAR : it == 'p' ? Thermo4PFM::EnergyInterpolationType::PBG : Thermo4PFM::EnergyInterpolationType::HARMONIC;
   int T = cell(m, "T", ngt, 1, R(200.), R(3000.)), phi = cell(m, "phi", ng, nop, R(-0.25), R(1.25));
   if (nop > 1) VERIF_PATCHES(m, p) for (auto& i : p->getBox()) { R s2 = 0.; for (int k = 0; k < nop; k++) { R v = Ref{m, phi}(i, k); s2 = s2 + v * v; } assume(lt(R(0.01), s2)); }
   int fl = out(m, "fl"), fa = out(m, "fa"), fb = out(m, "fb"), rhs = cell(m, "rhs", 0, nop), flat = cell(m, "flat", 0, nop);
   R L = real("L", 0.1, 10.), Tm = real("Tm", 500., 2000.), va = real("vma", 1e-6, 1e-4), vl = real("vml", 1e-6, 1e-4), ul = real("f_l", -100., 100.), ua = real("f_a", -100., 100.);
   std::shared_ptr<FreeEnergyStrategy> s;
   if (kind == 0) s.reset(new PhaseFreeEnergyStrategy(type, ul, ua, vl, va));
   if (kind == 1) s.reset(new TemperatureFreeEnergyStrategy(type, ua, va, L, Tm));
   if (kind == 2) s.reset(new DeltaTemperatureFreeEnergyStrategy(Tm, L, type));
   s->computeFreeEnergyLiquid(m.h, T, fl, cfg("gp"));
   s->computeFreeEnergySolidA(m.h, T, fa, cfg("gp"));
   VERIF_PATCHES(m, p) s->addDrivingForce(0.5, *p, T, phi, -1, -1, fl, fa, -1, rhs);
   s->computeDrivingForce(0.5, m.h, T, phi, -1, -1, fl, fa, -1, flat);
   auto el = [&](const hier::Index& i) { R t = Ref{m, T}(i); return kind == 0 ? ul * 1e-6 / vl : kind == 1 ? ua * 1e-6 / va + L * (Tm - t) / Tm : L * (Tm - t) / Tm * 0.5; };
   auto ea = [&](const hier::Index& i) { R t = Ref{m, T}(i); return kind < 2 ? ua * 1e-6 / va : L * (Tm - t) / Tm * -0.5; };
   eqall(m, fl, [&](const hier::Index& i, int) { return el(i); }, "energy of the liquid");
   eqall(m, fa, [&](const hier::Index& i, int) { return ea(i); }, "energy of the solid");
   int ker = out(m, "ker");
   fill(m, ker, [&](const hier::Index&, int) { return R(0.); });
   if (kind == 2) VERIF_PATCHES(m, p) COMPUTERHSDELTATEMPERATURE(VERIF_BOX(p->getBox()), cd(*p, phi)->getPointer(), ng, cd(*p, T)->getPointer(), ngt, Tm, L, cd(*p, ker)->getPointer(), 0, &it);
   if (auto dt = std::dynamic_pointer_cast<DeltaTemperatureFreeEnergyStrategy>(s)) {
      int blk = out(m, "block", cfg("ngb"));
      R mob = real("mobility", 0.1, 5.);
      dt->applydPhidTBlock(m.h, T, phi, blk, mob);
      eqall(m, blk, [&](const hier::Index& i, int) { return mob * L / Tm * DERIV_INTERP_FUNC(double(Ref{m, phi}(i)), &it); }, "effect of temperature on the phase");
   }
   auto force = [&](const hier::Index& i, int k) -> R {
      Ref ph{m, phi};
      R d = el(i) - ea(i);
      if (kind == 2) return Ref{m, ker}(i);      // temperature averaged with the neighbours by the kernel
      if (nop == 1) return DERIV_INTERP_FUNC(double(ph(i)), &it) * d;
      R s2 = 0., hl = ph(i, nop - 1) * ph(i, nop - 1);
      for (int a = 0; a < nop; a++) s2 = s2 + ph(i, a) * ph(i, a);
      return k == nop - 1 ? -2. * ph(i, k) * (1. - hl / s2) * d / s2 : 2. * ph(i, k) * (hl / s2) * d / s2;
   };
   eqall(m, rhs, [&](const hier::Index& i, int k) { return real(at("rhs", i, nop > 1 ? k : -1)) + force(i, k); }, "driving force");
   eqall(m, flat, [&](const hier::Index& i, int k) { return force(i, k); }, "driving force alone");
   intact(m);
}

// driving force of the biased double well: proportional to the undercooling below the equilibrium temperature
CASE(bias)
{
   Mesh m = grid(box(2, 1, 1), cfg("patches", 1), cfg("lo"));
   int ngt = cfg("ngt", 1), ng = cfg("ng", 1);
   int T = cell(m, "T", ngt, 1, R(200.), R(3000.)), phi = cell(m, "phi", ng), c = cell(m, "c", cfg("ngc"), 1, R(0.), R(1.)), te = out(m, "te"), rhs = cell(m, "rhs"), ref = cell(m, "rhs"), flat = cell(m, "flat");
   R al = real("alpha", 0.1, 5.), ga = real("gamma", 0.1, 5.), Tr = real("Tref", 200., 3000.), c0 = real("c0", 0., 1.), sl = real("slope", -1000., 1000.);
   std::unique_ptr<MeltingTemperatureStrategy> mt;
   if (cfg("linear")) mt.reset(new LinearMeltingTemperatureStrategy(Tr, c0, sl, c, te)); else mt.reset(new ConstantMeltingTemperatureStrategy(Tr, te));
   std::unique_ptr<FreeEnergyStrategy> s;
   if (cfg("beckermann")) s.reset(new BiasDoubleWellBeckermannFreeEnergyStrategy(al, mt.get())); else s.reset(new BiasDoubleWellUTRCFreeEnergyStrategy(al, ga, mt.get()));
   VERIF_PATCHES(m, p) s->addDrivingForce(0.5, *p, T, phi, -1, c, -1, -1, -1, rhs);
   s->computeDrivingForce(0.5, m.h, T, phi, -1, c, -1, -1, -1, flat);
   auto eqt = [&](const hier::Index& i) -> R { return cfg("linear") ? Tr + sl * (Ref{m, c}(i) - c0) : Tr; };
   eqall(m, te, [&](const hier::Index& i, int) { return eqt(i); }, "equilibrium temperature");
   if (cfg("beckermann")) {
      auto f = [&](const hier::Index& i) { R v = Ref{m, phi}(i); return al * (eqt(i) - Ref{m, T}(i)) * v * (1. - v); };
      eqall(m, rhs, [&](const hier::Index& i, int) { return real(at("rhs", i)) + f(i); }, "driving force");
      eqall(m, flat, [&](const hier::Index& i, int) { return f(i); }, "driving force alone");
   } else {
      VERIF_PATCHES(m, p) COMPUTERHSBIASWELL(VERIF_BOX(p->getBox()), cd(*p, phi)->getPointer(), ng, cd(*p, T)->getPointer(), ngt, al, ga, cd(*p, te)->getPointer(), 0, cd(*p, ref)->getPointer(), 0);
      eqall(m, rhs, [&](const hier::Index& i, int) { return Ref{m, ref}(i); }, "driving force");
      eqall(m, flat, [&](const hier::Index& i, int) { return Ref{m, ref}(i) - real(at("rhs", i)); }, "driving force alone");
   }
   intact(m);
}
static QuatModelParameters& settings()
{
   QuatModelParameters& q = *new QuatModelParameters();
   return q;
}
// what is reported: every cell of every patch and level counted once, with its weight
CASE(totals)
{
   Mesh m = grid(box(1, cfg("ny", 1), 1), cfg("patches", 2), cfg("lo"));
   for (int l = 1; l < cfg("levels", 1); l++) refine(m, box(2, 2, 2));
   QuatModelParameters& q = settings();
   int qlen = cfg("qlen", 0), ngt = cfg("ngt", 1), ng = cfg("ng", 1), visit = cfg("visit");
   char it = "lph"[cfg("interp", 1)];
   q.d_energy_interp_func_type = it == 'l' ? Thermo4PFM::EnergyInterpolationType::LINEAR : it == 'p' ? Thermo4PFM::EnergyInterpolationType::PBG : Thermo4PFM::EnergyInterpolationType::HARMONIC;
   R eps = real("epsilon", 0.1, 2.), epsq = real("epsilonq", 0.1, 2.), H = real("H", 0.1, 2.), ws = real("well", 0.1, 5.), flo = real("floor", 0.01, 0.5);
   q.d_epsilon_phase = eps;
   q.d_epsilon_q = epsq;
   q.d_epsilon_anisotropy = -1.;
   q.d_H_parameter = qlen ? H : R(-1.);
   q.d_phase_well_scale = ws;
   q.d_phase_well_func_type = cfg("quartic") ? "double" : "single";
   q.d_orient_interp_func_type1 = cfg("o1") ? "pbg" : "quadratic";
   q.d_orient_interp_func_type2 = cfg("o2") ? "pbg" : "quadratic";
   q.d_avg_func_type = cfg("harm") ? "harmonic" : "arithmetic";
   q.d_quat_grad_floor_type = cfg("smooth") ? "s" : "max";
   q.d_quat_grad_floor = flo;
   q.d_visit_energy_output = visit;
   int T = cell(m, "T", ngt, 1, R(200.), R(3000.)), phi = cell(m, "phi", ng, 1, R(0.05), R(1.)), w = cell(m, "w"), fl = cell(m, "fl"), fa = cell(m, "fa"), ed = cell(m, "ed");
   int gq = qlen ? side(m, "gq", 0, qlen * NDIM) : -1;
   TwoPhasesEnergyEvaluationStrategy s(q, qlen, phi, -1, gq, w, fl, fa, T, visit ? ed : -1);
   double tot, ph, ori, qint, well, fre;
   static_cast<EnergyEvaluationStrategy&>(s).evaluateEnergy(m.h, 0.5, tot, ph, ori, qint, well, fre, cfg("gp"));
   R eph = 0., eori = 0., eqint = 0., ewell = 0., efree = 0.;
   std::string well_t = q.d_phase_well_func_type, o1 = q.d_orient_interp_func_type1, o2 = q.d_orient_interp_func_type2, av = q.d_avg_func_type;
   VERIF_PATCHES(m, p)
      for (auto& i : p->getBox()) {
         Ref F{m, phi};
         R v = F(i), lap = 0.;
         for (int a = 0; a < NDIM; a++) lap = lap + (F(nb(i, a, 1)) - 2. * v + F(nb(i, a, -1))) / (m.dx[a] * m.dx[a]);
         R e0 = -0.5 * eps * eps * v * lap, e1 = 0., e2 = 0.;
         if (qlen) {
            for (int a = 0; a < NDIM; a++)
               for (int sd = 0; sd < 2; sd++) {
                  R g2 = 0.;
                  for (int k = 0; k < qlen * NDIM; k++) { R g = Ref{m, gq}(a, nb(i, a, sd), k); g2 = g2 + g * g; }
                  e2 = e2 + g2;
                  R pa = AVERAGE_FUNC(double(F(nb(i, a, sd - 1))), double(F(nb(i, a, sd))), av.c_str());
                  e1 = e1 + INTERP_FUNC(double(pa), o1.c_str()) * sqrt(cfg("smooth") ? g2 + flo * flo : g2);
               }
            e1 = e1 / (2. * NDIM) * 2. * H * Ref{m, T}(i);
            e2 = e2 / (2. * NDIM) * NDIM * 0.5 * epsq * epsq * INTERP_FUNC(double(v), o2.c_str()) / NDIM;
         }
         R e3 = ws * WELL_FUNC(double(v), well_t.c_str());
         R h = INTERP_FUNC(double(v), &it);
         R e4 = (1. - h) * Ref{m, fl}(i) + h * Ref{m, fa}(i);
         R wt = Ref{m, w}(i);
         eph = eph + wt * e0;
         eori = eori + wt * e1;
         eqint = eqint + wt * e2;
         ewell = ewell + wt * e3;
         efree = efree + wt * e4;
         if (visit) eq(Ref{m, ed}(i), e0 + e1 + e2 + e3 + e4, at("energy density", i));
      }
   eq(ph, eph, "interface energy");
   eq(ori, eori, "orientation energy");
   eq(qint, eqint, "orientation gradient energy");
   eq(well, ewell, "double well energy");
   eq(fre, efree, "bulk energy");
   eq(tot, R(ph) + ori + qint + well + fre, "the total is the sum of its parts");
   intact(m);
}
CASE(pairs)
{
   Mesh m = grid(box(1, 1, 1), cfg("patches", 2), cfg("lo"));
   for (int l = 1; l < cfg("levels", 1); l++) refine(m, box(2, 2, 2));
   QuatModelParameters& q = settings();
   int n = cfg("n", 2), ng = cfg("ng", 1);
   R ws = real("well", 0.1, 5.), g = real("gamma", 0.5, 3.);
   q.d_phase_well_scale = ws;
   q.d_gamma = g;
   q.d_norderp_A = n;
   q.d_norderp = n + 1;
   q.d_visit_energy_output = false;
   int phi = cell(m, "phi", ng, n + 1), w = cell(m, "w");
   MultiOrderPEnergyEvaluationStrategy s(q, phi, w, -1);
   for (int rep = 0; rep < 2; rep++) s.evaluatePairEnergy(m.h);
   for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++) {
         if (a == b) continue;
         R e = 0.;
         VERIF_PATCHES(m, p) for (auto& i : p->getBox()) { R x = Ref{m, phi}(i, a), y = Ref{m, phi}(i, b); e = e + Ref{m, w}(i) * x * x * y * y; }
         eq(s.d_total_energy[a * n + b], 4. * ws * g * e, lab("interface energy of the pair [", a, lab(",", b)));
      }
   intact(m);
}
