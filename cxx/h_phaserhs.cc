// right-hand sides of the order parameters as the integrator asks for them: fluxes made one value on coarse-fine boundaries,
// local terms, driving force, mobility, noise
#include "stubs.h"
#include "QuatFort.h"
#include "QuatModelParameters.h"
#include "CVODESolver.h"
#include "UniformNoise.h"
#include "NormalNoise.h"
#include "PhaseFluxStrategySimple.h"
#include "PhaseFluxStrategyFactory.h"
#include "PhaseRHSStrategyWithQ.h"
#include "MultiOrderRHSStrategy.h"
#include "ThreePhasesRHSStrategy.h"
#include "SinteringUWangRHSStrategy.h"
#include "MovingFrameRHS.h"
using namespace fx;

static CVODESolver* solver(double last)
{
   static char raw[sizeof(CVODESolver)] __attribute__((aligned(16)));
   CVODESolver* s = reinterpret_cast<CVODESolver*>(raw);
   new (&s->d_actual_t_f) double(last);
   return s;
}
static Mesh twolevels()
{
   Mesh m = cfg("patches", 2) > 1 ? grid(box(1), 2, cfg("lo")) : grid(box(1), 1, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2, 2, 2));
   return m;
}
static R dif(const Ref& f, const hier::Index& i, int a, int k) { return f(i, k) - f(nb(i, a, -1), k); }
// the flux every side must have: that of the finest level there
struct Composite {
   const Mesh& m; const Ref& F; R e;
   R own(int a, const hier::Index& i, int k) const { return e * e * dif(F, i, a, k) / m.dx[a]; }
   R operator()(int a, const hier::Index& i, int k) const
   {
      if (lev + 1 >= m.h->getNumberOfLevels()) return own(a, i, k);
      auto fb = pdat::SideGeometry::toSideBox(m.patch(0, 1).getBox(), a);
      R t = 0.;
      int n = 0;
      for (int u = 0; u < 2; u++)
         for (int v = 0; v < (NDIM == 3 ? 2 : 1); v++) {
            hier::Index j(i);
            int b = a == 0 ? 1 : 0, c = 3 - a - b;
            for (int d = 0; d < NDIM; d++) j[d] = 2 * i[d];
            j[b] += u;
            if (NDIM == 3) j[c] += v;
            if (!fb.contains(j)) return own(a, i, k);
            LevScope s;
            setlev(1);
            t = t + own(a, j, k);
            n++;
         }
      return t / double(n);
   }
};
static void put_flux(const Mesh& m, int id, const Composite& C)
{
   VERIF_PATCHES(m, p) {
      auto d = sd(*p, id);
      for (int a = 0; a < NDIM; a++) for (auto& i : pdat::SideGeometry::toSideBox(p->getBox(), a)) for (int k = 0; k < d->getDepth(); k++) d->getArrayData(a)(i, k) = C(a, i, k);
   }
}

CASE(with_orientation)
{
   Mesh m = twolevels();
   QuatModelParameters par;
   bool orient = cfg("orient"), drive = cfg("drive", 1);
   par.d_phase_well_scale = real_pos("well");
   par.d_H_parameter = orient ? real_pos("H") : R(-1.);
   par.d_epsilon_q = real("epsilon_q");
   const char* itype[3] = {"lpq", "qlp", "plq"};
   const char* it = itype[cfg("itype", 0)];
   par.d_energy_interp_func_type = Thermo4PFM::EnergyInterpolationType::PBG;
   par.d_orient_interp_func_type1 = std::string(1, it[1]);
   par.d_orient_interp_func_type2 = std::string(1, it[2]);
   bool noisy = cfg("noise");
   R amp = noisy ? real_pos("amplitude") : R(0.);
   par.d_noise_amplitude = amp;
   par.d_rhs_visit_output = cfg("visit");
   int ng = cfg("ng", 1);
   int phi = cell(m, "phi", ng), T = cell(m, "T", cfg("ngt", 1)), fl = out(m, "f_l"), fa = out(m, "f_a"), mob = cell(m, "mobility", cfg("ngm")), fx = outs(m, "flux", cfg("ngf")), rf = outs(m, "reference flux");
   int og = cell(m, "gradq"), nz = out(m, "noise"), vis = out(m, "visit"), rhs = out(m, "rhs"), ref = out(m, "reference");
   R e = real_pos("epsilon");
   auto fe = std::make_shared<StubFreeEnergy>();
   R last = real("last", 1., 6.);
   PhaseRHSStrategyWithQ s(par, phi, 91, -1, T, -1, fl, fa, 92, mob, fx, og, nz, vis, solver(last), drive ? fe : nullptr, m.geom, std::make_shared<PhaseFluxStrategySimple>(e));
   s.setup(m.h);
   int n0 = boost::verif_rng::count() = 0;
   R t = 8., dt = t - last;
   s.evaluateRHS(7.25, m.h, rhs, cfg("first", 1));
   if (cfg("first", 1)) dt = 7.25 - last;
   if (!cfg("fd")) dt = 8. - last;
   R tag = 0.;
   int drawn = boost::verif_rng::count();
   s.evaluateRHS(8., m.h, rhs, !cfg("fd"));
   if (cfg("again")) {
      drawn = boost::verif_rng::count();
      s.evaluateRHS(8., m.h, rhs, true);
      prove(B(boost::verif_rng::count() == drawn), "noise is drawn once per time");
   } else if (cfg("fd")) prove(B(boost::verif_rng::count() == drawn), "noise is kept in difference quotients");
   else if (noisy) prove(B(boost::verif_rng::count() > drawn), "noise is drawn anew when the time changes");
   Ref F{m, phi}, M{m, mob}, X{m, fx}, NZ{m, nz}, L{m, ref};
   Composite C{m, F, e};
   eqalls(m, fx, C, "flux");
   put_flux(m, rf, C);
   char well = 'd', hh = 'p';
   VERIF_PATCHES(m, p) {
      std::vector<double> dx = spacing(m);
      COMPUTERHSPBG(VERIF_BOX(p->getBox()), dx.data(), 2. * par.d_H_parameter, par.d_epsilon_q, VERIF_SIDES(sd(*p, rf)), 0, cd(*p, T)->getPointer(), cfg("ngt", 1), par.d_phase_well_scale, 0., cd(*p, phi)->getPointer(), ng,
                    nullptr, 0, orient ? cd(*p, og)->getPointer() : nullptr, 0, cd(*p, ref)->getPointer(), 0, &well, &well, &hh, par.d_orient_interp_func_type1.c_str(), par.d_orient_interp_func_type2.c_str(), orient, 0);
   }
   Cell raw = [&](const hier::Index& i, int) { return L(i) + (drive ? StubFreeEnergy::drive(i, 0, real(at("fl", i)), real(at("fa", i)), 0.) : R(0.)); };
   fe->lval(m.patch(), -1, m.domain.lower());
   if (drive) prove(B(fe->seen[0] == T && fe->seen[1] == phi && fe->seen[2] == -1 && fe->seen[3] == 91 && fe->T == T && !fe->gp), "driving force of the current fields");
   if (cfg("visit")) eqall(m, vis, raw, "right-hand side written for output");
   eqall(m, rhs, [&](const hier::Index& i, int) { return M(i) * raw(i, 0) + (noisy ? amp / sqrt(dt) * NZ(i) : R(0.)); }, "rhs");
   if (noisy && !cfg("fd")) {
      // noise vanishes in the pure phases and is bounded by half the barrier shape
      VERIF_PATCHES(m, p) for (auto& i : p->getBox()) { R f = F(i), b = 2. * vabs(f * (1. - f)); prove(le(vabs(NZ(i)), b), at("noise bound", i)); }
   }
   intact(m);
   (void)n0; (void)tag;
}
static void prepare(QuatModelParameters& par)
{
   par.d_phase_well_scale = real_pos("well");
   par.d_gamma = real_pos("gamma");
   par.d_noise_amplitude = 0.;
}
CASE(multi_order)
{
   Mesh m = twolevels();
   QuatModelParameters par;
   prepare(par);
   int n = cfg("n", 2), ng = cfg("ng", 1), phi = cell(m, "phi", ng, n), T = cell(m, "T"), fl = out(m, "f_l"), fa = out(m, "f_a"), fb = out(m, "f_b"), mob = cell(m, "mobility", cfg("ngm")), fx = outs(m, "flux", cfg("ngf"), n);
   int rhs = out(m, "rhs", 0, n);
   R e = real_pos("epsilon");
   bool three = cfg("three"), drive = cfg("drive", 1), wang = cfg("wang");
   if (wang) { par.d_epsilon_phase = real_pos("beta"); par.d_WangSintering_B = real_pos("B"); }
   auto fe = std::make_shared<StubFreeEnergy>();
   int conc = cell(m, "conc", cfg("ngc", 1));
   auto flux = std::make_shared<PhaseFluxStrategySimple>(e);
   std::shared_ptr<PhaseRHSStrategy> s;
   auto d = drive ? fe : nullptr;
   if (wang) s = std::make_shared<SinteringUWangRHSStrategy>(par, phi, conc, T, mob, fx, solver(0.), m.geom, flux);
   else if (three) s = std::make_shared<ThreePhasesRHSStrategy>(par, phi, 91, T, fl, fa, fb, mob, fx, solver(0.), d, m.geom, flux);
   else s = std::make_shared<MultiOrderRHSStrategy>(par, phi, 91, T, fl, fa, fb, mob, fx, solver(0.), d, m.geom, flux);
   s->setup(m.h);
   s->evaluateRHS(8., m.h, rhs, true);
   Ref F{m, phi}, M{m, mob}, Cc{m, conc};
   Composite C{m, F, e};
   eqalls(m, fx, C, "flux");
   int rf = outs(m, "reference flux", 0, n), ref = out(m, "reference", 0, n);
   put_flux(m, rf, C);
   VERIF_PATCHES(m, p) {
      std::vector<double> dx = spacing(m), tmp(p->getBox().size());
      auto S = sd(*p, rf);
      if (wang) COMPUTERHS_WANG_SINTERING(VERIF_BOX(p->getBox()), n, dx.data(), VERIF_SIDES(S), 0, par.d_epsilon_phase, par.d_WangSintering_B, cd(*p, phi)->getPointer(), ng, cd(*p, conc)->getPointer(), cfg("ngc", 1), tmp.data(), cd(*p, ref)->getPointer(), 0);
      else if (three) COMPUTERHSTHREEPHASES(VERIF_BOX(p->getBox()), dx.data(), VERIF_SIDES(S), 0, par.d_phase_well_scale, cd(*p, phi)->getPointer(), ng, cd(*p, ref)->getPointer(), 0);
      else COMPUTERHSMULTIORDER(VERIF_BOX(p->getBox()), n, dx.data(), VERIF_SIDES(S), 0, par.d_gamma, 8. * par.d_phase_well_scale, cd(*p, phi)->getPointer(), ng, tmp.data(), cd(*p, ref)->getPointer(), 0);
   }
   Ref L{m, ref};
   if (drive && !wang) prove(B(fe->seen[0] == T && fe->seen[1] == phi && fe->seen[2] == -1 && fe->seen[3] == 91 && fe->T == T && !fe->gp), "driving force of the current fields");
   eqall(m, rhs, [&](const hier::Index& i, int k) { return M(i) * (L(i, k) + (drive && !wang ? StubFreeEnergy::drive(i, k, real(at("fl", i)), real(at("fa", i)), real(at("fb", i))) : R(0.))); }, "rhs");
   intact(m);
}
CASE(project)
{
   Mesh m = grid(box(1), 2, cfg("lo"));
   QuatModelParameters par;
   prepare(par);
   int n = cfg("n", 2), phi = cell(m, "phi", 1, n), corr = cell(m, "corr", cfg("ngc"), n), err = cell(m, "err", cfg("nge"), n), fx = outs(m, "flux", 0, n);
   int p0 = cell(m, "phi", 1, n), c0 = cell(m, "corr", cfg("ngc"), n), e0 = cell(m, "err", cfg("nge"), n);
   auto flux = std::make_shared<PhaseFluxStrategySimple>(1.);
   std::function<void()> go;
   ThreePhasesRHSStrategy a(par, phi, 91, 92, 93, 94, 95, 96, fx, solver(0.), nullptr, m.geom, flux);
   MultiOrderRHSStrategy b(par, phi, 91, 92, 93, 94, 95, 96, fx, solver(0.), nullptr, m.geom, flux);
   if (cfg("three")) { a.setup(m.h); a.projectPhases(phi, corr, err); } else { b.setup(m.h); b.projectPhases(phi, corr, err); }
   VERIF_PATCHES(m, p) {
#if NDIM == 2
      PROJECTPHI2D(VERIF_BOX(p->getBox()), n, cd(*p, p0)->getPointer(), 1, cd(*p, c0)->getPointer(), cfg("ngc"), cd(*p, e0)->getPointer(), cfg("nge"));
#else
      PROJECTPHI3D(VERIF_BOX(p->getBox()), n, cd(*p, p0)->getPointer(), 1, cd(*p, c0)->getPointer(), cfg("ngc"), cd(*p, e0)->getPointer(), cfg("nge"));
#endif
   }
   Ref P{m, p0}, C{m, c0}, E{m, e0};
   eqall(m, phi, [&](const hier::Index& i, int k) { return P(i, k); }, "phi");
   eqall(m, corr, [&](const hier::Index& i, int k) { return C(i, k); }, "correction");
   eqall(m, err, [&](const hier::Index& i, int k) { return E(i, k); }, "weights");
   intact(m);
}
CASE(moving_frame)
{
   Mesh m = grid(box(cfg("nx", 1)), 2, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2));
   int n = cfg("depth", 1), ng = cfg("ng", 2), phi = cell(m, "phi", ng, n), rhs = cell(m, "rhs", cfg("ngr"), n), ref = cell(m, "rhs", 0, n);
   R v = real("velocity");
   bool up = cfg("upwind");
   MovingFrameRHS s(phi, up);
   s.addRHS(m.h, rhs, v);
   VERIF_PATCHES(m, p) {
      std::vector<double> dx = spacing(m);
      bool last = p->getBox().upper(0) == (lev ? 2 * m.domain.upper(0) + 1 : m.domain.upper(0));
      for (int k = 0; k < n; k++)
         if (up) ADDVDPHIDX_UPWIND3(VERIF_BOX(p->getBox()), dx.data(), cd(*p, phi)->getPointer(k), ng, v, cd(*p, ref)->getPointer(k), 0, last);
         else ADDVDPHIDX(VERIF_BOX(p->getBox()), dx.data(), cd(*p, phi)->getPointer(k), ng, v, cd(*p, ref)->getPointer(k), 0);
   }
   Ref L{m, ref};
   eqall(m, rhs, [&](const hier::Index& i, int k) { return L(i, k); }, "rhs");
   intact(m);
}
CASE(noise)
{
   Mesh m = grid(box(2, 2, 1), 1, cfg("lo"));
   int phi = cell(m, "phi", cfg("ng", 1)), nz = out(m, "noise", cfg("ngn"));
   boost::verif_rng::count() = 0;
   Noise* g = cfg("normal") ? (Noise*)NormalNoise::instance(3) : (Noise*)UniformNoise::instance(3);
   g->setField(*m.level()->begin(), nz, phi);
   Ref F{m, phi}, N{m, nz};
   int k = 0;
   auto d = cd(m.patch(), nz);
   for (auto& i : d->getGhostBox()) {
      std::string name = "noise" + std::to_string(k++);
      R x = cfg("normal") ? real(name) : real(name, -0.5, 0.5);
      eq(N(i), 4. * F(i) * (1. - F(i)) * x, at("noise", i));
   }
   prove(B(boost::verif_rng::count() == k), "one independent draw per cell");
   intact(m);
}
CASE(flux_factory)
{
   Mesh m = grid(box(1));
   QuatModelParameters par;
   int n = cfg("n", 1);
   R e = real_pos("epsilon"), nu = real("nu", 0.001, 0.2);
   bool three = cfg("three"), orient = cfg("orient"), aniso = cfg("aniso"), iso = cfg("iso");
   par.d_norderp = n;
   par.d_with_three_phases = three;
   par.d_H_parameter = orient ? 1. : -1.;
   par.d_epsilon_phase = e;
   par.d_epsilon_anisotropy = aniso ? nu : R(-1.);
   par.d_stencil_type = iso ? "isotropic" : "order2";
   int dep = three ? 3 : n;
   int phi = cell(m, "phi", 1, dep), q = cell(m, "q", 1, NDIM == 2 ? 1 : 4), fx = outs(m, "flux", 0, dep), rf = outs(m, "reference", 0, dep);
   if (aniso && !orient) {
      prove(B(refuses([&] { PhaseFluxStrategyFactory::create(par); })), "anisotropy without orientation is refused");
      return;
   }
   auto s = PhaseFluxStrategyFactory::create(par);
   s->computeFluxes(m.level(), phi, q, fx);
   // several order parameters: every interface carries the gradient of two of them
   R e2 = (dep > 1 && !three) ? e / sqrt(R(2.)) : e;
   if (aniso) PhaseFluxStrategyAnisotropy(e2, nu, 4).computeFluxes(m.level(), phi, q, rf);
   else if (iso) PhaseFluxStrategyIsotropic(e2).computeFluxes(m.level(), phi, q, rf);
   else PhaseFluxStrategySimple(e2).computeFluxes(m.level(), phi, q, rf);
   Ref X{m, rf};
   eqalls(m, fx, [&](int a, const hier::Index& i, int k) { return X(a, i, k); }, "flux");
   if (!aniso && !iso) { Ref F{m, phi}; eqalls(m, fx, [&](int a, const hier::Index& i, int k) { return (dep > 1 && !three ? e * e / 2. : e * e) * dif(F, i, a, k) / m.dx[a]; }, "flux formula"); }
}
