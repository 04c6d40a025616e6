// the interface to the time integrator: vectors, callbacks, settings
#include "stubs.h"
#include "CVODESolver.h"
#include "Sundials_SAMRAIVector.h"
using namespace fx;
typedef solv::SAMRAIVectorReal<double> Vec;
typedef Sundials_SAMRAIVector SV;
struct Fields {
   Mesh m;
   std::vector<int> ids, depth, w;
   std::shared_ptr<Vec> v;
   Fields(const Mesh& mm, const std::string& n, int ncomp) : m(mm)
   {
      v = std::make_shared<Vec>(n, m.h, 0, m.h->getNumberOfLevels() - 1);
      for (int c = 0; c < ncomp; c++) {
         depth.push_back(c == 1 ? 2 : 1);
         ids.push_back(cell(m, lab(n, c), c == 0 ? 1 : 0, depth[c]));
         w.push_back(cell(m, "volume", 0));
         std::shared_ptr<hier::Variable> a;
         hier::VariableDatabase::getDatabase()->mapIndexToVariable(ids[c], a);
         v->addComponent(a, ids[c], w[c]);
      }
   }
};
#define EACH(f) for (size_t c = 0; c < (f).ids.size(); c++) VERIF_PATCHES((f).m, p) for (auto& i : p->getBox()) for (int k = 0; k < (f).depth[c]; k++)
#define AT(id) (*cd(*p, id))(pdat::CellIndex(i), k)
static R val(const std::shared_ptr<Vec>& v, hier::Patch& p, size_t c, const hier::Index& i, int k) { return (*cd(p, v->getComponentDescriptorIndex(c)))(pdat::CellIndex(i), k); }
CASE(vectors)
{
   Mesh m = grid(box(1), cfg("patches", 1), cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(1));
   const int nc = cfg("components", 2);
   Fields fx_(m, "x", nc), fy(m, "y", nc), fz(m, "z", nc);
   auto x = SV::createSundialsVector(fx_.v), y = SV::createSundialsVector(fy.v), z = SV::createSundialsVector(fz.v);
   N_Vector nx = x->getNVector(), ny = y->getNVector(), nz = z->getNVector();
   auto o = nx->ops;
   R a = real("a"), b = real("b");
   const int op = cfg("op");
   std::vector<R> before, other;
   EACH(fx_) { before.push_back(val(fx_.v, *p, c, i, k)); other.push_back(val(fy.v, *p, c, i, k)); if (op == 2 || op == 6) { assume(!(B(val(fx_.v, *p, c, i, k) == 0.))); assume(!(B(val(fy.v, *p, c, i, k) == 0.))); } }
   auto each = [&](const std::string& n, N_Vector r, const std::function<R(const R&, const R&)>& f) {
      auto rv = SV::getSAMRAIVector(r);
      size_t q = 0;
      EACH(fx_) { eq(val(rv, *p, c, i, k), f(before[q], other[q]), at(n + std::to_string(c), i, k)); q++; }
      if (r != nx) { q = 0; EACH(fx_) { eq(val(fx_.v, *p, c, i, k), before[q], at(n + " keeps x" + std::to_string(c), i, k)); q++; } }
      if (r != ny) { q = 0; EACH(fx_) { eq(val(fy.v, *p, c, i, k), other[q], at(n + " keeps y" + std::to_string(c), i, k)); q++; } }
   };
   auto sum = [&](const std::function<R(const R&, const R&, const R&)>& f) { R s = 0.; size_t q = 0; EACH(fx_) { s = s + f(before[q], other[q], (*cd(*p, fx_.w[c]))(pdat::CellIndex(i), 0)); q++; } return s; };
   auto restore = [&] { size_t q = 0; EACH(fx_) { (*cd(*p, fx_.v->getComponentDescriptorIndex(c)))(pdat::CellIndex(i), k) = before[q]; (*cd(*p, fy.v->getComponentDescriptorIndex(c)))(pdat::CellIndex(i), k) = other[q]; q++; } };
   switch (op) {
      case 0: o->nvlinearsum(a, nx, b, ny, nz); each("a x + b y", nz, [&](const R& u, const R& v) { return a * u + b * v; });
              o->nvconst(a, nz); each("constant", nz, [&](const R&, const R&) { return a; });
              o->nvlinearsum(a, nx, b, ny, ny); each("a x + b y in place", ny, [&](const R& u, const R& v) { return a * u + b * v; }); 
              restore(); o->nvlinearsum(a, nx, b, ny, nx); each("a x + b y in place of x", nx, [&](const R& u, const R& v) { return a * u + b * v; });
              restore(); o->nvlinearsum(a, nx, b, nx, nx); each("(a + b) x in place", nx, [&](const R& u, const R&) { return (a + b) * u; }); break;
      case 1: o->nvprod(nx, ny, nz); each("x y", nz, [&](const R& u, const R& v) { return u * v; });
              o->nvscale(a, nx, nz); each("a x", nz, [&](const R& u, const R&) { return a * u; });
              o->nvaddconst(nx, b, nz); each("x + b", nz, [&](const R& u, const R&) { return u + b; });
              o->nvabs(nx, nz); each("|x|", nz, [&](const R& u, const R&) { return vabs(u); });
              o->nvprod(nx, ny, ny); each("x y in place of y", ny, [&](const R& u, const R& v) { return u * v; });
              restore(); o->nvprod(nx, ny, nx); each("x y in place of x", nx, [&](const R& u, const R& v) { return u * v; });
              restore(); o->nvscale(a, nx, nx); each("a x in place", nx, [&](const R& u, const R&) { return a * u; });
              restore(); o->nvaddconst(nx, b, nx); each("x + b in place", nx, [&](const R& u, const R&) { return u + b; });
              restore(); o->nvabs(nx, nx); each("|x| in place", nx, [&](const R& u, const R&) { return vabs(u); }); break;
      case 2: o->nvdiv(nx, ny, nz); each("x / y", nz, [&](const R& u, const R& v) { return u / v; });
              o->nvinv(nx, nz); each("1 / x", nz, [&](const R& u, const R&) { return 1. / u; });
              o->nvdiv(nx, ny, ny); each("x / y in place of y", ny, [&](const R& u, const R& v) { return u / v; });
              restore(); o->nvdiv(nx, ny, nx); each("x / y in place of x", nx, [&](const R& u, const R& v) { return u / v; });
              restore(); o->nvinv(nx, nx); each("1 / x in place", nx, [&](const R& u, const R&) { return 1. / u; }); break;
      case 3: eq(o->nvdotprod(nx, ny), sum([&](const R& u, const R& v, const R& w) { return u * v * w; }), "dot product");
              eq(o->nvl1norm(nx), sum([&](const R& u, const R&, const R& w) { return vabs(u) * w; }), "norm 1"); break;
      case 4: { R mx = 0., mn = before[0]; for (auto& u : before) { mx = vmax(mx, vabs(u)); mn = vmin(mn, u); } eq(o->nvmaxnorm(nx), mx, "largest absolute value"); for (auto& u : before) assume(le(u, R(1.e300))); eq(o->nvmin(nx), mn, "smallest value"); break; }
      case 5: { R n2 = o->nvwl2norm(nx, ny), s = sum([&](const R& u, const R& v, const R& w) { return u * u * v * v * w; }); (void)s; (void)n2; std::vector<double> q; size_t n = 0; EACH(fx_) { q.push_back(before[n]); q.push_back(other[n]); n++; } eq(o->nvwrmsnorm(nx, ny), fn("weightedRMSNorm", q), "weighted root mean square of x by y"); break; }
      case 6: prove(B(o->nvinvtest(nx, nz) == 1), "every entry has an inverse"); each("1 / x", nz, [&](const R& u, const R&) { return 1. / u; });
              o->nvcompare(a, nx, nz); each("|x| >= a", nz, [&](const R& u, const R&) { return ite(ge(vabs(u), a), R(1.), R(0.)); }); break;
      case 7: {
         N_Vector c1 = o->nvclone(nx);
         auto cv = SV::getSAMRAIVector(c1);
         prove(B(cv != fx_.v && cv->getNumberOfComponents() == nc), "clone has its own data and as many components");
         for (int c = 0; c < nc; c++) prove(B(cv->getComponentDescriptorIndex(c) != fx_.ids[c]), "clone has its own data");
         o->nvscale(R(2.), nx, c1);
         each("clone", c1, [&](const R& u, const R&) { return 2. * u; });
         o->nvdestroy(c1);
         each("x after the clone is gone", nx, [&](const R& u, const R&) { return u; });
         int n = 0;
         EACH(fx_) n++;
         prove(B(o->nvgetlength(nx) == n), "length");
      }
   }
   intact(m);
}
// callbacks
struct Fn : public CVODEAbstractFunctions {
   std::string what; std::vector<void*> p; std::vector<R> r; std::vector<int> n;
   void set(const std::string& w, std::vector<void*> pp, std::vector<R> rr, std::vector<int> nn = {}) { what = w; p = pp; r = rr; n = nn; }
   int evaluateRHSFunction(double t, SundialsAbstractVector* y, SundialsAbstractVector* d) { set("rhs", {y, d}, {t}); return 11; }
   int CVSpgmrPrecondSet(double t, SundialsAbstractVector* y, SundialsAbstractVector* f, int jok, int* j, double g) { set("set", {y, f, j}, {t, g}, {jok}); *j = 5; return 12; }
   int CVSpgmrPrecondSolve(double t, SundialsAbstractVector* y, SundialsAbstractVector* f, SundialsAbstractVector* r_, SundialsAbstractVector* z, double g, double d, int lr) { set("solve", {y, f, r_, z}, {t, g, d}, {lr}); return 13; }
   int applyProjection(double t, SundialsAbstractVector* y, SundialsAbstractVector* c, double e, SundialsAbstractVector* err) { set("project", {y, c, err}, {t, e}); return 14; }
   int evaluateJTimesRHSFunction(double t, SundialsAbstractVector* y, SundialsAbstractVector* d) { set("jtimes", {y, d}, {t}); return 15; }
   void check(int rc, int want, const std::string& w, std::vector<void*> pp, std::vector<R> rr, std::vector<int> nn = {})
   {
      prove(B(rc == want && what == w && p == pp && n == nn), w + ": handed to the functions of the program");
      for (size_t i = 0; i < rr.size(); i++) eq(i < r.size() ? r[i] : R(0.), rr[i], w + " argument " + std::to_string(i));
   }
};
CASE(integrator)
{
   Mesh m = grid(box(1));
   Fields a(m, "y", 1), b(m, "b", 1), c_(m, "c", 1), d_(m, "d", 1);
   auto y = SV::createSundialsVector(a.v), y2 = SV::createSundialsVector(b.v), y3 = SV::createSundialsVector(c_.v), y4 = SV::createSundialsVector(d_.v);
   Fn f, g;
   const bool pre = cfg("pre"), proj = cfg("proj"), jt = cfg("jtimes");
   CVODESolver s("ode", cfg("change") ? &g : &f, cfg("change") ? !pre : pre);
   if (cfg("change")) s.setCVODEFunctions(&f, pre);
   s.setLogFileData("/dev/null");
   R rt = real("rtol", 1.e-8, 1.), at_ = real("atol", 1.e-8, 1.), t0 = real("t0"), tf = real("tf"), h0 = real_pos("h0"), hm = real_pos("hmax"), hn = real_pos("hmin");
   const bool full = cfg("full");
   s.setMaxPrecondSteps(7);
   s.setLinearMultistepMethod(cfg("adams") ? CV_ADAMS : CV_BDF);
   s.setSteppingMethod(cfg("one") ? CV_ONE_STEP : CV_NORMAL);
   s.setRelativeTolerance(rt);
   s.setAbsoluteTolerance(at_);
   s.setInitialValueOfIndependentVariable(t0);
   assume(gt(tf, t0));
   s.setFinalValueOfIndependentVariable(tf, true);
   if (full) {
      s.setInitialStepSize(h0);
      s.setMaximumAbsoluteStepSize(hm);
      s.setMinimumAbsoluteStepSize(hn);
      s.setMaximumLinearMultistepMethodOrder(3);
      s.setMaximumNumberOfInternalSteps(40);
      s.setMaximumNumberOfNilStepWarnings(6);
      s.setMaxKrylovDimension(9);
   }
   if (pre) s.setPreconditioningType(PREC_LEFT);
   s.setProjectionFunction(proj);
   s.setJTimesRhsFunction(jt);
   s.setInitialConditionVector(y);
   s.initialize(y);
   auto told = [&](CVodeModel* k, const R& from, const std::string& w) {
      prove(B(k && k->init && k->user == &s && k->attached), w + ": set up");
      prove(B(k->lmm == (cfg("adams") ? CV_ADAMS : CV_BDF) && k->y0 == y->getNVector() && k->like == y->getNVector()), w + ": method and vectors");
      prove(B(k->lsetup == 7 && k->prec == (pre ? PREC_LEFT : PREC_NONE) && k->maxl == (full ? 9 : 0)), w + ": linear solver");
      prove(B(k->ord == (full ? 3 : -1) && k->steps == (full ? 40 : -1) && k->hnil == (full ? 6 : -1)), w + ": limits");
      prove(B(k->has_init == full && k->has_max == full && k->has_min == full), w + ": step sizes only when given");
      prove(B(!!k->pset == pre && !!k->psolve == pre && !!k->proj == proj && !!k->jtimes == jt), w + ": callbacks");
      eq(k->t0, from, w + ": start");
      eq(k->rtol, rt, w + ": relative tolerance");
      eq(k->atol, at_, w + ": absolute tolerance");
      if (full) { eq(k->hinit, h0, w + ": first step"); eq(k->hmax, hm, w + ": largest step"); eq(k->hmin, hn, w + ": smallest step"); }
   };
   CVodeModel* first = cvode_now();
   told(first, t0, "initialize");
   prove(B(s.solve() == 0), "result of the step");
   prove(B(cvode_now() == first), "state kept for the step");
   prove(B(first->y == y->getNVector() && first->itask == (cfg("one") ? CV_ONE_STEP : CV_NORMAL)), "solution and mode of the step");
   eq(first->tout, tf, "end time");
   eq(s.getActualFinalValueOfIndependentVariable(), real("time reached"), "time reached");
   R t = real("t"), gm = real("gamma"), dl = real("delta");
   N_Vector n1 = y->getNVector(), n2 = y2->getNVector(), n3 = y3->getNVector(), n4 = y4->getNVector();
   f.check(first->rhs(t, n1, n2, first->user), 11, "rhs", {y, y2}, {t});
   if (pre) {
      int j = 0;
      f.check(first->pset(t, n1, n2, 1, &j, gm, first->user), 12, "set", {y, y2, &j}, {t, gm}, {1});
      prove(B(j == 5), "state of the preconditioner reported");
      f.check(first->psolve(t, n1, n2, n3, n4, gm, dl, 2, first->user), 13, "solve", {y, y2, y3, y4}, {t, gm, dl}, {2});
   }
   if (proj) f.check(first->proj(t, n1, n2, gm, n3, first->user), 14, "project", {y, y2, y3}, {t, gm});
   if (jt) f.check(first->jtimes(t, n1, n2, first->user), 15, "jtimes", {y, y2}, {t});
   prove(B(s.getNumberOfInternalStepsTaken() == 101 && s.getNumberOfRHSFunctionCalls() == 102 && s.getNumberOfLinearSolverSetupCalls() == 103 && s.getNumberOfNewtonIterations() == 104), "statistics");
   prove(B(s.getNumberOfNonlinearConvergenceFailures() == 105 && s.getNumberOfLocalErrorTestFailures() == 106 && s.getOrderUsedDuringLastInternalStep() == 107 && s.getOrderToBeUsedDuringNextInternalStep() == 108), "statistics");
   prove(B(s.getNumberOfPreconditionerEvaluations() == 109 && s.getNumberOfLinearIterations() == 110 && s.getNumberOfPrecondSolveCalls() == 111 && s.getNumberOfLinearConvergenceFailures() == 112), "statistics of the linear solver");
   eq(s.getStepSizeForLastInternalStep(), real("last step"), "last step");
   eq(s.getStepSizeForNextInternalStep(), real("current step"), "next step");
   eq(s.getCurrentInternalValueOfIndependentVariable(), real("current time"), "current time");
   prove(B(s.getSolutionVector() == y), "solution vector");
   // a change of the settings starts the integrator again
   R t1 = real("t1");
   assume(gt(tf, t1));
   s.setInitialValueOfIndependentVariable(t1);
   s.solve();
   prove(B(cvode_now() != first && first->freed), "started again after a change");
   told(cvode_now(), t1, "again");
   CVodeModel* second = cvode_now();
   R tg = real("tg");
   assume(gt(tg, t1));
   s.setFinalValueOfIndependentVariable(tg, false);
   s.solve();
   prove(B(cvode_now() == second), "a further end time alone goes on with the state");
   eq(second->tout, tg, "further end time");
}
