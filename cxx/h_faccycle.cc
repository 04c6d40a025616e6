// cycles of the FAC solver, with operators that are unknown functions of what they may read
#include "stubs.h"
#include "FACPreconditioner.h"
using namespace fx;
typedef solv::SAMRAIVectorReal<double> Vec;
typedef std::vector<std::vector<R> > Val;      // [component][level], empty below the coarsest level
static int LC, LF, NC;
static R app(const std::string& n, int c, int l, const std::vector<double>& a) { return fn(n + "_" + std::to_string(c) + "_" + std::to_string(l), a); }
// what the operators do to one component
static R A(bool error, int c, int l, const Val& u)
{
   std::vector<double> a;
   for (int k = std::max(LC, l - 1); k <= std::min(LF, l + 1); k++) a.push_back(u[c][k]);
   return app(error ? "Ae" : "Au", c, l, a);
}
static void o_residual(Val& r, const Val& u, const Val& f, int l, bool error) { for (int c = 0; c < NC; c++) r[c][l] = f[c][l] - A(error, c, l, u); }
static void o_smooth(Val& e, const Val& r, int l, int n) { if (n > 0) for (int c = 0; c < NC; c++) e[c][l] = app("S" + std::to_string(n), c, l, {e[c][l], e[c][l - 1], r[c][l]}); }
static void o_solve(Val& e, const Val& r, int l) { for (int c = 0; c < NC; c++) e[c][l] = app("solve", c, l, {e[c][l], r[c][l]}); }
static void o_restrict(const char* n, const Val& s, Val& d, int l) { for (int c = 0; c < NC; c++) d[c][l] = app(n, c, l, {s[c][l + 1], d[c][l]}); }
static void o_prolong(const Val& s, Val& d, int l) { for (int c = 0; c < NC; c++) d[c][l] = d[c][l] + app("P", c, l, {s[c][l - 1]}); }
static R o_norm(const Val& r)
{
   std::vector<double> a;
   for (int c = 0; c < NC; c++) for (int l = LC; l <= LF; l++) a.push_back(r[c][l]);
   R n = fn("norm", a);
   assume(ge(n, R(0.)));
   return n;
}
struct Call { int n; Val u, r; };
static std::vector<Call> cycles;
static int states, freed;
class Ops : public solv::FACOperatorStrategy
{
 public:
   static Val get(const Vec& v)
   {
      Val r(NC, std::vector<R>(LF + 1));
      for (int c = 0; c < NC; c++) for (int l = LC; l <= LF; l++) { auto& p = **v.getPatchHierarchy()->getPatchLevel(l)->begin(); r[c][l] = (*cd(p, v.getComponentDescriptorIndex(c)))(pdat::CellIndex(p.getBox().lower()), 0); }
      return r;
   }
   static void put(const Vec& v, const Val& r, int l) { for (int c = 0; c < NC; c++) { auto& p = **v.getPatchHierarchy()->getPatchLevel(l)->begin(); (*cd(p, v.getComponentDescriptorIndex(c)))(pdat::CellIndex(p.getBox().lower()), 0) = r[c][l]; } }
   static void level(int l, int lo, int hi) { prove(B(l >= lo && l <= hi), "operator asked for on a level that is there"); if (l < lo || l > hi) ::verif_stop("no such level", "fac", 0); }
   void restrictSolution(const Vec& s, Vec& d, int l) { level(l, LC, LF - 1); Val a(get(s)), b(get(d)); o_restrict("Rs", a, b, l); put(d, b, l); }
   void restrictResidual(const Vec& s, Vec& d, int l) { level(l, LC, LF - 1); Val a(get(s)), b(get(d)); o_restrict("Rr", a, b, l); put(d, b, l); }
   void prolongErrorAndCorrect(const Vec& s, Vec& d, int l) { level(l, LC + 1, LF); Val a(get(s)), b(get(d)); o_prolong(a, b, l); put(d, b, l); }
   void smoothError(Vec& e, const Vec& r, int l, int n) { level(l, LC + 1, LF); Val a(get(e)); o_smooth(a, get(r), l, n); put(e, a, l); }
   int solveCoarsestLevel(Vec& e, const Vec& r, int l) { level(l, LC, LC); Val a(get(e)); o_solve(a, get(r), l); put(e, a, l); return 1; }
   void computeCompositeResidualOnLevel(Vec& r, const Vec& u, const Vec& f, int l, bool error) { level(l, LC, LF); Val a(get(r)); o_residual(a, get(u), get(f), l, error); put(r, a, l); }
   double computeResidualNorm(const Vec& r, int fine, int coarse) { prove(B(fine == LF && coarse == LC), "norm over all levels"); return o_norm(get(r)); }
   void initializeOperatorState(const Vec&, const Vec&) { states++; }
   void deallocateOperatorState() { freed++; }
   void postprocessOneCycle(int n, const Vec& u, const Vec& r) { cycles.push_back(Call{n, get(u), get(r)}); }
};
static void same(const Val& a, const Val& b, const std::string& s) { for (int c = 0; c < NC; c++) for (int l = LC; l <= LF; l++) eq(a[c][l], b[c][l], lab(s, "component", c, "level", l)); }
CASE(solve)
{
   Mesh m = grid(box(1));
   for (int l = 1; l < cfg("levels", 2); l++) refine(m, box(1));
   LC = cfg("coarsest");
   LF = m.h->getNumberOfLevels() - 1;
   NC = cfg("components", 1);
   cycles.clear();
   states = freed = 0;
   auto u = std::make_shared<Vec>("u", m.h, LC, LF), f = std::make_shared<Vec>("f", m.h, LC, LF);
   auto vdb = hier::VariableDatabase::getDatabase();
   for (int c = 0; c < NC; c++) {
      int ui = cell(m, lab("u", c), cfg("ng")), fi = cell(m, lab("f", c), 0);
      std::shared_ptr<hier::Variable> a, b;
      vdb->mapIndexToVariable(ui, a);
      vdb->mapIndexToVariable(fi, b);
      u->addComponent(a, ui);
      f->addComponent(b, fi);
   }
   auto db = std::make_shared<tbox::MemoryDatabase>("fac");
   const int nmax = cfg("max", 2), pre = cfg("pre", 1), post = cfg("post", 1);
   R tol = real_pos("tol"), rel = real_pos("rel");
   db->putInteger("max_cycles", nmax);
   db->putDouble("residual_tol", tol);
   if (cfg("relative")) db->putDouble("relative_residual_tol", rel);
   db->putInteger("num_pre_sweeps", pre);
   db->putInteger("num_post_sweeps", post);
   auto ops = std::make_shared<Ops>();
   FACPreconditioner s("fac", ops, db);
   if (cfg("pernice")) s.setAlgorithmChoice("Pernice");
   Val U(Ops::get(*u)), F(Ops::get(*f)), Rr(NC, std::vector<R>(LF + 1)), E;
   for (int call = 0; call < cfg("calls", 1); call++) {
      cycles.clear();
      if (cfg("prepared") && call == 0) { s.initializeSolverState(*u, *f); prove(B(states == 1), "operators prepared once"); }
      const bool ok = s.solveSystem(*u, *f);
      prove(B(states == (cfg("prepared") ? 1 : call + 1)), "operators prepared when they are not yet");
      // the solution method
      auto full = [&]() -> R {
         o_residual(Rr, U, F, LF, false);
         for (int l = LF - 1; l >= LC; l--) {
            o_restrict("Rs", U, U, l);
            o_residual(Rr, U, F, l, false);
            o_restrict("Rr", Rr, Rr, l);
         }
         return o_norm(Rr);
      };
      for (auto& x : Rr) x = std::vector<R>(LF + 1, R(0.));
      R norm = full(), first = norm, limit = tol;
      if (cfg("relative")) limit = vmax(tol, rel * o_norm(F));
      int n = 0;
      R factor;
      do {
         E = Val(NC, std::vector<R>(LF + 1, R(0.)));
         Val T(E);
         for (int l = LF; l > LC; l--) {
            o_smooth(E, Rr, l, pre);
            o_residual(T, E, Rr, l, true);
            for (int c = 0; c < NC; c++) Rr[c][l - 1] = app("Rr", c, l - 1, {T[c][l], Rr[c][l - 1]});
         }
         o_solve(E, Rr, LC);
         for (int l = LC + 1; l <= LF; l++) { o_prolong(E, E, l); o_smooth(E, Rr, l, post); }
         for (int c = 0; c < NC; c++) for (int l = LC; l <= LF; l++) U[c][l] = U[c][l] + E[c][l];
         for (int l = LF - 1; l >= LC; l--) o_restrict("Rs", U, U, l);
         R before = norm;
         norm = full();
         factor = ite(before == 0. , R(0.), norm / before);
         prove(B((int)cycles.size() > n), "end of the cycle reported");
         if ((int)cycles.size() > n) {
            prove(B(cycles[n].n == n), "number of the cycle reported");
            same(cycles[n].u, U, lab("solution after cycle", n));
            same(cycles[n].r, Rr, lab("residual after cycle", n));
         }
         n++;
      } while (norm > limit && n < nmax);
      prove(B(s.getNumberOfIterations() == n), "number of cycles");
      eq(s.getResidualNorm(), norm, "residual norm");
      prove(B(ok == (norm < limit)), "convergence reported");
      same(Ops::get(*u), U, "solution");
      same(Ops::get(*f), F, "right-hand side is kept");
      double avg = 0., last = 0.;
      s.getConvergenceFactors(avg, last);
      eq(last, factor, "last convergence factor");
      eq(s.getFinalConvergenceFactor(), factor, "last convergence factor");
      eq(s.getNetConvergenceFactor(), norm / (first + 1.e-20), "net convergence factor");
      eq(avg, pow(norm / (first + 1.e-20), R(1.) / double(n)), "average convergence factor");
   }
   intact(m);
}
