// linear systems handed to HYPRE
#include "robin.h"
#include "hypre_impl.h"
#include "CellPoissonHypreSolver.h"
#include "QuatLevelSolver.h"
using namespace fx;
// SAMRAI's kernels
static int bx(const int* lo, const int* hi, int a) { return hi[a] - lo[a] + 1; }
struct V {      // box of values in Fortran order
   double* p;
   int lo[3], n[3];
   V(double* q, const int* l, const int* h, int grow = -1) : p(q) { for (int a = 0; a < 3; a++) { lo[a] = a < NDIM ? l[a] : 0; n[a] = (a < NDIM ? bx(l, h, a) : 1) + (a == grow); } }
   double& operator()(const hier::Index& i) const { size_t o = 0; for (int a = NDIM - 1; a >= 0; a--) { if (i[a] < lo[a] || i[a] >= lo[a] + n[a]) ::verif_stop("kernel: index out of the box", "levelsolver", 0); o = o * n[a] + (i[a] - lo[a]); } return p[o]; }
};
static hier::Box bxs(const int* lo, const int* hi) { hier::Index l(tbox::Dimension(NDIM), 0), h(l); for (int a = 0; a < NDIM; a++) { l[a] = lo[a]; h[a] = hi[a]; } return hier::Box(l, h); }
static void diagonal(double* d, const std::function<R(const hier::Index&)>& c, double* const* off, const int* lo, const int* hi, R cs, R ds)
{
   V D(d, lo, hi);
   for (auto& i : bxs(lo, hi)) {
      R s = 0.;
      for (int a = 0; a < NDIM; a++) { V o(off[a], lo, hi, a); s = s + o(i) + o(nb(i, a, 1)); }
      D(i) = cs * c(i) - ds * s;
   }
}
static void bdry(double* d, double* const* off, const int* lo, const int* hi, const double* A, const double* Bc_, const int* al, const int* ah, double* k0, const int* kl, const int* kh, const int* lower, const int* upper, int loc, const double* h)
{
   const int ax = loc / 2;
   V D(d, lo, hi), O(off[ax], lo, hi, ax), a(const_cast<double*>(A), al, ah), b(const_cast<double*>(Bc_), al, ah), K(k0, kl, kh);
   for (auto& g : bxs(lower, upper)) {
      hier::Index in(g), f(g);
      if (loc % 2 == 0) { in[ax] += 1; f[ax] += 1; } else in[ax] -= 1;
      R den = b(f) + 0.5 * h[ax] * a(f);
      D(in) = D(in) + (b(f) - 0.5 * h[ax] * a(f)) / den * O(f);
      K(f) = -h[ax] / den * O(f);
   }
}
static void rhs(double* r, const int* rl, const int* rh, double* k0, const int* kl, const int* kh, const double* g, const int* gl, const int* gh, const int* lower, const int* upper, int loc)
{
   const int ax = loc / 2;
   V F(r, rl, rh), K(k0, kl, kh), G(const_cast<double*>(g), gl, gh);
   for (auto& o : bxs(lower, upper)) {
      hier::Index in(o), f(o);
      if (loc % 2 == 0) { in[ax] += 1; f[ax] += 1; } else in[ax] -= 1;
      F(in) = F(in) + K(f) * G(f);
   }
}
typedef double* D_;
typedef const double* C_;
typedef const int* I_;
#define LH2 int lo[2] = {*il, *jl}, hi[2] = {*ih, *jh}; D_ o[2] = {const_cast<D_>(ox), const_cast<D_>(oy)}
#define LH3 int lo[3] = {*il, *jl, *kl}, hi[3] = {*ih, *jh, *kh}; D_ o[3] = {const_cast<D_>(ox), const_cast<D_>(oy), const_cast<D_>(oz)}
extern "C" {
#if NDIM == 2
void compdiagvariablec2d_(D_ d, C_ c, C_ ox, C_ oy, I_ il, I_ ih, I_ jl, I_ jh, C_ cs, C_ ds) { LH2; V v(const_cast<D_>(c), lo, hi); diagonal(d, [&](const hier::Index& i) { return v(i); }, o, lo, hi, *cs, *ds); }
void compdiagscalarc2d_(D_ d, C_ c, C_ ox, C_ oy, I_ il, I_ ih, I_ jl, I_ jh, C_ cs, C_ ds) { LH2; R v = *c; diagonal(d, [&](const hier::Index&) { return v; }, o, lo, hi, *cs, *ds); }
void compdiagzeroc2d_(D_ d, C_ ox, C_ oy, I_ il, I_ ih, I_ jl, I_ jh, C_ cs, C_ ds) { LH2; diagonal(d, [&](const hier::Index&) { return R(0.); }, o, lo, hi, *cs, *ds); }
void adjbdry2d_(D_ d, C_ ox, C_ oy, I_ il, I_ ih, I_ jl, I_ jh, C_ A, C_ B_, I_ a0, I_ a1, I_ a2, I_ a3, D_ k, I_ k0, I_ k1, I_ k2, I_ k3, I_ lower, I_ upper, I_ loc, C_ h)
{ LH2; int al[2] = {*a0, *a2}, ah[2] = {*a1, *a3}, kl[2] = {*k0, *k2}, kh[2] = {*k1, *k3}; bdry(d, o, lo, hi, A, B_, al, ah, k, kl, kh, lower, upper, *loc, h); }
void adjustrhs2d_(D_ r, I_ r0, I_ r1, I_ r2, I_ r3, D_ k, I_ k0, I_ k1, I_ k2, I_ k3, C_ g, I_ a0, I_ a1, I_ a2, I_ a3, I_ lower, I_ upper, I_ loc)
{ int rl[2] = {*r0, *r2}, rh[2] = {*r1, *r3}, al[2] = {*a0, *a2}, ah[2] = {*a1, *a3}, kl[2] = {*k0, *k2}, kh[2] = {*k1, *k3}; rhs(r, rl, rh, k, kl, kh, g, al, ah, lower, upper, *loc); }
#else
void compdiagvariablec3d_(D_ d, C_ c, C_ ox, C_ oy, C_ oz, I_ il, I_ ih, I_ jl, I_ jh, I_ kl, I_ kh, C_ cs, C_ ds) { LH3; V v(const_cast<D_>(c), lo, hi); diagonal(d, [&](const hier::Index& i) { return v(i); }, o, lo, hi, *cs, *ds); }
void compdiagscalarc3d_(D_ d, C_ c, C_ ox, C_ oy, C_ oz, I_ il, I_ ih, I_ jl, I_ jh, I_ kl, I_ kh, C_ cs, C_ ds) { LH3; R v = *c; diagonal(d, [&](const hier::Index&) { return v; }, o, lo, hi, *cs, *ds); }
void compdiagzeroc3d_(D_ d, C_ ox, C_ oy, C_ oz, I_ il, I_ ih, I_ jl, I_ jh, I_ kl, I_ kh, C_ cs, C_ ds) { LH3; diagonal(d, [&](const hier::Index&) { return R(0.); }, o, lo, hi, *cs, *ds); }
void adjbdry3d_(D_ d, C_ ox, C_ oy, C_ oz, I_ il, I_ ih, I_ jl, I_ jh, I_ kl, I_ kh, C_ A, C_ B_, I_ a0, I_ a1, I_ a2, I_ a3, I_ a4, I_ a5, D_ k, I_ k0, I_ k1, I_ k2, I_ k3, I_ k4, I_ k5, I_ lower, I_ upper, I_ loc, C_ h)
{ LH3; int al[3] = {*a0, *a2, *a4}, ah[3] = {*a1, *a3, *a5}, ql[3] = {*k0, *k2, *k4}, qh[3] = {*k1, *k3, *k5}; bdry(d, o, lo, hi, A, B_, al, ah, k, ql, qh, lower, upper, *loc, h); }
void adjustrhs3d_(D_ r, I_ r0, I_ r1, I_ r2, I_ r3, I_ r4, I_ r5, D_ k, I_ k0, I_ k1, I_ k2, I_ k3, I_ k4, I_ k5, C_ g, I_ a0, I_ a1, I_ a2, I_ a3, I_ a4, I_ a5, I_ lower, I_ upper, I_ loc)
{ int rl[3] = {*r0, *r2, *r4}, rh[3] = {*r1, *r3, *r5}, al[3] = {*a0, *a2, *a4}, ah[3] = {*a1, *a3, *a5}, kl[3] = {*k0, *k2, *k4}, kh[3] = {*k1, *k3, *k5}; rhs(r, rl, rh, k, kl, kh, g, al, ah, lower, upper, *loc); }
#endif
}
static Mesh domain()
{
   Mesh m = grid(box(cfg("nx", 2), cfg("ny", 2), cfg("nz", 2)), cfg("patches", 1), cfg("lo"));
   if (cfg("level")) refine(m, box(2, 2, 2));
   hyp::systems().clear();
   return m;
}
static hier::Box cells(const Mesh& m) { hier::Box b(tbox::Dimension(NDIM)); for (auto& p : *m.level(lev)) b = b + p->getBox(); return b; }
// a field whose ghost cells outside of the domain continue it evenly
static int even(const Mesh& m, const char* n, R lo, R hi, const std::function<R(R)>& f = [](R x) { return x; })
{
   int id = cell(m, "mirrored", 1);
   std::string s(n);
   fill(m, id, [&m, s, lo, hi, f](const hier::Index& i, int) { hier::Index j(i); hier::Box d(dom(m)); for (int a = 0; a < NDIM; a++) j[a] = std::min(std::max(j[a], d.lower(a)), d.upper(a)); return f(real(at(s, j), lo, hi)); });
   return id;
}
// discrete div(D grad u) on a level with the boundary conditions; ghost: values across the coarse-fine boundary
static R divergence(const Mesh& m, const hier::Index& i, const std::function<R(const hier::Index&)>& u, const std::function<R(int, const hier::Index&)>& D, bool homogeneous, bool quat, const Ref& ghost, int k, const std::function<R(const hier::Index&)>& scale = nullptr)
{
   R r = 0.;
   for (int a = 0; a < NDIM; a++) for (int s = 0; s < 2; s++) {
      hier::Index n(nb(i, a, s ? 1 : -1)), f(s ? n : i);
      R o;
      if (cells(m).contains(n)) o = u(n);
      else if (dom(m).contains(n)) o = homogeneous ? R(0.) : ghost(n, k) * (scale ? scale(n) : R(1.));
      else {
         R al = Bc::coef("bca", 2 * a + s, f), be = quat ? 1. - al : Bc::coef("bcb", 2 * a + s, f);
         o = u(i) * (be - 0.5 * m.dx[a] * al);
         if (!homogeneous) o = o + m.dx[a] * Bc::coef("bcg", 2 * a + s, f) * (scale ? scale(i) : R(1.));
         o = o / (be + 0.5 * m.dx[a] * al);
      }
      r = r + D(a, f) * (o - u(i)) / (m.dx[a] * m.dx[a]);
   }
   return r;
}
static std::shared_ptr<tbox::Database> db()
{
   auto d = std::make_shared<tbox::MemoryDatabase>("solver");
   if (cfg("smg")) d->putBool("use_smg", true);
   if (cfg("solver")) d->putInteger("solver_id", cfg("solver"));
   return d;
}
CASE(poisson)      // C u + M div(D grad u) = f
{
   Mesh m = domain();
   const int ln = cfg("level"), depth = cfg("depth", 1), k = cfg("k");
   const bool hom = cfg("homogeneous", 1);
   int u = cell(m, "u", 1, depth), f = cell(m, "f", 0, depth), U0 = cell(m, "u", 1, depth);      // the solve may leave anything in ghost cells
   Bc bc;
   CellPoissonHypreSolver s("solver", db());
   PoissonSpecifications spec("spec");
   std::function<R(const hier::Index&)> M, C;
   std::function<R(int, const hier::Index&)> D;
   R tol = real("tolerance", R(0.), R(1.));
   LevScope sc;
   setlev(ln);
   Ref U{m, U0}, F{m, f};
   std::function<R(const hier::Index&)> sq = [](const hier::Index&) { return R(1.); };
   if (cfg("mvar")) {
      int id = even(m, "M", R(0.1), R(2.));
      M = [](const hier::Index& i) { return real(at("M", i), R(0.1), R(2.)); };
      sq = [&](const hier::Index& i) { return sqrt(M(i)); };
      spec.setMPatchDataId(id);
   } else { R v = real("M", R(0.1), R(2.)); spec.setMConstant(v); M = [v](const hier::Index&) { return v; }; }
   if (cfg("cvar") == 1) { int id = cell(m, "C", 0); spec.setCPatchDataId(id); C = [&m, id](const hier::Index& i) { return Ref{m, id}(i); }; }
   else if (cfg("cvar") == 2) { spec.setCZero(); C = [](const hier::Index&) { return R(0.); }; }
   else { R v = real("C"); assume(lt(v, 0.) || gt(v, 0.)); spec.setCConstant(v); C = [v](const hier::Index&) { return v; }; }
   if (cfg("dvar")) { int id = side(m, "D", cfg("ngd")); spec.setDPatchDataId(id); D = [&m, id](int a, const hier::Index& i) { return Ref{m, id}(a, i, 0); }; }
   else { R v = real("D"); spec.setDConstant(v); D = [v](int, const hier::Index&) { return v; }; }
   s.initializeSolverState(m.h, ln);
   s.setPhysicalBcCoefObject(&bc);
   for (int n = 0; n < cfg("times", 1); n++) {
      s.setMatrixCoefficients(spec);
      s.setSolnIdDepth(k);
      s.setRhsIdDepth(k);
      s.setStoppingCriteria(tol);
   }
   setlev(0);
   int ret = s.solveSystem(u, f, hom, cfg("zero", 1));
   setlev(ln);
   prove(B(hyp::systems().size() == 1), "one system solved");
   auto& y = hyp::systems()[0];
   if (!cfg("norm")) prove(B(ret != 0), "converged");
   else prove(ret != 0 ? le(real("hypre residual norm1", R(0.), R(1.)), tol) : gt(real("hypre residual norm1", R(0.), R(1.)), tol), "returns whether the residual is below the tolerance");
   auto x = [&](const hier::Index& i) { return y.x.v.at(hyp::ix(i)) * sq(i); };
   for (auto& i : cells(m)) {
      prove(B(y.A.e.count(hyp::ix(i)) > 0), at("row set", i));
      R eqn = C(i) * x(i) + M(i) * divergence(m, i, x, D, hom, false, U, k) - F(i, k);
      eq(hyp::row(y, hyp::ix(i)) * sq(i), eqn, at("equation", i));
   }
   eqall(m, u, [&](const hier::Index& i, int d) { return lev == ln && d == k ? x(i) : Ref{m, U0}(i, d); }, "solution");
   intact(m);
}
CASE(quaternion)      // v + gamma sqrt(M) div(D grad sqrt(M) v) = f
{
   Mesh m = domain();
   const int ln = cfg("level"), depth = cfg("depth", 2);
   const bool hom = cfg("homogeneous");
   int u = cell(m, "u", 1, depth), f = cell(m, "f", cfg("ngf"), depth), D = side(m, "D", 0, 1);
   Bc bc;
   QuatLevelSolver s(depth, "solver", db());
   R g = real("gamma"), tol = real("tolerance", R(0.), R(1.));
   LevScope sc;
   setlev(ln);
   int sm = even(m, "sqrtM", R(0.1), R(2.));
   auto sq = [](const hier::Index& i) { return real(at("sqrtM", i), R(0.1), R(2.)); };
   Ref U{m, u}, F{m, f}, Df{m, D};
   s.initializeSolverState(m.h, ln);
   s.setPhysicalBcCoefObject(&bc);
   for (int n = 0; n < cfg("times", 1); n++) s.setMatrixCoefficients(g, sm, D);
   s.setStoppingCriteria(7, tol);
   setlev(0);
   int ret = s.solveSystem(f, u, hom);
   setlev(ln);
   prove(B(int(hyp::systems().size()) == depth), "one system solved for each component");
   B ok(true);
   for (int k = 0; k < depth; k++) ok = ok && le(cfg("norm") ? real("hypre residual norm" + std::to_string(k + 1), R(0.), R(1.)) : R(0.), tol);
   prove(ret != 0 ? ok : !ok, "returns whether all residuals are below the tolerance");
   for (int k = 0; k < depth; k++) {
      auto& y = hyp::systems()[k];
      auto x = [&](const hier::Index& i) { return y.x.v.at(hyp::ix(i)); };
      auto w = [&](const hier::Index& i) { return x(i) * sq(i); };
      for (auto& i : cells(m)) {
         eq(y.x0.v.at(hyp::ix(i)), real(at("u", i, depth > 1 ? k : -1)), at("initial guess", i, k));
         R eqn = x(i) + g * sq(i) * divergence(m, i, w, [&](int a, const hier::Index& q) { return Df(a, q, 0); }, hom, true, U, k, sq) - F(i, k);
         eq(hyp::row(y, hyp::ix(i)), eqn, at("equation", i, k));
      }
   }
   int U0 = cell(m, "u", 0, depth);
   eqall(m, u, [&](const hier::Index& i, int d) { return lev == ln ? hyp::systems()[d].x.v.at(hyp::ix(i)) : Ref{m, U0}(i, d); }, "solution");
   intact(m);
}
