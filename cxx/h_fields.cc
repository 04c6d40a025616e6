// differences, gradients, gradient norms and phase fluxes on the patches of a hierarchy
#include "fixture.h"
#include "QuatFort.h"
#include "HierarchyStencilOps.h"
#include "QuatGradModulusStrategy.h"
#include "PhaseFluxStrategySimple.h"
#include "PhaseFluxStrategyIsotropic.h"
#include "PhaseFluxStrategyAnisotropy.h"
#include "computeQDiffs.h"
using namespace fx;
static R dif(const Ref& f, const hier::Index& i, int a, int k = 0) { return f(i, k) - f(nb(i, a, -1), k); }
// component b of the gradient at the side of direction a below cell i
static R grads(const Mesh& m, const Ref& f, int a, const hier::Index& i, int b, int k = 0)
{
   if (a == b) return dif(f, i, a, k) / m.dx[a];
   hier::Index j = nb(i, a, -1);
   return (f(nb(i, b, 1), k) - f(nb(i, b, -1), k) + f(nb(j, b, 1), k) - f(nb(j, b, -1), k)) / (4. * m.dx[b]);
}
static Mesh makemesh()
{
   if (cfg("small")) return grid(box(1), 1, cfg("lo"));
   Mesh m = grid(box(1, 2), 2, cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(1));
   return m;
}
CASE(stencils)
{
   Mesh m = makemesh();
   HierarchyStencilOps ops;
   int ng = cfg("ng", 2), f = cell(m, "phi", ng), d = outs(m, "diff", cfg("ngd", 1)), gc = out(m, "gc", cfg("ngc"), NDIM), gs = outs(m, "gs", 0, NDIM);
   Ref F{m, f};
   ops.computeDiffs(m.h, f, d);
   ops.computeGradCell(m.h, d, gc);
   ops.computeGradSide(m.h, d, gs);
   eqalls(m, d, [&](int a, const hier::Index& i, int) { return dif(F, i, a); }, "diff");
   eqall(m, gc, [&](const hier::Index& i, int b) { return (F(nb(i, b, 1)) - F(nb(i, b, -1))) / (2. * m.dx[b]); }, "cell gradient");
   eqalls(m, gs, [&](int a, const hier::Index& i, int b) { return grads(m, F, a, i, b); }, "side gradient");
   intact(m);
}
CASE(stencils_level)
{
   Mesh m = makemesh();
   HierarchyStencilOps ops;
   int f = cell(m, "phi", 2), d = outs(m, "diff", 1), gc = out(m, "gc", 0, NDIM);
   Ref F{m, f};
   ops.computeDiffs(m.level(), f, d);
   ops.computeGradCell(m.level(), d, gc);
   eqalls(m, d, [&](int a, const hier::Index& i, int) { return dif(F, i, a); }, "diff");
   eqall(m, gc, [&](const hier::Index& i, int b) { return (F(nb(i, b, 1)) - F(nb(i, b, -1))) / (2. * m.dx[b]); }, "cell gradient");
   intact(m);
}
CASE(modulus)
{
   Mesh m = makemesh();
   int q = cfg("qlen", 1);
   QuatGradModulusStrategy s(q);
   int gc = cell(m, "gc", 0, NDIM * q), gs = side(m, "gs", 0, NDIM * q), mc = out(m, "mc"), ms = out(m, "ms");
   Ref C{m, gc}, S{m, gs};
   if (!cfg("sides")) {
      s.computeQuatGradModulus(m.level(), gc, mc);
      eqall(m, mc, [&](const hier::Index& i, int) { R t = 0.; for (int k = 0; k < NDIM * q; k++) t = t + C(i, k) * C(i, k); return sqrt(t); }, "gradient norm");
   } else {
      s.computeQuatGradModulusFromSides(m.level(), gs, ms);
      // the part of the gradient normal to each side, averaged over the two sides of the cell
      eqall(m, ms, [&](const hier::Index& i, int) {
         R t = 0.;
         for (int a = 0; a < NDIM; a++)
            for (int k = 0; k < q; k++) for (int e = 0; e < 2; e++) { R g = S(a, nb(i, a, e), k + a * q); t = t + g * g; }
         return sqrt(t * 0.5);
      }, "gradient norm from sides");
   }
   intact(m);
}
CASE(flux)
{
   Mesh m = makemesh();
   int n = cfg("depth", 1), ng = cfg("ng", 1), f = cell(m, "phi", ng, n), fl = outs(m, "flux", cfg("ngf"), n);
   R e = real_pos("epsilon");
   Ref F{m, f};
   bool iso = cfg("iso");
   if (iso) PhaseFluxStrategyIsotropic(e).computeFluxes(m.level(), f, -1, fl);
   else PhaseFluxStrategySimple(e).computeFluxes(m.level(), f, -1, fl);
   eqalls(m, fl, [&](int a, const hier::Index& i, int k) {
      R t = dif(F, i, a, k);
      if (iso) { int b = 1 - a; t = (dif(F, nb(i, b, -1), a, k) + 10. * t + dif(F, nb(i, b, 1), a, k)) / 12.; }
      return e * e * t / m.dx[a];
   }, "flux");
   intact(m);
}
CASE(flux_anisotropic)
{
   Mesh m = grid(box(1), cfg("patches", 1), cfg("lo"));
   int n = cfg("depth", 1), ng = cfg("ng", 1), ngq = cfg("ngq", 1), ql = cfg("qlen", NDIM == 2 ? 1 : 4);
   int f = cell(m, "phi", ng, n), qd = cell(m, "q", ngq, ql), fl = outs(m, "flux", cfg("ngf"), n), rf = outs(m, "reference", 0, n);
   R e = real_pos("epsilon"), nu = real("nu", 0., 0.25);
   int kn = 4;
   PhaseFluxStrategyAnisotropy(e, nu, kn).computeFluxes(m.level(), f, qd, fl);
   // the kernel is decided on its own (anisotropic_flux_2d, anisotropic_flux_3d)
   VERIF_PATCHES(m, p) {
      const hier::Index lo = p->getBox().lower(), hi = p->getBox().upper();
      double dx[NDIM];
      for (int a = 0; a < NDIM; a++) dx[a] = m.dx[a];
      for (int k = 0; k < n; k++)
         ANISOTROPIC_GRADIENT_FLUX(lo(0), hi(0), lo(1), hi(1),
#if NDIM == 3
            lo(2), hi(2),
#endif
            dx, e, nu, kn, cd(*p, f)->getPointer(k), ng, cd(*p, qd)->getPointer(), ngq, ql, sd(*p, rf)->getPointer(0, k), sd(*p, rf)->getPointer(1, k),
#if NDIM == 3
            sd(*p, rf)->getPointer(2, k),
#endif
            0);
   }
   Ref X{m, rf};
   eqalls(m, fl, [&](int a, const hier::Index& i, int k) { return X(a, i, k); }, "flux");
   intact(m);
}
CASE(qdiffs)
{
   Mesh m = makemesh();
   int q = cfg("qlen", 1), f = cell(m, "q", 2, q), d = outs(m, "diff", 1, q), gc = out(m, "gc", 0, NDIM * q), gs = outs(m, "gs", 0, NDIM * q);
   Ref F{m, f};
   VERIF_PATCHES(m, p) {
      double dx[NDIM];
      for (int a = 0; a < NDIM; a++) dx[a] = m.dx[a];
      computeQDiffs(cd(*p, f), sd(*p, d), false, nullptr);
      computeQGrad(sd(*p, d), cd(*p, gc), dx, false, nullptr);
      computeQGradSide(sd(*p, d), sd(*p, gs), dx, false, cfg("iso"), nullptr);
   }
   eqalls(m, d, [&](int a, const hier::Index& i, int k) { return dif(F, i, a, k); }, "diff");
   eqall(m, gc, [&](const hier::Index& i, int j) { int b = j / q, k = j % q; return (F(nb(i, b, 1), k) - F(nb(i, b, -1), k)) / (2. * m.dx[b]); }, "cell gradient");
   eqalls(m, gs, [&](int a, const hier::Index& i, int j) {
      int b = j / q, k = j % q;
      if (a == b && cfg("iso") && NDIM == 2) { int t = 1 - a; return (dif(F, nb(i, t, -1), a, k) + 10. * dif(F, i, a, k) + dif(F, nb(i, t, 1), a, k)) / (12. * m.dx[a]); }
      return grads(m, F, a, i, b, k);
   }, "side gradient");
   intact(m);
}
// with symmetry: the differences are those of the kernels (quatdiffs_symm, quatgrad_cell_symm, quatgrad_side_symm, decided on their own)
CASE(qdiffs_symmetric)
{
   Mesh m = grid(box(1), 1, cfg("lo"));
   int q = cfg("qlen", 4), d = side(m, "diff", 1, 2 * q), gc = out(m, "gc", 0, NDIM * q), gs = outs(m, "gs", 0, NDIM * q), rc = out(m, "rc", 0, NDIM * q), rs = outs(m, "rs", 0, NDIM * q);
   hier::Patch& p = m.patch();
   auto rot = std::make_shared<pdat::SideData<int> >(p.getBox(), 1, hier::IntVector(tbox::Dimension(NDIM), 1));
   int n = 0;
   for (int a = 0; a < NDIM; a++) for (auto& i : rot->getArrayData(a).getBox()) rot->getArrayData(a)(i, 0) = 1 + (7 * n++ + cfg("seed")) % (q == 4 ? 24 : 4);
   double dx[NDIM];
   for (int a = 0; a < NDIM; a++) dx[a] = m.dx[a];
   bool iso = cfg("iso");
   computeQGrad(sd(p, d), cd(p, gc), dx, true, rot);
   computeQGradSide(sd(p, d), sd(p, gs), dx, true, iso, rot);
   const hier::Index lo = p.getBox().lower(), hi = p.getBox().upper();
   auto D = sd(p, d), S = sd(p, rs);
   auto C = cd(p, rc);
#if NDIM == 2
   QUATGRAD_CELL_SYMM(lo(0), hi(0), lo(1), hi(1), q, dx, D->getPointer(0), D->getPointer(1), 1, C->getPointer(0), C->getPointer(q), 0, rot->getPointer(0), rot->getPointer(1), 1);
   (iso ? QUATGRAD_SIDE_SYMM_ISOTROPIC : QUATGRAD_SIDE_SYMM)(lo(0), hi(0), lo(1), hi(1), q, dx, D->getPointer(0), D->getPointer(1), 1, S->getPointer(0, 0), S->getPointer(0, q), S->getPointer(1, 0), S->getPointer(1, q), 0, rot->getPointer(0), rot->getPointer(1), 1);
#else
   QUATGRAD_CELL_SYMM(lo(0), hi(0), lo(1), hi(1), lo(2), hi(2), q, dx, D->getPointer(0), D->getPointer(1), D->getPointer(2), 1, C->getPointer(0), C->getPointer(q), C->getPointer(2 * q), 0, rot->getPointer(0), rot->getPointer(1), rot->getPointer(2), 1);
   QUATGRAD_SIDE_SYMM(lo(0), hi(0), lo(1), hi(1), lo(2), hi(2), q, dx, D->getPointer(0), D->getPointer(1), D->getPointer(2), 1, S->getPointer(0, 0), S->getPointer(0, q), S->getPointer(0, 2 * q), S->getPointer(1, 0), S->getPointer(1, q), S->getPointer(1, 2 * q), S->getPointer(2, 0), S->getPointer(2, q), S->getPointer(2, 2 * q), 0, rot->getPointer(0), rot->getPointer(1), rot->getPointer(2), 1);
#endif
   Ref RC{m, rc}, RS{m, rs};
   eqall(m, gc, [&](const hier::Index& i, int k) { return RC(i, k); }, "cell gradient");
   eqalls(m, gs, [&](int a, const hier::Index& i, int k) { return RS(a, i, k); }, "side gradient");
   intact(m);
}
