// Meshes and fields for the harnesses: one level, patches side by side along x, values of the fields named after the global
// cell (side) so that overlapping ghost cells of two patches hold the same value, as after a ghost fill.
#ifndef VERIF_FIXTURE_H
#define VERIF_FIXTURE_H
#include "samrai.h"
#include "verif.h"
namespace fx {
using namespace SAMRAI;
using namespace verif;
typedef pdat::CellData<double> CD;
typedef pdat::SideData<double> SD;
static int lev = 0;      // level of the patch looked at (set by VERIF_PATCHES)
inline std::string at(const std::string& n, const hier::Index& i, int d = -1)
{
   std::string s = n + (lev ? "@" + std::to_string(lev) : "") + "[" + std::to_string(i[0]) + "," + std::to_string(i[1]);
#if NDIM == 3
   s += "," + std::to_string(i[2]);
#endif
   return s + (d >= 0 ? ";" + std::to_string(d) : "") + "]";
}
struct Spacing {
   std::vector<double> v;
   double operator[](int a) const { double x = v[a]; for (int l = 0; l < lev; l++) x = x * 0.5; return x; }
};
struct Mesh {
   std::shared_ptr<geom::CartesianGridGeometry> geom;
   std::shared_ptr<hier::PatchHierarchy> h;
   Spacing dx;
   hier::Box domain{tbox::Dimension(NDIM)};
   std::shared_ptr<hier::PatchLevel> level(int l = 0) const { return h->getPatchLevel(l); }
   hier::Patch& patch(int p = 0, int l = 0) const { return *level(l)->getPatch(p); }
};
typedef std::function<R(const hier::Index&, int)> Cell;
typedef std::function<R(int, const hier::Index&, int)> Side;
// n cells along each axis from index lo; npatch patches of that size along x
inline Mesh grid(std::vector<int> n, int npatch = 1, int lo = 0)
{
   hier::VariableDatabase::reset();
   Mesh m;
   std::vector<double> dx, xl, xu;
   for (int a = 0; a < NDIM; a++) {
      dx.push_back(real("h" + std::to_string(a), 0.05, 2.));
      xl.push_back(real("xlo" + std::to_string(a), -3., 3.));
      xu.push_back(xl[a] + dx[a] * double(n[a] * (a == 0 ? npatch : 1)));
   }
   m.dx.v = dx;
   lev = 0;
   m.geom = std::make_shared<geom::CartesianGridGeometry>(dx, xl, xu);
   m.h = std::make_shared<hier::PatchHierarchy>("hierarchy", m.geom);
   auto l = std::make_shared<hier::PatchLevel>(0, hier::IntVector(tbox::Dimension(NDIM), 1), m.geom);
   for (int p = 0; p < npatch; p++) {
      hier::Index a(tbox::Dimension(NDIM), lo), b(tbox::Dimension(NDIM), lo);
      for (int d = 0; d < NDIM; d++) b[d] = lo + n[d] - 1;
      a[0] = lo + p * n[0];
      b[0] = a[0] + n[0] - 1;
      auto pt = std::make_shared<hier::Patch>(hier::Box(a, b), p, 0);
      std::vector<double> pl(xl), pu(xu);
      pl[0] = xl[0] + dx[0] * double(p * n[0]);
      pu[0] = xl[0] + dx[0] * double((p + 1) * n[0]);
      auto g = std::make_shared<geom::CartesianPatchGeometry>(dx, pl, pu);
      for (int d = 0; d < NDIM; d++) { g->touch[d][0] = d > 0 || p == 0; g->touch[d][1] = d > 0 || p == npatch - 1; }
      for (int d = 0; d < NDIM; d++)
         for (int s = 0; s < 2; s++) {
            if (!g->touch[d][s]) continue;
            hier::Box bb(pt->getBox());
            if (s == 0) { bb.setUpper(d, bb.lower(d) - 1); bb.setLower(d, bb.upper(d)); } else { bb.setLower(d, bb.upper(d) + 1); bb.setUpper(d, bb.lower(d)); }
            g->bdry[0].push_back(hier::BoundaryBox(bb, 1, 2 * d + s));
         }
      pt->setPatchGeometry(g);
      l->add(pt);
      m.domain = m.domain + pt->getBox();
   }
   l->domain.push_back(m.domain);
   m.geom->domain.push_back(m.domain);
   m.h->add(l);
   return m;
}
// a further level, cells half as wide, made of one patch of n cells per axis over the lower corner of the domain (call before
// any data is allocated)
inline void refine(Mesh& m, std::vector<int> n)
{
   const int ln = m.h->getNumberOfLevels(), f = 1 << ln;
   hier::IntVector two(tbox::Dimension(NDIM), f);
   auto l = std::make_shared<hier::PatchLevel>(ln, hier::IntVector(tbox::Dimension(NDIM), 2), m.geom);
   l->setRatioToLevelZero(two);
   hier::Index a(m.domain.lower()), b(a);
   std::vector<double> dx, xl, xu;
   for (int d = 0; d < NDIM; d++) {
      a[d] = f * m.domain.lower(d);
      b[d] = a[d] + n[d] - 1;
      dx.push_back(m.dx.v[d] * (1. / f));
      xl.push_back(m.geom->getXLower()[d]);
      xu.push_back(xl[d] + dx[d] * double(n[d]));
   }
   auto pt = std::make_shared<hier::Patch>(hier::Box(a, b), 0, ln);
   auto g = std::make_shared<geom::CartesianPatchGeometry>(dx, xl, xu);
   g->ratio = two;
   for (int d = 0; d < NDIM; d++) { g->touch[d][0] = true; g->touch[d][1] = b[d] == f * (m.domain.upper(d) + 1) - 1; }
   for (int d = 0; d < NDIM; d++)
      for (int s = 0; s < 2; s++) {
         if (!g->touch[d][s]) continue;
         hier::Box bb(pt->getBox());
         if (s == 0) { bb.setUpper(d, bb.lower(d) - 1); bb.setLower(d, bb.upper(d)); } else { bb.setLower(d, bb.upper(d) + 1); bb.setUpper(d, bb.lower(d)); }
         g->bdry[0].push_back(hier::BoundaryBox(bb, 1, 2 * d + s));
      }
   pt->setPatchGeometry(g);
   l->add(pt);
   hier::Index da(m.domain.lower()), db(m.domain.upper());
   for (int d = 0; d < NDIM; d++) { da[d] = f * da[d]; db[d] = f * db[d] + f - 1; }
   l->domain.push_back(hier::Box(da, db));
   m.h->add(l);
}
inline int setlev(int l) { lev = l; return l; }
struct LevScope { int old; LevScope() : old(lev) {} ~LevScope() { lev = old; } operator bool() const { return true; } };
inline int reg(const Mesh& m, const std::shared_ptr<hier::Variable>& v, int ghosts, bool alloc = true)
{
   int id = hier::VariableDatabase::getDatabase()->registerVariableAndContext(v, hier::VariableDatabase::getDatabase()->getContext("CURRENT"), hier::IntVector(tbox::Dimension(NDIM), ghosts));
   if (alloc)
      for (int l = 0; l < m.h->getNumberOfLevels(); l++) m.level(l)->allocatePatchData(id);
   return id;
}
inline std::shared_ptr<CD> cd(hier::Patch& p, int id) { auto r = std::dynamic_pointer_cast<CD>(p.getPatchData(id)); if (!r) ::verif_stop("cell data expected", "fixture", 0); return r; }
inline std::shared_ptr<SD> sd(hier::Patch& p, int id) { auto r = std::dynamic_pointer_cast<SD>(p.getPatchData(id)); if (!r) ::verif_stop("side data expected", "fixture", 0); return r; }
#define VERIF_PATCHES(m, p) if (::fx::LevScope verif_s{}) for (int verif_l = 0; verif_l < (m).h->getNumberOfLevels() && (::fx::setlev(verif_l), true); verif_l++) for (auto verif_p = (m).level(verif_l)->begin(); verif_p != (m).level(verif_l)->end(); ++verif_p) for (hier::Patch* p = &**verif_p; p; p = nullptr)
inline void fill(const Mesh& m, int id, const Cell& f)
{
   VERIF_PATCHES(m, p) {
      auto d = cd(*p, id);
      for (auto& i : d->getGhostBox()) for (int k = 0; k < d->getDepth(); k++) (*d)(pdat::CellIndex(i), k) = f(i, k);
   }
}
inline void fills(const Mesh& m, int id, const Side& f)
{
   VERIF_PATCHES(m, p) {
      auto d = sd(*p, id);
      for (int a = 0; a < NDIM; a++) for (auto& i : d->getArrayData(a).getBox()) for (int k = 0; k < d->getDepth(); k++) d->getArrayData(a)(i, k) = f(a, i, k);
   }
}
// a cell (side) field full of named unknowns
inline int cell(const Mesh& m, const std::string& n, int ghosts = 0, int depth = 1) 
{
   int id = reg(m, std::make_shared<pdat::CellVariable<double> >(tbox::Dimension(NDIM), n, depth), ghosts);
   fill(m, id, [&](const hier::Index& i, int k) { return real(at(n, i, depth > 1 ? k : -1)); });
   return id;
}
// unknowns within limits
inline int cell(const Mesh& m, const std::string& n, int ghosts, int depth, const R& lo, const R& hi)
{
   int id = reg(m, std::make_shared<pdat::CellVariable<double> >(tbox::Dimension(NDIM), n, depth), ghosts);
   fill(m, id, [&](const hier::Index& i, int k) { return real(at(n, i, depth > 1 ? k : -1), lo, hi); });
   return id;
}
inline int out(const Mesh& m, const std::string& n, int ghosts = 0, int depth = 1)   // not initialised
{
   return reg(m, std::make_shared<pdat::CellVariable<double> >(tbox::Dimension(NDIM), n, depth), ghosts);
}
inline int side(const Mesh& m, const std::string& n, int ghosts = 0, int depth = 1)
{
   int id = reg(m, std::make_shared<pdat::SideVariable<double> >(tbox::Dimension(NDIM), n, hier::IntVector::getOne(tbox::Dimension(NDIM)), depth), ghosts);
   fills(m, id, [&](int a, const hier::Index& i, int k) { return real(at(n + "xyz"[a], i, depth > 1 ? k : -1)); });
   return id;
}
inline int outs(const Mesh& m, const std::string& n, int ghosts = 0, int depth = 1)
{
   return reg(m, std::make_shared<pdat::SideVariable<double> >(tbox::Dimension(NDIM), n, hier::IntVector::getOne(tbox::Dimension(NDIM)), depth), ghosts);
}
struct Ref {     // values of a field by index: of the patch holding it, otherwise of the first one with it among its ghosts
   const Mesh& m; int id;
   R operator()(const hier::Index& i, int k = 0) const
   {
      for (auto& p : *m.level(lev)) if (p->getBox().contains(i)) return (*cd(*p, id))(pdat::CellIndex(i), k);
      for (auto& p : *m.level(lev)) if (cd(*p, id)->getGhostBox().contains(i)) return (*cd(*p, id))(pdat::CellIndex(i), k);
      ::verif_stop("no such cell", "fixture", 0);
      return R(0.);
   }
   R operator()(int a, const hier::Index& i, int k) const
   {
      for (auto& p : *m.level(lev)) if (pdat::SideGeometry::toSideBox(p->getBox(), a).contains(i)) return sd(*p, id)->getArrayData(a)(i, k);
      for (auto& p : *m.level(lev)) if (sd(*p, id)->getArrayData(a).getBox().contains(i)) return sd(*p, id)->getArrayData(a)(i, k);
      ::verif_stop("no such side", "fixture", 0);
      return R(0.);
   }
};
// every interior cell of every patch: data == f
inline void eqall(const Mesh& m, int id, const Cell& f, const std::string& label, int grow = 0)
{
   VERIF_PATCHES(m, p) {
      auto d = cd(*p, id);
      hier::Box b(p->getBox());
      b.grow(hier::IntVector(tbox::Dimension(NDIM), grow));
      for (auto& i : b) for (int k = 0; k < d->getDepth(); k++) eq((*d)(pdat::CellIndex(i), k), f(i, k), at(label, i, d->getDepth() > 1 ? k : -1));
   }
}
inline void eqalls(const Mesh& m, int id, const Side& f, const std::string& label)
{
   VERIF_PATCHES(m, p) {
      auto d = sd(*p, id);
      for (int a = 0; a < NDIM; a++)
         for (auto& i : pdat::SideGeometry::toSideBox(p->getBox(), a))
            for (int k = 0; k < d->getDepth(); k++) eq(d->getArrayData(a)(i, k), f(a, i, k), at(label + "xyz"[a], i, d->getDepth() > 1 ? k : -1));
   }
}
inline hier::Index nb(const hier::Index& i, int a, int s) { hier::Index r(i); r[a] += s; return r; }
// nothing was written outside any array
inline void intact(const Mesh& m)
{
   VERIF_PATCHES(m, p)
      for (auto& x : p->all()) {
         if (auto c = std::dynamic_pointer_cast<CD>(x.second)) prove(B(c->getArrayData().intact()), "storage next to cell data untouched");
         if (auto s = std::dynamic_pointer_cast<SD>(x.second)) for (int a = 0; a < NDIM; a++) prove(B(s->getArrayData(a).intact()), "storage next to side data untouched");
      }
}
inline std::vector<int> box(int nx, int ny = 1, int nz = 1) { return std::vector<int>{nx, ny, nz}; }
// what is reported on the output while it exists: the value after a label
struct Printed {
   Printed() { on(true); }
   ~Printed() { on(false); }
   static void on(bool b)
   {
      tbox::printed_text().clear();
      tbox::printing() = b;
#ifdef VERIF_SYM
      vsym::printed.clear();
      vsym::printing = b;
#endif
   }
   bool has(const std::string& label) const { return tbox::printed_text().find(label) != std::string::npos; }
   R value(const std::string& label) const
   {
      const std::string& s = tbox::printed_text();
#ifdef VERIF_SYM
      const char* mark = "<#";
#else
      const char* mark = "<=";
#endif
      size_t i = s.find(label), e = i == std::string::npos ? i : s.find("\n", i), v = i == std::string::npos ? i : s.find(mark, i);
      bool ok = v != std::string::npos && (e == std::string::npos || v < e);
      prove(B(ok), "reported: " + label);
      if (!ok) return R(0.);
#ifdef VERIF_SYM
      return R(vsym::printed[std::stoi(s.substr(v + 2))]);
#else
      return R(std::stod(s.substr(v + 2)));
#endif
   }
};
}  // namespace fx
#endif
