// boundary conditions of the physical boundary, as read from the input
#include "stubs.h"
#include "QuatRefinePatchStrategy.h"
#include "PartitionCoeffRefinePatchStrategy.h"
#include "TimeLocationIndexRobinBcCoefs.h"
#include "bckernels.h"
#undef stod
using namespace fx;
namespace std { double verif_stod(const std::string& s)
{
   if (s[0] != '@') return double(std::stod(s));
   return s[1] == 'g' ? verif::real(s.substr(1)) : verif::real(s.substr(1), 0.1, 1.);
} }
// what is asked for at a face: alpha u + beta du/dn = gamma
struct Asked { R a, b, g; };
static R interpolated(const std::vector<R>& t, const std::vector<R>& g, const R& x)
{
   R r = g.back();
   for (size_t j = t.size() - 1; j-- > 0;) r = ite(le(x, t[j + 1]), g[j] + (g[j + 1] - g[j]) * (x - t[j]) / (t[j + 1] - t[j]), r);
   return r;
}
struct Table { std::vector<R> t, g; bool value; };
static Table table(const std::string& n, int len, bool value, bool plain)
{
   Table x;
   x.value = value;
   for (int j = 0; j < len; j++) {
      x.t.push_back(plain ? R(double(j)) : j ? x.t.back() + real(lab(n + "dt", j), 0.1, 1.) : real(n + "t0"));
      x.g.push_back(real(lab(n + "g", j)));
   }
   auto db = std::make_shared<tbox::MemoryDatabase>(n);
   db->putString("type", value ? "value" : "slope");
   for (int j = 0; j < len; j++) db->putDoubleVector("time_" + std::to_string(j), {x.t[j], x.g[j]});
   tbox::InputManager::getManager()->files[n] = db;
   return x;
}
static Asked at_time(const Table& x, const R& t, const R& scale) { return {R(x.value ? 1. : 0.), R(x.value ? 0. : 1.), interpolated(x.t, x.g, t) * scale}; }
CASE(timed)      // tables of times and values, one per boundary
{
   tbox::InputManager::getManager()->files.clear();
   auto make = [](const std::string& n, std::vector<Table>& x, int len, bool plain) {
      auto db = std::make_shared<tbox::MemoryDatabase>(n);
      for (int i = 0; i < 2 * NDIM; i++) { std::string f = lab(n, i); x.push_back(table(f, len + i % 2, i % 3 != 1, plain)); db->putStringVector("boundary_" + std::to_string(i), {"file", f}); }
      return db;
   };
   std::vector<Table> one, two;
   auto db1 = make("one", one, cfg("len", 3), cfg("plain")), db2 = make("two", two, 2, cfg("plain"));
   TimeLocationIndexRobinBcCoefs a(tbox::Dimension(NDIM), "a", db1), b(tbox::Dimension(NDIM), "b", db2), c(tbox::Dimension(NDIM), "c", db2);
   R scale = 1.;
   if (cfg("rescale")) { scale = real("scale", 0.1, 2.); a.rescaleGcoefficients(scale); }
   Mesh m = grid(box(1));
   hier::Patch& p = m.patch();
   auto ask = [&](TimeLocationIndexRobinBcCoefs& bc, const std::vector<Table>& x, int loc, const R& t, const R& s, const std::string& w) {
      auto A = std::make_shared<pdat::ArrayData<double> >(p.getBox(), 1), B = std::make_shared<pdat::ArrayData<double> >(p.getBox(), 1), G = std::make_shared<pdat::ArrayData<double> >(p.getBox(), 1);
      hier::BoundaryBox bb(p.getBox(), 1, loc);
      bc.setBcCoefs(A, B, G, nullptr, p, bb, t);
      Asked e = at_time(x[loc], t, s);
      for (auto& i : p.getBox()) { eq(R((*A)(i, 0)), e.a, w + ", coefficient of the value"); eq(R((*B)(i, 0)), e.b, w + ", coefficient of the slope"); eq(R((*G)(i, 0)), e.g, w + ", given"); }
      bc.setBcCoefs(nullptr, nullptr, G, nullptr, p, bb, t);
      for (auto& i : p.getBox()) eq(R((*G)(i, 0)), e.g, w + ", given alone");
   };
   auto within = [](const Table& x, const std::string& n, size_t lo, size_t hi) { R t = real(n); assume(le(x.t[lo], t)); assume(le(t, x.t[hi])); return t; };
   const int loc = cfg("loc", 0), last = one[loc].t.size() - 1;
   ask(a, one, loc, within(one[loc], "late", cfg("plain") ? last - 1 : 0, last), scale, "first time");
   ask(a, one, loc, within(one[loc], "early", 0, cfg("plain") ? 1 : last), scale, "any other time");
   ask(b, two, loc, within(two[loc], "other", 0, two[loc].t.size() - 1), 1., "other boundary data");
   ask(a, one, loc, one[loc].t[last], scale, "the last time");
   ask(a, one, loc, one[loc].t[0], scale, "the first time given");
   const int l2 = (loc + 1) % (2 * NDIM);
   ask(b, two, l2, two[l2].t.back(), 1., "another boundary");
   R after = one[loc].t[last] + real("after", 0.1, 1.), before = one[loc].t[0] - real("before", 0.1, 1.);
   hier::BoundaryBox bb(p.getBox(), 1, loc);
   auto G = std::make_shared<pdat::ArrayData<double> >(p.getBox(), 1);
   prove(B(refuses([&] { a.setBcCoefs(nullptr, nullptr, G, nullptr, p, bb, after); })), "no value after the last time");
   prove(B(refuses([&] { a.setBcCoefs(nullptr, nullptr, G, nullptr, p, bb, before); })), "no value before the first time");
   c = a;
   ask(c, one, loc, within(one[loc], "copied", 0, 1), scale, "copy");
   std::vector<double> va, vb, vg;
   a.getCoefficients(loc, va, vb, vg);
   prove(B(vg.size() == one[loc].g.size()), "coefficients shown");
   auto bad = std::make_shared<tbox::MemoryDatabase>("bad");
   prove(B(refuses([&] { TimeLocationIndexRobinBcCoefs d(tbox::Dimension(NDIM), "d", bad); })), "every boundary must be given");
}
// ghost cells of every field, as its own entry of the input asks
CASE(patch)
{
   tbox::InputManager::getManager()->files.clear();
   Mesh m = grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), cfg("patches", 1), cfg("lo"));
   if (cfg("levels", 1) > 1) refine(m, box(2));
   const int with = cfg("with", 31), n = cfg("qlen", 2);
   auto db = std::make_shared<tbox::MemoryDatabase>("BoundaryConditions");
   std::vector<Table> tables;
   const bool timed = cfg("timed");
   struct F { std::string name; int id, id0, depth; };
   std::vector<F> f;
   const char* names[5] = {"Phase", "Eta", "Quat", "Conc", "Temperature"};
   const int depth[5] = {cfg("order", 1), 1, n, cfg("nc", 1), 1};
   for (int k = 0; k < 5; k++) {
      std::string s(names[k]);
      f.push_back({s, cell(m, s, 1, depth[k]), cell(m, s, 1, depth[k]), depth[k]});
      if (!(with >> k & 1)) continue;
      auto d = std::make_shared<tbox::MemoryDatabase>(s);
      for (int i = 0; i < 2 * NDIM; i++) {
         std::string b = "boundary_" + std::to_string(i), e = s + std::to_string(i);
         if (k == 4 && timed) { tables.push_back(table("T" + std::to_string(i), 2, i % 2, false)); d->putStringVector(b, {"file", "T" + std::to_string(i)}); continue; }
         d->putStringVector(b, {"coefficients", "@a" + e, "@b" + e, "@g" + e});
      }
      db->putDatabase(s)->getDoubleWithDefault("none", 0.);
      for (int i = 0; i < 2 * NDIM; i++) { std::string b = "boundary_" + std::to_string(i); db->getDatabase(s)->putStringVector(b, d->getStringVector(b)); }
   }
   auto id = [&](int k) { return with >> k & 1 ? f[k].id : -1; };
   R scale = 1.;
   double coeff = -1.;
   if (cfg("rescale")) { scale = real("scale", 0.1, 2.); coeff = scale; }
   R t = real("t");
   if (timed && with >> 4 & 1) for (auto& x : tables) { assume(le(x.t[0], t)); assume(le(t, x.t[1])); }
   QuatRefinePatchStrategy q("strategy", db, id(0), id(1), id(2), id(3), cfg("nobc") ? f[4].id : id(4), 1, coeff);
   prove(B(q.getRefineOpStencilWidth(tbox::Dimension(NDIM)) == hier::IntVector(tbox::Dimension(NDIM), 1)), "stencil width");
   VERIF_PATCHES(m, p) q.setPhysicalBoundaryConditions(*p, t, hier::IntVector(tbox::Dimension(NDIM), 1));
   for (int k = 0; k < 5; k++) {
      Ref V{m, f[k].id}, V0{m, f[k].id0};
      VERIF_PATCHES(m, p) {
         hier::Box all(m.domain);
         for (int l = 0; l < p->getPatchLevelNumber(); l++) all.refine(hier::IntVector(tbox::Dimension(NDIM), 2));
         auto d = cd(*p, f[k].id), d0 = cd(*p, f[k].id0);
         for (auto& i : d->getGhostBox())
            for (int c = 0; c < f[k].depth; c++) {
               int out = 0, loc = -1;
               hier::Index in(i);
               for (int a = 0; a < NDIM; a++) {
                  if (i(a) < all.lower(a)) { out++; loc = 2 * a; in(a)++; }
                  if (i(a) > all.upper(a)) { out++; loc = 2 * a + 1; in(a)--; }
               }
               if (out > 1) continue;
               if (out && !p->getBox().contains(in)) continue;
               R v((*d)(pdat::CellIndex(i), c)), o((*d0)(pdat::CellIndex(i), c));
               if (!out || !(with >> k & 1)) { eq(v, o, at(f[k].name + " kept", i, c)); continue; }
               R u((*d0)(pdat::CellIndex(in), c)), h = m.dx[loc / 2];
               std::string e = f[k].name + std::to_string(loc);
               Asked x = k == 4 && timed ? at_time(tables[loc], t, scale) : Asked{real("a" + e, 0.1, 1.), real("b" + e, 0.1, 1.), real("g" + e) * (k == 4 ? scale : R(1.))};
               eq(v, (u * (x.b - 0.5 * h * x.a) + h * x.g) / (x.b + 0.5 * h * x.a), at(f[k].name + " at the boundary", i, c));
            }
      }
   }
   intact(m);
}
CASE(partition)
{
   Mesh m = grid(box(cfg("nx", 1), cfg("ny", 1), cfg("nz", 1)), cfg("patches", 1), cfg("lo"));
   auto db = std::make_shared<tbox::MemoryDatabase>("BoundaryConditions");
   auto e = db->putDatabase("PartitionCoeff");
   for (int i = 0; i < 2 * NDIM; i++) { std::string n = "PartitionCoeff" + std::to_string(i); e->putStringVector("boundary_" + std::to_string(i), {"coefficients", "@a" + n, "@b" + n, "@g" + n}); }
   int v = cell(m, "v", 1), v0 = cell(m, "v", 1);
   PartitionCoeffRefinePatchStrategy q("strategy", db, v);
   VERIF_PATCHES(m, p) q.setPhysicalBoundaryConditions(*p, 0., hier::IntVector(tbox::Dimension(NDIM), 1));
   VERIF_PATCHES(m, p)
      for (auto& i : p->getBox())
         for (int loc = 0; loc < 2 * NDIM; loc++) {
            hier::Index o(nb(i, loc / 2, loc % 2 ? 1 : -1));
            if (m.domain.contains(o)) continue;
            std::string n = "PartitionCoeff" + std::to_string(loc);
            R a = real("a" + n, 0.1, 1.), b = real("b" + n, 0.1, 1.), g = real("g" + n), h = m.dx[loc / 2], u((*cd(*p, v0))(pdat::CellIndex(i), 0));
            eq(R((*cd(*p, v))(pdat::CellIndex(o), 0)), (u * (b - 0.5 * h * a) + h * g) / (b + 0.5 * h * a), at("at the boundary", o));
         }
   intact(m);
}
