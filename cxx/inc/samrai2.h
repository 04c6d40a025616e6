// Transfer, solver, gridding and visualisation parts of the SAMRAI model.
#ifndef VERIF_SAMRAI2_H
#define VERIF_SAMRAI2_H
namespace SAMRAI
{
namespace xfer
{
class RefinePatchStrategy
{
 public:
   RefinePatchStrategy() {}
   explicit RefinePatchStrategy(const tbox::Dimension&) {}
   virtual ~RefinePatchStrategy() {}
   virtual void setPhysicalBoundaryConditions(hier::Patch& patch, const double fill_time, const hier::IntVector& ghost_width_to_fill) = 0;
   virtual hier::IntVector getRefineOpStencilWidth(const tbox::Dimension& dim) const { return hier::IntVector(dim, 1); }
   virtual void preprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) {}
   virtual void postprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) {}
   virtual void preprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const hier::IntVector&) {}
   virtual void postprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const hier::IntVector&) {}
};
class CoarsenPatchStrategy { public: CoarsenPatchStrategy() {} explicit CoarsenPatchStrategy(const tbox::Dimension&) {} virtual ~CoarsenPatchStrategy() {} };
class PatchLevelFillPattern { public: virtual ~PatchLevelFillPattern() {} };
class PatchLevelFullFillPattern : public PatchLevelFillPattern {};
class PatchLevelBorderFillPattern : public PatchLevelFillPattern {};
class VariableFillPattern { public: virtual ~VariableFillPattern() {} };
typedef geom::CartesianGridGeometry Geometry;
struct Item { int dst, src, scr; std::shared_ptr<hier::RefineOperator> rop; std::shared_ptr<hier::CoarsenOperator> cop; };

class RefineSchedule
{
 public:
   RefineSchedule(const std::vector<Item>& i, const std::shared_ptr<hier::PatchLevel>& d, const std::shared_ptr<hier::PatchLevel>& s, int next, const std::shared_ptr<hier::PatchHierarchy>& h, RefinePatchStrategy* st)
       : items(i), dst(d), src(s), next_coarser(next), hierarchy(h), strategy(st) {}
   void reset(const std::shared_ptr<class RefineAlgorithm>&) {}
   void initializeDeferredSchedule() {}
   void reset(const std::vector<Item>& i) { items = i; }
   // what a fill amounts to on one level: interiors and ghost cells from the source patches that cover them, physical
   // boundaries from the strategy
   void fillData(double time, bool bc = true) const
   {
      for (auto& i : items) {
         if (src)
            for (auto pp = dst->begin(); pp != dst->end(); ++pp)
               for (auto qq = src->begin(); qq != src->end(); ++qq) {
                  auto d = (*pp)->getPatchData(i.dst), s = (*qq)->getPatchData(i.src);
                  if (d == s) continue;
                  if (*pp == *qq) d->copyOnBox(*s, (*pp)->getBox());
                  else d->copyOnBox(*s, (*qq)->getBox());
               }
         if (next_coarser >= 0 && i.rop && hierarchy) {
            if (i.rop->getOperatorName() != "CONSTANT_REFINE") ::verif_stop("unmodelled fill from a coarser level", "model", 0);
            const hier::IntVector r(dst->getRatioToCoarserLevel());
            for (auto pp = dst->begin(); pp != dst->end(); ++pp) {
               auto d = std::dynamic_pointer_cast<pdat::CellData<double> >((*pp)->getPatchData(i.dst));
               if (!d) ::verif_stop("unmodelled fill from a coarser level", "model", 0);
               for (auto& x : d->getGhostBox()) {
                  bool here = !dst->getPhysicalDomain().begin()->contains(x);
                  if (src) for (auto qq = src->begin(); qq != src->end(); ++qq) here = here || (*qq)->getBox().contains(x);
                  if (here) continue;
                  hier::Index c(hier::Box::coarsen(hier::Box(x, x), r).lower());
                  bool found = false;
                  for (auto& q : *hierarchy->getPatchLevel(next_coarser)) {
                     if (found || !q->getBox().contains(c)) continue;
                     found = true;
                     auto f = std::dynamic_pointer_cast<pdat::CellData<double> >(q->getPatchData(i.src));
                     for (int k = 0; k < d->getDepth(); k++) (*d)(pdat::CellIndex(x), k) = (*f)(pdat::CellIndex(c), k);
                  }
                  if (!found) ::verif_stop("unmodelled fill from a coarser level", "model", 0);
               }
            }
         }
      }
      if (bc && strategy) {
         hier::IntVector g(tbox::Dimension(NDIM), 0);
         for (auto& i : items) g.max(hier::VariableDatabase::getDatabase()->ghosts(i.dst));
         for (auto pp = dst->begin(); pp != dst->end(); ++pp) strategy->setPhysicalBoundaryConditions(**pp, time, g);
      }
   }
 private:
   std::vector<Item> items;
   std::shared_ptr<hier::PatchLevel> dst, src;
   int next_coarser;
   std::shared_ptr<hier::PatchHierarchy> hierarchy;
   RefinePatchStrategy* strategy;
};
class RefineAlgorithm
{
 public:
   typedef std::shared_ptr<hier::PatchLevel> PL;
   typedef std::shared_ptr<hier::PatchHierarchy> PH;
   RefineAlgorithm() {}
   explicit RefineAlgorithm(const tbox::Dimension&) {}
   template <class OP> void registerRefine(int d, int s, int c, const OP& op, const std::shared_ptr<VariableFillPattern>& = nullptr) { items.push_back(Item{d, s, c, op, nullptr}); }
   std::shared_ptr<RefineSchedule> createSchedule(const PL& l, RefinePatchStrategy* s = nullptr) const { return mk(l, l, -1, nullptr, s); }
   std::shared_ptr<RefineSchedule> createSchedule(const std::shared_ptr<PatchLevelFillPattern>&, const PL& l, RefinePatchStrategy* s = nullptr) const { return mk(l, l, -1, nullptr, s); }
   std::shared_ptr<RefineSchedule> createSchedule(const PL& d, const PL& sl, RefinePatchStrategy* s = nullptr) const { return mk(d, sl, -1, nullptr, s); }
   std::shared_ptr<RefineSchedule> createSchedule(const PL& l, int n, const PH& h, RefinePatchStrategy* s = nullptr) const { return mk(l, l, n, h, s); }
   std::shared_ptr<RefineSchedule> createSchedule(const PL& d, const PL& sl, int n, const PH& h, RefinePatchStrategy* s = nullptr) const { return mk(d, sl, n, h, s); }
   std::shared_ptr<RefineSchedule> createSchedule(const std::shared_ptr<PatchLevelFillPattern>&, const PL& l, const PL& sl, int n, const PH& h, RefinePatchStrategy* s = nullptr) const { return mk(l, sl, n, h, s); }
   std::shared_ptr<RefineSchedule> createSchedule(const std::shared_ptr<PatchLevelFillPattern>&, const PL& l, int n, const PH& h, RefinePatchStrategy* s = nullptr) const { return mk(l, l, n, h, s); }
   void resetSchedule(const std::shared_ptr<RefineSchedule>& s) const { s->reset(items); }
   const std::vector<Item>& all() const { return items; }
 private:
   std::shared_ptr<RefineSchedule> mk(const PL& d, const PL& s, int n, const PH& h, RefinePatchStrategy* st) const { return std::make_shared<RefineSchedule>(items, d, s, n, h, st); }
   std::vector<Item> items;
};
class CoarsenSchedule
{
 public:
   CoarsenSchedule(const std::vector<Item>& i, const std::shared_ptr<hier::PatchLevel>& c, const std::shared_ptr<hier::PatchLevel>& f) : items(i), crse(c), fine(f) {}
   void reset(const std::vector<Item>& i) { items = i; }
   void coarsenData() const
   {
      const hier::IntVector r(fine->getRatioToCoarserLevel());
      for (auto& i : items)
         for (auto pp = crse->begin(); pp != crse->end(); ++pp)
            for (auto qq = fine->begin(); qq != fine->end(); ++qq) {
               if (!i.cop) ::verif_stop("coarsen operator missing", "model", 0);
               hier::Box fb(hier::Box::coarsen((*qq)->getBox(), r)), cb((*pp)->getBox() * fb);
               if (i.cop->sides()) cb = fb;
               if (cb.empty()) continue;
               i.cop->coarsen(**pp, **qq, i.dst, i.src, cb, r);
            }
   }
 private:
   std::vector<Item> items;
   std::shared_ptr<hier::PatchLevel> crse, fine;
};
class CoarsenAlgorithm
{
 public:
   explicit CoarsenAlgorithm(const tbox::Dimension&, bool = false) {}
   template <class OP> void registerCoarsen(int d, int s, const OP& op, const std::shared_ptr<VariableFillPattern>& = nullptr) { items.push_back(Item{d, s, s, nullptr, op}); }
   template <class OP> void registerCoarsen(int d, int s, const OP& op, const hier::IntVector&) { items.push_back(Item{d, s, s, nullptr, op}); }
   std::shared_ptr<CoarsenSchedule> createSchedule(const std::shared_ptr<hier::PatchLevel>& c, const std::shared_ptr<hier::PatchLevel>& f, CoarsenPatchStrategy* = nullptr) const { return std::make_shared<CoarsenSchedule>(items, c, f); }
   void resetSchedule(const std::shared_ptr<CoarsenSchedule>& s) const { s->reset(items); }
 private:
   std::vector<Item> items;
};
}  // namespace xfer

namespace solv
{
class RobinBcCoefStrategy
{
 public:
   RobinBcCoefStrategy() {}
   virtual ~RobinBcCoefStrategy() {}
   virtual void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& a, const std::shared_ptr<pdat::ArrayData<double> >& b, const std::shared_ptr<pdat::ArrayData<double> >& g,
                           const std::shared_ptr<hier::Variable>& v, const hier::Patch& p, const hier::BoundaryBox& bb, const double t = 0.0) const = 0;
   virtual hier::IntVector numberOfExtensionsFillable() const = 0;
};
class LocationIndexRobinBcCoefs : public RobinBcCoefStrategy
{
 public:
   LocationIndexRobinBcCoefs(const tbox::Dimension&, const std::string& n, const std::shared_ptr<tbox::Database>& db = nullptr) : d_name(n)
   {
      for (int i = 0; i < 2 * NDIM; i++) { a[i] = double(1); b[i] = double(0); g[i] = double(0); }
      if (!db) return;
      for (int i = 0; i < 2 * NDIM; i++) {
         std::string k = "boundary_" + tbox::Utilities::intToString(i);
         if (!db->isString(k)) continue;
         std::vector<std::string> s(db->getStringVector(k));
         if (s[0] == "value") { a[i] = double(1); b[i] = double(0); g[i] = std::stod(s[1]); }
         else if (s[0] == "slope") { a[i] = double(0); b[i] = double(1); g[i] = std::stod(s[1]); }
         else if (s[0] == "coefficients") { a[i] = std::stod(s[1]); b[i] = std::stod(s[2]); g[i] = std::stod(s[3]); }
         else ::verif_stop("bad boundary type", k.c_str(), 0);
      }
   }
   void setBoundaryValue(int i, double v) { a[i] = double(1); b[i] = double(0); g[i] = v; }
   void setBoundarySlope(int i, double v) { a[i] = double(0); b[i] = double(1); g[i] = v; }
   void setRawCoefficients(int i, double x, double y, double z) { a[i] = x; b[i] = y; g[i] = z; }
   void getCoefficients(int i, double& x, double& y, double& z) const { x = a[i]; y = b[i]; z = g[i]; }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& A, const std::shared_ptr<pdat::ArrayData<double> >& B, const std::shared_ptr<pdat::ArrayData<double> >& G,
                   const std::shared_ptr<hier::Variable>&, const hier::Patch&, const hier::BoundaryBox& bb, const double = 0.0) const override
   {
      int l = bb.getLocationIndex();
      if (A) A->fill(a[l]);
      if (B) B->fill(b[l]);
      if (G) G->fill(g[l]);
   }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1); }
   const std::string& getObjectName() const { return d_name; }
 private:
   std::string d_name;
   double a[2 * NDIM], b[2 * NDIM], g[2 * NDIM];
};
class SimpleCellRobinBcCoefs : public RobinBcCoefStrategy
{
 public:
   SimpleCellRobinBcCoefs(const tbox::Dimension&, const std::string& = "") {}
   void setHierarchy(const std::shared_ptr<hier::PatchHierarchy>&, const int a, const int b) { tbox::verif_calls().push_back({"bc levels", {double(a), double(b)}}); }
   void setBoundaries(const std::string&, const int = -1, const int = -1, int* = nullptr) {}
   void cacheDirichletData(int i) { tbox::verif_calls().push_back({"cache", {double(i)}}); }
   void restoreDirichletData(int i) { tbox::verif_calls().push_back({"restore", {double(i)}}); }
   void copyCachedDirichletData(int) {}
   void setDiffusionCoefConstant(double d) { tbox::verif_calls().push_back({"bc D", {d}}); }
   void setDiffusionCoefId(int i) { tbox::verif_calls().push_back({"bc D id", {double(i)}}); }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<pdat::ArrayData<double> >&, const std::shared_ptr<pdat::ArrayData<double> >&,
                   const std::shared_ptr<hier::Variable>&, const hier::Patch&, const hier::BoundaryBox&, const double = 0.0) const override { ::verif_stop("unmodelled SimpleCellRobinBcCoefs", "model", 0); }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1); }
};
class GhostCellRobinBcCoefs : public RobinBcCoefStrategy      // coefficients by which the ghost cell keeps the value it has (depth 0)
{
 public:
   GhostCellRobinBcCoefs(const tbox::Dimension&, const std::string& = "") : d_id(-1) {}
   void setGhostDataId(int i, const hier::IntVector&) { d_id = i; }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& a, const std::shared_ptr<pdat::ArrayData<double> >& b, const std::shared_ptr<pdat::ArrayData<double> >& g,
                   const std::shared_ptr<hier::Variable>&, const hier::Patch& p, const hier::BoundaryBox& bb, const double = 0.0) const override
   {
      auto geo = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
      const int l = bb.getLocationIndex(), ax = l / 2;
      const double h = geo->getDx()[ax];
      if (a) a->fillAll(1. / (1. + 0.5 * h));
      if (b) b->fillAll(0.5 * h / (1. + 0.5 * h));
      if (g) {
         auto c = std::dynamic_pointer_cast<pdat::CellData<double> >(p.getPatchData(d_id));
         if (!c || c->getDepth() != 1) ::verif_stop("unmodelled ghost data of several components", "model", 0);
         for (auto& i : g->getBox()) { hier::Index o(i); if (l % 2 == 0) o[ax] -= 1; (*g)(i, 0) = c->getArrayData()(o, 0) / (1. + 0.5 * h); }
      }
   }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(tbox::Dimension(NDIM), 1); }
 private:
   int d_id;
};
// first layer of ghost cells on the faces of the physical boundary, as a*u + b*du/dn = g asks (second order)
class CartesianRobinBcHelper : public xfer::RefinePatchStrategy
{
 public:
   explicit CartesianRobinBcHelper(const tbox::Dimension&, const std::string& = "", RobinBcCoefStrategy* c = nullptr) : coef(c), target(-1), homog(false) {}
   void setCoefImplementation(const RobinBcCoefStrategy* c) { coef = c; }
   void setTargetDataId(int i) { target = i; }
   void setHomogeneousBc(bool h) { homog = h; }
   void setPhysicalBoundaryConditions(hier::Patch& p, const double t, const hier::IntVector& g) override { setBoundaryValuesInCells(p, t, g, target, homog); }
   void setBoundaryValuesInCells(hier::Patch& p, const double t, const hier::IntVector& gw, int id, bool h = false) const
   {
      auto d = std::dynamic_pointer_cast<pdat::CellData<double> >(p.getPatchData(id));
      auto geo = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
      for (auto& bb : geo->getCodimensionBoundaries(1)) {
         int l = bb.getLocationIndex(), ax = l / 2;
         hier::Box sb(bb.getBox());
         if (l % 2 == 0) { sb.setLower(ax, sb.upper(ax) + 1); sb.setUpper(ax, sb.lower(ax)); } else sb.setUpper(ax, sb.lower(ax));
         auto A = std::make_shared<pdat::ArrayData<double> >(sb, 1), B = std::make_shared<pdat::ArrayData<double> >(sb, 1), G = std::make_shared<pdat::ArrayData<double> >(sb, 1);
         coef->setBcCoefs(A, B, h ? nullptr : G, nullptr, p, bb, t);
         double dx = geo->getDx()[ax];
         hier::Box fill(bb.getBox());
         for (auto i = fill.begin(); i != fill.end(); ++i) {
            hier::Index in(*i), fi(*i);
            if (l % 2 == 0) { in[ax] += 1; fi[ax] += 1; } else in[ax] -= 1;
            double a = (*A)(fi, 0), b = (*B)(fi, 0), g = h ? double(0) : (*G)(fi, 0);
            double den = a * dx + 2. * b;
            for (int k = 0; k < d->getDepth(); k++) (*d)(pdat::CellIndex(*i), k) = (2. * dx * g + (2. * b - a * dx) * (*d)(pdat::CellIndex(in), k)) / den;
         }
      }
   }
   void setBoundaryValuesInCells(hier::PatchLevel& l, const double t, const hier::IntVector& gw, int id, bool h = false) const { for (auto p = l.begin(); p != l.end(); ++p) setBoundaryValuesInCells(**p, t, gw, id, h); }
 private:
   const RobinBcCoefStrategy* coef; int target; bool homog;
};
template <class T> class SAMRAIVectorReal
{
 public:
   SAMRAIVectorReal(const std::string& n, const std::shared_ptr<hier::PatchHierarchy>& hh, int c, int f) : d_name(n), h(hh), lc(c), lf(f) {}
   void addComponent(const std::shared_ptr<hier::Variable>& v, int id, int w = -1, const std::shared_ptr<math::HierarchyDataOpsReal<T> >& = nullptr) { vars.push_back(v); ids.push_back(id); wid.push_back(w); }
   int getComponentDescriptorIndex(int i) const { if (i < 0 || i >= (int)ids.size()) ::verif_stop("no such vector component", "model", 0); return ids[i]; }
   int getControlVolumeIndex(int i) const { return wid.at(i); }
   std::shared_ptr<hier::Variable> getComponentVariable(int i) const { return vars.at(i); }
   std::shared_ptr<hier::PatchData> getComponentPatchData(int i, const hier::Patch& p) const { return p.getPatchData(getComponentDescriptorIndex(i)); }
   int getNumberOfComponents() const { return (int)ids.size(); }
   std::shared_ptr<hier::PatchHierarchy> getPatchHierarchy() const { return h; }
   int getCoarsestLevelNumber() const { return lc; }
   int getFinestLevelNumber() const { return lf; }
   const std::string& getName() const { return d_name; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   std::shared_ptr<SAMRAIVectorReal<T> > cloneVector(const std::string& n) const
   {
      auto r = std::make_shared<SAMRAIVectorReal<T> >(n, h, lc, lf);
      for (size_t i = 0; i < ids.size(); i++) r->addComponent(vars[i], hier::VariableDatabase::getDatabase()->registerClonedPatchDataIndex(vars[i], ids[i]), wid[i]);
      return r;
   }
   void allocateVectorData(double t = 0.) { for (int l = lc; l <= lf; l++) for (int i : ids) h->getPatchLevel(l)->allocatePatchData(i, t); }
   void deallocateVectorData() { for (int l = lc; l <= lf; l++) for (int i : ids) h->getPatchLevel(l)->deallocatePatchData(i); }
   void freeVectorComponents() { deallocateVectorData(); ids.clear(); vars.clear(); wid.clear(); }
   typedef std::shared_ptr<SAMRAIVectorReal<T> > P;
#define VERIF_VEC(S) for (size_t c = 0; c < ids.size(); c++) { math::HierarchyCellDataOpsReal<T> o(h, lc, lf); S; }
   void copyVector(const P& x, bool in = true) { VERIF_VEC(o.copyData(ids[c], x->ids[c], in)) }
   void setToScalar(const T& a, bool in = true) { VERIF_VEC(o.setToScalar(ids[c], a, in)) }
   void scale(const T& a, const P& x, bool in = true) { VERIF_VEC(o.scale(ids[c], a, x->ids[c], in)) }
   void addScalar(const P& x, const T& a, bool in = true) { VERIF_VEC(o.addScalar(ids[c], x->ids[c], a, in)) }
   void add(const P& x, const P& y, bool in = true) { VERIF_VEC(o.add(ids[c], x->ids[c], y->ids[c], in)) }
   void subtract(const P& x, const P& y, bool in = true) { VERIF_VEC(o.subtract(ids[c], x->ids[c], y->ids[c], in)) }
   void multiply(const P& x, const P& y, bool in = true) { VERIF_VEC(o.multiply(ids[c], x->ids[c], y->ids[c], in)) }
   void divide(const P& x, const P& y, bool in = true) { VERIF_VEC(o.divide(ids[c], x->ids[c], y->ids[c], in)) }
   void linearSum(const T& a, const P& x, const T& b, const P& y, bool in = true) { VERIF_VEC(o.linearSum(ids[c], a, x->ids[c], b, y->ids[c], in)) }
   void axpy(const T& a, const P& x, const P& y, bool in = true) { VERIF_VEC(o.axpy(ids[c], a, x->ids[c], y->ids[c], in)) }
#define VERIF_VECALL(S) for (size_t c = 0; c < ids.size(); c++) for (int l = lc; l <= lf; l++) for (auto& pp : *h->getPatchLevel(l)) { auto d = std::dynamic_pointer_cast<pdat::CellData<T> >(pp->getPatchData(ids[c])); auto e = std::dynamic_pointer_cast<pdat::CellData<T> >(pp->getPatchData(x->ids[c])); for (auto& i : pp->getBox()) for (int k = 0; k < d->getDepth(); k++) { T& z = (*d)(pdat::CellIndex(i), k); const T v = (*e)(pdat::CellIndex(i), k); S; } }
   void reciprocal(const P& x, bool = true) { VERIF_VECALL(z = T(1) / v) }
   void abs(const P& x, bool = true) { VERIF_VECALL(z = verif::vabs(v)) }
   T L1Norm(bool = false) const { T r = T(0); VERIF_VEC(r = r + o.L1Norm(ids[c], wid[c])) return r; }
   T L2Norm(bool = false) const { T r = T(0); VERIF_VEC(T n = o.L2Norm(ids[c], wid[c]); r = r + n * n) return sqrt(r); }
   T maxNorm(bool = false) const { T r = T(0); VERIF_VEC(r = verif::vmax(r, o.maxNorm(ids[c], wid[c]))) return r; }
   T RMSNorm() const { ::verif_stop("unmodelled vector operation", "model", 0); return T(0); }
   T dot(const P& x, bool = false) const { T r = T(0); VERIF_VEC(r = r + o.dot(ids[c], x->ids[c], wid[c])) return r; }
   T min(bool in = true) const { T r = T(1e300); VERIF_VEC(r = verif::vmin(r, o.min(ids[c], in))) return r; }
   T max(bool in = true) const { T r = T(-1e300); VERIF_VEC(r = verif::vmax(r, o.max(ids[c], in))) return r; }
   T weightedL2Norm(const P& w) const { T r = T(0); VERIF_VEC(T n = o.weightedL2Norm(ids[c], w->ids[c], wid[c]); r = r + n * n) return sqrt(r); }
   T weightedRMSNorm(const P& x) const { std::vector<double> a; VERIF_VECALL(a.push_back(z); a.push_back(v)) return verif::fn("weightedRMSNorm", a); }
   int getLength(bool = true) const { int n = 0; auto x = this; VERIF_VECALL((void)z; (void)v; n++) return n; }
   int computeConstrProdPos(const P& x) const { int r = 1; VERIF_VECALL(if (v != T(0) && z * v <= T(0)) r = 0) return r; }
   void compareToScalar(const P& x, const T& a, bool = true) { VERIF_VECALL(z = verif::ite(verif::ge(verif::vabs(v), a), T(1), T(0))) }
   int testReciprocal(const P& x) { int r = 1; VERIF_VECALL(if (v == T(0)) { r = 0; z = T(0); } else z = T(1) / v) return r; }
   void print(std::ostream&, bool = true) const {}
   std::ostream& getOutputStream() const { return std::cout; }
 private:
   std::string d_name;
   std::shared_ptr<hier::PatchHierarchy> h; int lc, lf;
   std::vector<std::shared_ptr<hier::Variable> > vars;
   std::vector<int> ids, wid;
};
class FACOperatorStrategy
{
 public:
   FACOperatorStrategy() {}
   virtual ~FACOperatorStrategy() {}
   virtual void restrictSolution(const SAMRAIVectorReal<double>&, SAMRAIVectorReal<double>&, int) = 0;
   virtual void restrictResidual(const SAMRAIVectorReal<double>&, SAMRAIVectorReal<double>&, int) = 0;
   virtual void prolongErrorAndCorrect(const SAMRAIVectorReal<double>&, SAMRAIVectorReal<double>&, int) = 0;
   virtual void smoothError(SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, int, int) = 0;
   virtual int solveCoarsestLevel(SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, int) = 0;
   virtual void computeCompositeResidualOnLevel(SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&, int, bool) = 0;
   virtual double computeResidualNorm(const SAMRAIVectorReal<double>&, int, int) = 0;
   virtual void initializeOperatorState(const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&) {}
   virtual void deallocateOperatorState() {}
   virtual void postprocessOneCycle(int, const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&) {}
};
class PoissonSpecifications
{
 public:
   explicit PoissonSpecifications(const std::string& n = "") : d_name(n), d_D_id(-1), d_D_constant(1.0), d_C_zero(true), d_C_id(-1), d_C_constant(0.0) {}
   void setDPatchDataId(int i) { d_D_id = i; d_D_constant = double(0); }
   void setDConstant(double c) { d_D_id = -1; d_D_constant = c; }
   int getDPatchDataId() const { return d_D_id; }
   bool dIsVariable() const { return d_D_id != -1; }
   bool dIsConstant() const { return d_D_id == -1; }
   double getDConstant() const { return d_D_constant; }
   void setCPatchDataId(int i) { d_C_zero = false; d_C_id = i; d_C_constant = double(0); }
   void setCConstant(double c) { d_C_zero = false; d_C_id = -1; d_C_constant = c; }
   void setCZero() { d_C_zero = true; d_C_id = -1; d_C_constant = double(0); }
   int getCPatchDataId() const { return d_C_id; }
   bool cIsZero() const { return d_C_zero; }
   bool cIsVariable() const { return d_C_id != -1; }
   bool cIsConstant() const { return d_C_id == -1 && !d_C_zero; }
   double getCConstant() const { return d_C_constant; }
 private:
   std::string d_name; int d_D_id; double d_D_constant; bool d_C_zero; int d_C_id; double d_C_constant;
};
}  // namespace solv

namespace mesh
{
class GriddingAlgorithm;
class StandardTagAndInitStrategy { public: explicit StandardTagAndInitStrategy() {} virtual ~StandardTagAndInitStrategy() {} };
class StandardTagAndInitialize { public: template <class... A> explicit StandardTagAndInitialize(A&&...) {} };
class BergerRigoutsos { public: template <class... A> explicit BergerRigoutsos(A&&...) {} void useDuplicateMPI(const tbox::SAMRAI_MPI&) {} };
class TreeLoadBalancer { public: template <class... A> explicit TreeLoadBalancer(A&&...) {} void setSAMRAI_MPI(const tbox::SAMRAI_MPI&) {} void printStatistics(std::ostream&) {} };
class GriddingAlgorithm
{
 public:
   template <class... A> explicit GriddingAlgorithm(A&&...) {}
   void makeCoarsestLevel(double t) { tbox::verif_calls().push_back({"coarsest", {t}}); }
   void makeFinerLevel(int buffer, bool initial, int cycle, double t, double = 0.) { tbox::verif_calls().push_back({initial ? "finer initial" : "finer", {double(buffer), double(cycle), t}}); }
   void regridAllFinerLevels(int level, const std::vector<int>& buffer, int cycle, double t, const std::vector<double>& = {}) { tbox::verif_calls().push_back({"regrid", {double(level), double(int(buffer.size())), double(cycle), t}}); }
   void printClassData(std::ostream&) {}
   struct Strategy { template <class... A> void resetHierarchyConfiguration(A&&...) {} };
   std::shared_ptr<Strategy> getTagAndInitializeStrategy() { return std::make_shared<Strategy>(); }
};
}  // namespace mesh
namespace appu
{
class VisItDataWriter
{
 public:
   template <class... A> explicit VisItDataWriter(A&&...) {}
   template <class... A> void registerPlotQuantity(A&&...) {}
   void writePlotData(const std::shared_ptr<hier::PatchHierarchy>&, int cycle, double t) { tbox::verif_calls().push_back({"plot", {double(cycle), t}}); }
};
class VisDerivedDataStrategy { public: virtual ~VisDerivedDataStrategy() {} };
}  // namespace appu
}  // namespace SAMRAI
#endif
