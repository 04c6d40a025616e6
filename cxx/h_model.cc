// the model class: volume weights and reported integrals, tagging for refinement, mobilities, orientation fields, run loop
// and restart
#include "stubs.h"
#include "QuatModel.h"
#include "PFModel.h"
#include "AdaptMovingFrame.h"
#include "QuatFort.h"
#include "FuncFort.h"
#include "PhysicalConstants.h"
#include "QuatRefinePatchStrategy.h"
#include "QuatIntegrator.h"
#include "Grains.h"
#include "HeatCapacityStrategy.h"
#include "Verbosity.h"
#include "EnergyEvaluationStrategy.h"
#include "PhaseConcentrationsStrategy.h"
#include "PartitionCoefficientStrategy.h"
#include "ConcFreeEnergyStrategy.h"
#include "QuatGradStrategy.h"
#include "SAMRAI/hier/PatchDataRestartManager.h"
#include "SimpleQuatGradStrategy.h"
#include "PartitionCoeffRefinePatchStrategy.h"
#include "TemperatureStrategy.h"
#include "computeQDiffs.h"
#include "QuatGradModulusStrategy.h"
using namespace fx;
typedef QuatModelParameters QP;
typedef std::shared_ptr<hier::PatchHierarchy> PH;
void copyDatabase(std::shared_ptr<SAMRAI::tbox::Database>, boost::property_tree::ptree&) {}
static QuatModel* model(const Mesh& m, int qlen = 1)
{
   auto q = new (calloc(1, sizeof(QuatModel))) QuatModel(qlen);       // members the constructor leaves alone are zero
   q->d_patch_hierarchy = m.h;
   q->d_grid_geometry = m.geom;
   q->d_ncompositions = 0;
   q->d_symmetry_aware = false;
   for (int a = 0; a < NDIM; a++) q->d_subdomain_diagnostics[a] = 0.;
   return q;
}
static std::vector<int> cells(int n) { std::vector<int> c(NDIM, 1); c[0] = n; c[1] = 2; return c; }
static Mesh themesh()
{
   int n = cfg("nx", 2);
   Mesh m = grid(cells(n), cfg("patches", 1), cfg("lo", 0));
   for (int l = 1; l < cfg("levels", 1); l++) { std::vector<int> c(NDIM, 2); c[0] = cfg("fine", 2); refine(m, c); }
   return m;
}
static bool covered(const Mesh& m, const hier::Index& i, int l)
{
   if (l + 1 >= m.h->getNumberOfLevels()) return false;
   for (auto& p : *m.level(l + 1)) { hier::Box b(p->getBox()); bool in = true; for (int a = 0; a < NDIM; a++) in = in && 2 * i[a] + 1 >= b.lower(a) && 2 * i[a] <= b.upper(a); if (in) return true; }
   return false;
}
static R volume(const Mesh& m) { R v = 1.; for (int a = 0; a < NDIM; a++) v = v * m.dx[a]; return v; }
// is the centre of the cell in the part of the domain kept
static B inside(const Mesh& m, const hier::Index& i, const std::vector<double>& part)
{
   B in(true);
   for (int a = 0; a < NDIM; a++) {
      R lo = m.geom->getXLower()[a], hi = m.geom->getXUpper()[a], x = lo + (R(double(i[a])) + 0.5) * m.dx[a];
      R mid = 0.5 * (lo + hi), half = 0.5 * part[a] * (hi - lo);
      in = in && ge(x, mid - half) && le(x, mid + half);
   }
   return in;
}
// not on the border of the part kept, where either answer will do
static void generic(const Mesh& m, const std::vector<double>& part)
{
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) for (int a = 0; a < NDIM; a++) {
      R lo = m.geom->getXLower()[a], hi = m.geom->getXUpper()[a], x = lo + (R(double(i[a])) + 0.5) * m.dx[a];
      R d = vabs(x - 0.5 * (lo + hi)) - 0.5 * part[a] * (hi - lo);
      assume(gt(vabs(d), R(1e-6)));
   }
}
static std::vector<double> part(QuatModel* q)
{
   std::vector<double> f;
   for (int a = 0; a < NDIM; a++) { f.push_back(a < cfg("axes", NDIM) ? real(lab("part", a), 0.05, 1.) : R(1.)); q->d_subdomain_diagnostics[a] = f[a]; }
   return f;
}
CASE(weights)
{
   Mesh m = themesh();
   auto q = model(m);
   q->d_weight_id = out(m, "w", cfg("ghosts", 0));
   q->d_weight_diagnostics_id = out(m, "wd", cfg("ghosts", 0));
   auto f = part(q);
   generic(m, f);
   auto w = [&](const hier::Index& i, int) { return covered(m, i, lev) ? R(0.) : volume(m); };
   auto wd = [&](const hier::Index& i, int) { return covered(m, i, lev) ? R(0.) : ite(inside(m, i, f), volume(m), 0.); };
   if (cfg("twice", 0)) {      // from whatever a previous mesh left
      fill(m, q->d_weight_id, [&](const hier::Index& i, int) { return real(at("old", i)); });
      fill(m, q->d_weight_diagnostics_id, [&](const hier::Index& i, int) { return real(at("olddiag", i)); });
   }
   if (cfg("diagfirst", 0)) q->computeVectorWeightsDiagnostics(m.h);
   q->computeVectorWeights(m.h);
   eqall(m, q->d_weight_id, w, "weight");
   if (!cfg("diagfirst", 0)) q->computeVectorWeightsDiagnostics(m.h);
   eqall(m, q->d_weight_diagnostics_id, wd, "weight of diagnostics");
   eqall(m, q->d_weight_id, w, "weight after those of diagnostics");
   // a uniform field integrates to the volume of the domain
   R s = 0., v = 1.;
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) s = s + (*cd(*p, q->d_weight_id))(pdat::CellIndex(i), 0);
   for (int a = 0; a < NDIM; a++) v = v * (m.geom->getXUpper()[a] - m.geom->getXLower()[a]);
   eq(s, v, "volume of the domain");
}
static R sum(const Mesh& m, int w, const Cell& f)      // over the processes: the model of the reduction multiplies by their number
{
   R s = 0.;
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) s = s + f(i, 0) * (*cd(*p, w))(pdat::CellIndex(i), 0);
   return s;
}
static int weight(const Mesh& m, const char* n) { return cell(m, n, 0, 1, R(0.), R(2.)); }
CASE(integrals)
{
   Mesh m = themesh();
   auto q = model(m);
   const int nc = cfg("nc", 1), nphi = cfg("np", 1), g = cfg("ghosts", 0);
   q->d_model_parameters.d_with_concentration = cfg("conc", 1);
   q->d_model_parameters.d_with_phase = cfg("phase", 1);
   q->d_model_parameters.d_latent_heat = real("latent");
   q->d_model_parameters.d_norderp = nphi;
   q->d_ncompositions = nc;
   q->d_weight_id = weight(m, "w");
   q->d_weight_diagnostics_id = weight(m, "wd");
   q->d_work_id = out(m, "work");
   q->d_conc_id = cell(m, "c", 0, nc);
   q->d_phase_id = cell(m, "phi", 0, nphi);
   q->d_phase_scratch_id = cell(m, "phis", 1, nphi);
   q->d_eta_id = cell(m, "eta", g, cfg("ne", 2));
   q->d_temperature_id = cell(m, "T", 0);
   q->d_cp_id = cell(m, "cp", 0);
   q->d_f_l_id = cell(m, "fl", 0);
   Ref c{m, q->d_conc_id}, phi{m, q->d_phase_id}, eta{m, q->d_eta_id}, T{m, q->d_temperature_id}, cp{m, q->d_cp_id};
   const int w = q->d_weight_id;
   const R on = cfg("conc", 1) ? 1. : 0.;
   for (int k = 0; k < nc; k++) {
      eq(q->evaluateIntegralConcentration(m.h, k), on * sum(m, w, [&](const hier::Index& i, int) { return c(i, k); }), lab("integral of composition", k));
      if (nphi == 1) eq(q->evaluateIntegralPhaseConcentration(m.h, k), on * sum(m, w, [&](const hier::Index& i, int) { return vabs(c(i, k) * phi(i)); }), lab("integral of composition in the solid", k));
   }
   for (int k = 0; k < nphi; k++) eq(q->evaluatePhaseFraction(m.h, q->d_phase_id, k), sum(m, w, [&](const hier::Index& i, int) { return phi(i, k); }), lab("phase fraction", k));
   for (int k = 0; k < cfg("ne", 2); k++) eq(q->evaluatePhaseFraction(m.h, q->d_eta_id, k), sum(m, w, [&](const hier::Index& i, int) { return eta(i, k); }), lab("fraction of another field", k));
   eq(q->evaluateVolumeSolid(m.h, q->d_temperature_id), sum(m, w, [&](const hier::Index& i, int) { return vabs(T(i)); }), "volume of solid");
   if (nphi == 1) eq(q->computeThermalEnergy(m.h), sum(m, w, [&](const hier::Index& i, int) { return cp(i) * T(i) - (cfg("phase", 1) ? R(real("latent") * phi(i)) : R(0.)); }), "thermal energy");
   intact(m);
}
CASE(density)
{
   Mesh m = themesh();
   auto q = model(m);
   const int a = cfg("a", 1), b = cfg("b", 1);
   q->d_model_parameters.d_norderp = a + b + 1;
   q->d_model_parameters.d_norderp_A = a;
   q->d_model_parameters.d_norderp_B = b;
   q->d_weight_id = weight(m, "w");
   q->d_weight_diagnostics_id = weight(m, "wd");
   q->d_work_id = out(m, "work");
   q->d_phase_id = cell(m, "phi", 0, a + b + 1);
   Ref phi{m, q->d_phase_id}, w{m, q->d_weight_id};
   R vol = 0., pores = sum(m, q->d_weight_diagnostics_id, [&](const hier::Index& i, int) { return phi(i, a + b); });
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) vol = vol + (*cd(*p, q->d_weight_diagnostics_id))(pdat::CellIndex(i), 0);
   assume(gt(vol, R(0.01)));
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) { auto d = cd(*p, q->d_weight_id); (*d)(pdat::CellIndex(i), 0) = covered(m, i, lev) ? R(0.) : volume(m); auto e = cd(*p, q->d_weight_diagnostics_id); if (covered(m, i, lev)) (*e)(pdat::CellIndex(i), 0) = 0.; }
   vol = 0.;
   pores = sum(m, q->d_weight_diagnostics_id, [&](const hier::Index& i, int) { return phi(i, a + b); });
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) vol = vol + (*cd(*p, q->d_weight_diagnostics_id))(pdat::CellIndex(i), 0);
   assume(gt(vol, R(0.01)));
   eq(q->computeDensityDiagnostics() * vol, vol - pores, "relative density");
}
CASE(reference)
{
   Mesh m = themesh();
   auto q = model(m);
   const int nc = cfg("nc", 1), b = cfg("b", 0);
   q->d_ncompositions = nc;
   q->d_model_parameters.d_norderp_B = b;
   q->d_conc_l_id = cell(m, "cl", 1, nc);
   q->d_conc_a_id = cell(m, "ca", 1, nc);
   q->d_conc_l_ref_id = out(m, "lref", 1, nc);
   q->d_conc_a_ref_id = out(m, "aref", 1, nc);
   if (b) { q->d_conc_b_id = cell(m, "cb", 1, nc); q->d_conc_b_ref_id = out(m, "bref", 1, nc); }
   q->resetRefPhaseConcentrations();
   for (int x = 0; x < 2 + b; x++) {
      Ref s{m, x == 0 ? q->d_conc_l_id : x == 1 ? q->d_conc_a_id : q->d_conc_b_id};
      eqall(m, x == 0 ? q->d_conc_l_ref_id : x == 1 ? q->d_conc_a_ref_id : q->d_conc_b_ref_id, [&](const hier::Index& i, int k) { return real(at(std::string("c") + "lab"[x], i, nc > 1 ? k : -1)); }, lab("reference composition", x), 1);
   }
   std::vector<double> ceq;
   for (int x = 0; x < (2 + b) * nc; x++) ceq.push_back(real(lab("ceq", x)));
   q->setRefPhaseConcentrationsToEquilibrium(ceq.data());
   for (int x = 0; x < 2 + b; x++)
      eqall(m, x == 0 ? q->d_conc_l_ref_id : x == 1 ? q->d_conc_a_ref_id : q->d_conc_b_ref_id, [&](const hier::Index&, int k) { return ceq[x * nc + k]; }, lab("reference at equilibrium", x), 1);
}
CASE(velocity)
{
   Mesh m = themesh();
   auto q = model(m);
   q->d_phase_grad_cell_id = cell(m, "g", 0, NDIM);
   q->d_velocity_id = out(m, "v");
   int dot = cell(m, "dphi");
   q->computeVelocity(m.h, dot);
   Ref g{m, q->d_phase_grad_cell_id}, d{m, dot};
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) {
      R g2 = 0.;
      for (int a = 0; a < NDIM; a++) g2 = g2 + g(i, a) * g(i, a);
      R v = (*cd(*p, q->d_velocity_id))(pdat::CellIndex(i), 0), t = 0.02 / m.dx[0];
      // speed of the level sets, regularised where the profile is flat
      eq(v, d(i) / sqrt(g2 + t * t), at("velocity of the front", i));
   }
}
// ---------------------------------------------------------------- moving frame
CASE(frame)
{
   Mesh m = themesh();
   auto q = model(m);
   q->d_weight_id = weight(m, "w");
   int phi = cell(m, "phi", 0);
   R amax = real("amax", 0.01, 5.), vol = 1.;
   AdaptMovingFrame f(m.geom, q, amax);
   for (int a = 0; a < NDIM; a++) vol = vol * (m.geom->getXUpper()[a] - m.geom->getXLower()[a]);
   R L = m.geom->getXUpper()[0] - m.geom->getXLower()[0];
   R v = real("v0"), prev = 0., tp = 0.;
   for (int n = 0; n < cfg("n", 3); n++) {
      fill(m, phi, [&](const hier::Index& i, int) { return real(at(lab("phi", n), i), 0., 1.); });
      R t = real(lab("t", n)), fs = sum(m, q->d_weight_id, [&](const hier::Index& i, int) { return real(at(lab("phi", n), i), 0., 1.); }) / vol;
      if (n) assume(gt(t - tp, R(0.01)));
      R given = cfg("kept", 1) ? v : R(real(lab("v", n)));
      R got = f.adaptVelocity(t, m.h, given, phi);
      R a = n == 0 ? R(0.) : L * (fs - prev) / (t - tp);
      a = vmax(vmin(a, amax), -amax);
      eq(got, given + a, lab("velocity of the frame", n));
      v = got;
      prev = fs;
      tp = t;
   }
}

// ---------------------------------------------------------------- collaborators of the model
static double boundary(const R& inner, int face, const R& time) { return fn("boundary", {inner, double(face), time}); }
QuatRefinePatchStrategy::QuatRefinePatchStrategy(const std::string&, std::shared_ptr<tbox::Database>, const int a, const int b, const int c, const int d, const int e, const int g, const double) : d_phase_id(a), d_eta_id(b), d_quat_id(c), d_conc_id(d), d_temperature_id(e), d_nghosts(g) {}
QuatRefinePatchStrategy::~QuatRefinePatchStrategy() {}
static void outside(hier::Patch& p, const R& t, const std::vector<int>& ids)
{
   for (int id : ids) {
      if (id < 0) continue;
      auto d = cd(p, id);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
      for (auto& i : d->getGhostBox()) {
         int face = 0, scale = 1;
         hier::Index c(i);
         for (int x = 0; x < NDIM; x++, scale *= 3) for (int s = 0; s < 2; s++) {
            int edge = s ? p.getBox().upper(x) : p.getBox().lower(x);
            if (g->touch[x][s] && (s ? i[x] > edge : i[x] < edge)) { face += (1 + s) * scale; c[x] = edge; }
         }
         if (face) for (int k = 0; k < d->getDepth(); k++) (*d)(pdat::CellIndex(i), k) = boundary((*d)(pdat::CellIndex(c), k), face, t);
      }
   }
}
void QuatRefinePatchStrategy::setPhysicalBoundaryConditions(hier::Patch& p, const double t, const hier::IntVector&) { outside(p, t, {d_phase_id, d_eta_id, d_quat_id, d_conc_id, d_temperature_id}); }
PartitionCoeffRefinePatchStrategy::PartitionCoeffRefinePatchStrategy(const std::string& n, std::shared_ptr<tbox::Database>, const int id) : d_object_name(n), d_partition_coeff_id(id) {}
void PartitionCoeffRefinePatchStrategy::setPhysicalBoundaryConditions(hier::Patch& p, const double t, const hier::IntVector&) { outside(p, t, {d_partition_coeff_id}); }
typedef std::vector<tbox::VerifCall> Calls;
static Calls& calls() { return tbox::verif_calls(); }
static void call(const std::string& w, const std::vector<double>& v = {}) { calls().push_back({w, v}); }
static void same(const Calls& got, const Calls& want, const std::string& label)
{
   bool ok = got.size() == want.size();
   for (size_t i = 0; ok && i < got.size(); i++) ok = got[i].what == want[i].what && got[i].v.size() == want[i].v.size();
   if (!ok) {
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i].what == want[i].what && got[i].v.size() == want[i].v.size()) i++;
      prove(B(false), label + ": step " + std::to_string(i) + " is " + (i < got.size() ? got[i].what : "none") + " instead of " + (i < want.size() ? want[i].what : "none"));
      return;
   }
   prove(B(true), label);
   for (size_t i = 0; i < got.size(); i++) for (size_t k = 0; k < got[i].v.size(); k++) eq(got[i].v[k], want[i].v[k], lab(label, int(i), int(k)));
}
static R step_taken;
void QuatIntegrator::initializeLevelData(const PH&, const int l, const double t, const bool, const bool initial, const std::shared_ptr<hier::PatchLevel>&, const bool) { call(initial ? "integrator level initial" : "integrator level", {double(l), t}); }
void QuatIntegrator::resetHierarchyConfiguration(const PH&, const int c, const int f) { call("integrator reset", {double(c), double(f)}); }
double QuatIntegrator::Advance(const PH) { call("integrator advance"); return step_taken; }
void Grains::initializeLevelData(const PH&, const int l, const double t, const bool, const bool, const std::shared_ptr<hier::PatchLevel>&, const bool) { call("grains level", {double(l), t}); }
void Grains::resetHierarchyConfiguration(const PH&, const int c, const int f) { call("grains reset", {double(c), double(f)}); }
alignas(64) static char raw_integrator[1 << 15], raw_grains[1 << 14];
static std::shared_ptr<EventInterval> never() { return std::make_shared<EventInterval>(std::shared_ptr<tbox::Database>(), "never", 0.); }
static std::shared_ptr<hier::RefineOperator> nearest() { return std::make_shared<hier::RefineOperator>("CONSTANT_REFINE"); }
// the fields of a model and the algorithms that move them
struct Fields {
   bool phase = cfg("phase", 1), eta = cfg("eta", 0), quat = cfg("quat", 0), conc = cfg("conc", 0), heat = cfg("heat", 0);
   int qlen = cfg("qlen", 2), nc = cfg("nc", 1), np = cfg("np", 1);
   std::vector<int> cur, scr;
   std::vector<std::string> name;
   void put(const Mesh& m, const std::string& n, int depth, int& id, int& sid)
   {
      id = cell(m, n, 0, depth);
      sid = out(m, n + "_scratch", 1, depth);
      cur.push_back(id); scr.push_back(sid); name.push_back(n);
   }
   Fields(const Mesh& m, QuatModel* q)
   {
      auto& par = q->d_model_parameters;
      par.d_with_phase = phase; par.d_with_third_phase = eta; par.d_with_concentration = conc; par.d_H_parameter = quat ? 1. : -1.; par.d_with_heat_equation = heat;
      par.d_norderp = np;
      q->d_ncompositions = conc ? nc : 0;
      q->d_model_parameters.d_free_energy_type = "s";
      for (auto op : {&q->d_phase_refine_op, &q->d_eta_refine_op, &q->d_quat_refine_op, &q->d_conc_refine_op}) *op = nullptr;
      m.geom->rops["LINEAR_REFINE"] = nearest();
      if (phase) put(m, "phi", np, q->d_phase_id, q->d_phase_scratch_id);
      if (eta) put(m, "eta", 1, q->d_eta_id, q->d_eta_scratch_id);
      put(m, "T", 1, q->d_temperature_id, q->d_temperature_scratch_id);
      if (quat) put(m, "q", qlen, q->d_quat_id, q->d_quat_scratch_id);
      if (conc) put(m, "c", nc, q->d_conc_id, q->d_conc_scratch_id);
      q->d_all_refine_patch_strategy = new QuatRefinePatchStrategy("all", nullptr, q->d_phase_scratch_id, q->d_eta_scratch_id, q->d_quat_scratch_id, q->d_conc_scratch_id, q->d_temperature_scratch_id, 1, 0.);
      if (conc) q->d_conc_pfm_diffusion_id.assign(nc, -1);
   }
   // what a filled scratch field holds: the level, else the level below, else the boundary condition
   void filled(const Mesh& m, int f, const R& t, const std::string& label)
   {
      VERIF_PATCHES(m, p) {
         auto d = cd(*p, scr[f]);
         for (auto& x : d->getGhostBox()) {
            int face = 0, scale = 1;
            hier::Index c(x);
            const hier::Box& dom = *m.level(lev)->getPhysicalDomain().begin();
            for (int a = 0; a < NDIM; a++, scale *= 3) { if (x[a] < dom.lower(a)) { face += scale; c[a] = dom.lower(a); } if (x[a] > dom.upper(a)) { face += 2 * scale; c[a] = dom.upper(a); } }
            for (int k = 0; k < d->getDepth(); k++) {
               R v = value(m, f, c, k, lev);
               if (face) v = boundary(v, face, t);
               eq((*d)(pdat::CellIndex(x), k), v, at(label + name[f], x, k));
            }
         }
      }
   }
   R value(const Mesh& m, int f, const hier::Index& x, int k, int l)
   {
      for (auto& q : *m.level(l)) if (q->getBox().contains(x)) return (*cd(*q, cur[f]))(pdat::CellIndex(x), k);
      if (l == 0) ::verif_stop("no such cell", "harness", 0);
      hier::Index c(x);
      for (int a = 0; a < NDIM; a++) c[a] = x[a] < 0 ? -((1 - x[a]) / 2) : x[a] / 2;
      return value(m, f, c, k, l - 1);
   }
};
static void schedules(const Mesh& m, QuatModel* q)
{
   q->d_curr_to_scr_refine_sched.clear();
   for (int l = 0; l < m.h->getNumberOfLevels(); l++) q->d_curr_to_scr_refine_sched.push_back(q->d_curr_to_scr_refine_alg->createSchedule(m.level(l), l - 1, m.h, q->d_all_refine_patch_strategy));
}
CASE(scratch)
{
   Mesh m = themesh();
   auto q = model(m, cfg("qlen", 2));
   Fields f(m, q);
   q->initializeRefineCoarsenAlgorithms();
   schedules(m, q);
   R t = real("t");
   if (cfg("other", 0)) {      // a strategy of the caller's own
      QuatRefinePatchStrategy other("other", nullptr, q->d_phase_scratch_id, q->d_eta_scratch_id, q->d_quat_scratch_id, q->d_conc_scratch_id, q->d_temperature_scratch_id, 1, 0.);
      q->copyCurrentToScratch(m.h, t, &other);
   } else q->copyCurrentToScratch(m.h, t, q->d_all_refine_patch_strategy);
   for (size_t k = 0; k < f.cur.size(); k++) f.filled(m, int(k), t, "scratch ");
   intact(m);
}
CASE(tags)
{
   Mesh m = themesh();
   auto q = model(m, cfg("qlen", 2));
   Fields f(m, q);
   const int depth = cfg("quat", 0) ? cfg("qlen", 2) : 1;
   q->initializeRefineCoarsenAlgorithms();
   schedules(m, q);
   if (f.phase) { q->d_phase_diffs_id = outs(m, "pd", 1); q->d_phase_grad_cell_id = out(m, "pg", 0, NDIM); }
   if (f.eta) { q->d_eta_diffs_id = outs(m, "ed", 1); q->d_eta_grad_cell_id = out(m, "eg", 0, NDIM); }
   if (f.quat) { q->d_quat_diffs_id = outs(m, "qd", 1, depth); q->d_quat_grad_cell_id = out(m, "qg", 0, NDIM * depth); }
   q->d_tag_phase = f.phase && cfg("tag", 1) & 1; q->d_tag_eta = f.eta && cfg("tag", 1) & 2; q->d_tag_quat = f.quat && cfg("tag", 1) & 4;
   q->d_phase_threshold_untagged = real("tp", 0.01, 2.); q->d_eta_threshold_untagged = real("te", 0.01, 2.); q->d_quat_threshold_untagged = real("tq", 0.01, 2.);
   int tag = reg(m, std::make_shared<pdat::CellVariable<int> >(tbox::Dimension(NDIM), "tags", 1), cfg("tagghosts", 0));
   const int l = m.h->getFinestLevelNumber();
   R t = real("t");
   for (auto& p : *m.level(l)) std::dynamic_pointer_cast<pdat::CellData<int> >(p->getPatchData(tag))->fillAll(1);     // of an earlier call
   q->applyGradientDetector(m.h, l, t, tag, cfg("initial", 0), false);
   LevScope sc;
   setlev(l);
   for (auto& p : *m.level(l)) {
      auto g = std::dynamic_pointer_cast<pdat::CellData<int> >(p->getPatchData(tag));
      for (auto& i : p->getBox()) {
         B want(false);
         for (size_t n = 0; n < f.cur.size(); n++) {
            if (!(f.name[n] == "phi" && q->d_tag_phase) && !(f.name[n] == "eta" && q->d_tag_eta) && !(f.name[n] == "q" && q->d_tag_quat)) continue;
            R s = 0., tol = f.name[n] == "phi" ? q->d_phase_threshold_untagged : f.name[n] == "eta" ? q->d_eta_threshold_untagged : q->d_quat_threshold_untagged;
            auto d = cd(*p, f.scr[n]);
            const int used = f.name[n] == "q" ? d->getDepth() : 1;
            for (int k = 0; k < used; k++) for (int a = 0; a < NDIM; a++) {
               R diff = 0.5 * ((*d)(pdat::CellIndex(nb(i, a, 1)), k) - (*d)(pdat::CellIndex(nb(i, a, -1)), k));       // change of the field over one cell
               s = s + diff * diff;
            }
            want = want || ge(s, tol * tol);
         }
         int got = (*g)(pdat::CellIndex(i), 0);
         prove(got == 1 ? want : got == 0 ? !want : B(false), at("tag", i));
      }
   }
   for (size_t k = 0; k < f.cur.size(); k++) if (l == 0) f.filled(m, int(k), t, "scratch ");
   intact(m);
}
// a new fine level takes what the old one held, and the coarse level elsewhere
CASE(regrid)
{
   Mesh m = themesh();
   auto q = model(m, cfg("qlen", 2));
   const bool initial = cfg("initial", 0);
   m.h->maxlevels = cfg("levels", 1);
   q->d_verbosity->setAmrLevel(cfg("verbose", 0));
   Fields f(m, q);
   q->initializeRefineCoarsenAlgorithms();
   q->d_integrator = std::shared_ptr<QuatIntegrator>((QuatIntegrator*)raw_integrator, [](QuatIntegrator*) {});
   q->d_integrator_quat_only = q->d_integrator;
   q->d_grains = std::shared_ptr<Grains>((Grains*)raw_grains, [](Grains*) {});
   q->d_gridding_algorithm = std::make_shared<mesh::GriddingAlgorithm>();
   q->d_grain_diag_interval = q->d_grain_extend_interval = never();
   q->d_time = real("time");
   q->d_cycle = 7;
   q->d_tag_buffer_array = {1, 2};
   q->d_level_of_init_data = cfg("initlevel", 0);
   q->d_model_parameters.d_norderp_B = cfg("B", 0);
   q->d_model_parameters.d_free_energy_liquid = real("f_liquid"); q->d_model_parameters.d_free_energy_solid_A = real("f_a"); q->d_model_parameters.d_free_energy_solid_B = real("f_b");
   auto side1 = [&](const char* n, int d) { return reg(m, std::make_shared<pdat::SideVariable<double> >(tbox::Dimension(NDIM), n, hier::IntVector::getOne(tbox::Dimension(NDIM)), d), 1, false); };
   auto cell0 = [&](const char* n, int d = 1) { return reg(m, std::make_shared<pdat::CellVariable<double> >(tbox::Dimension(NDIM), n, d), 0, false); };
   q->d_weight_id = cell0("w"); q->d_weight_diagnostics_id = cell0("wd"); q->d_work_id = cell0("work"); q->d_f_l_id = cell0("fl"); q->d_f_a_id = cell0("fa"); q->d_f_b_id = cell0("fb"); q->d_cp_id = cell0("cp");
   q->d_phase_diffs_id = side1("pd", 1); q->d_phase_grad_cell_id = cell0("pg", NDIM); q->d_phase_mobility_id = cell0("pm");
   q->d_eta_diffs_id = side1("ed", 1); q->d_eta_grad_cell_id = cell0("eg", NDIM); q->d_eta_mobility_id = cell0("em");
   q->d_conc_eta_coupling_diffusion_id = side1("ced", 1); q->d_conc_phase_coupling_diffusion_id = side1("cpd", 1);
   for (auto& i : q->d_conc_pfm_diffusion_id) i = side1("dc", 1);
   int relax_cur = -1;
   if (f.quat) {
      f.put(m, "relaxed", f.qlen, q->d_quat_relax_id, q->d_quat_relax_scratch_id);
      relax_cur = int(f.cur.size()) - 1;
      q->d_quat_mobility_id = cell0("qm"); q->d_quat_grad_cell_id = cell0("qg", NDIM); q->d_quat_grad_side_id = side1("qgs", NDIM); q->d_quat_grad_modulus_id = cell0("qgm"); q->d_quat_diffs_id = side1("qd", 1);
   }
   std::vector<double> part;
   if (cfg("sub", 0)) { for (int a = 0; a < NDIM; a++) { part.push_back(a ? R(1.) : R(real("part", 0.05, 1.))); q->d_subdomain_diagnostics[a] = part[a]; } }
   const int last = m.h->getFinestLevelNumber();
   for (int l = 0; l < last; l++) q->AllocateLocalPatchData(m.level(l), 0., true);
   if (last == 0) q->AllocateLocalPatchData(m.level(0), 0., true);
   calls().clear();
   R t = real("t");
   Calls want;
   std::shared_ptr<hier::PatchLevel> old = last > 0 ? m.level(last) : nullptr;
   if (cfg("aware", 0)) {
      q->d_symmetry_aware = true;
      q->d_quat_symm_rotation_id = reg(m, std::make_shared<pdat::SideVariable<int> >(tbox::Dimension(NDIM), "rot", hier::IntVector::getOne(tbox::Dimension(NDIM)), 1), 1);
      schedules(m, q);
   }
   if (!initial) {
      q->Regrid(m.h);
      want.push_back({"regrid", {0., 2., 7., q->d_time}});
   }
   if (cfg("aware", 0)) {      // and its symmetries are those of the new mesh
      Calls some;
      for (auto& c : calls()) if (c.what != "rotations") some.push_back(c);
      size_t n = 0;
      VERIF_PATCHES(m, p) {
         while (n < calls().size() && calls()[n].what != "rotations") n++;
         prove(B(n < calls().size()), lab("symmetries of level", lev));
         if (n < calls().size()) for (int a = 0; a < NDIM; a++) prove(B(calls()[n].v[2 * a] == p->getBox().lower(a) && calls()[n].v[2 * a + 1] == p->getBox().upper(a)), lab("symmetries of level", lev));
         n++;
      }
      same(some, want, "order");
      return;
   }
   // the new level: covers the second half of the old one along y, and beyond
   if (last > 0) {
      Mesh n(m);
      auto nl = std::make_shared<hier::PatchLevel>(last, hier::IntVector(tbox::Dimension(NDIM), 2), m.geom);
      hier::Box b(old->getPatch(0)->getBox());
      const int shift = cfg("shift", 1);
      b.setLower(1, b.lower(1) + shift); b.setUpper(1, b.upper(1) + shift);
      auto pt = std::make_shared<hier::Patch>(b, 0, last);
      auto og = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(old->getPatch(0)->getPatchGeometry());
      std::vector<double> h(og->getDx(), og->getDx() + NDIM), xl(og->getXLower(), og->getXLower() + NDIM), xu(og->getXUpper(), og->getXUpper() + NDIM);
      xl[1] = xl[1] + shift * h[1]; xu[1] = xu[1] + shift * h[1];
      auto ng = std::make_shared<geom::CartesianPatchGeometry>(h, xl, xu);
      const hier::Box& dom = *old->getPhysicalDomain().begin();
      for (int a = 0; a < NDIM; a++) { ng->touch[a][0] = b.lower(a) == dom.lower(a); ng->touch[a][1] = b.upper(a) == dom.upper(a); }
      pt->setPatchGeometry(ng);
      nl->setRatioToLevelZero(old->getRatioToLevelZero());
      nl->add(pt);
      nl->domain = old->domain;
      m.h->replace(last, nl);
   }
   const bool keep = cfg("old", 1) && last > 0;
   q->initializeLevelData(m.h, last, t, false, initial, keep ? old : nullptr, true);
   want.push_back({initial ? "integrator level initial" : "integrator level", {double(last), t}});
   if (f.quat) want.push_back(want.back());
   want.push_back({"grains level", {double(last), t}});
   same(calls(), want, "order");
   {
      LevScope sc;
      setlev(last);
      for (size_t n = 0; n < f.cur.size(); n++) {
         if (last == 0 || (initial && int(n) == relax_cur)) continue;
         for (auto& p : *m.level(last)) for (auto& i : p->getBox()) for (int k = 0; k < cd(*p, f.cur[n])->getDepth(); k++) {
            R v;
            if (keep && old->getPatch(0)->getBox().contains(i)) v = (*cd(*old->getPatch(0), f.cur[n]))(pdat::CellIndex(i), k);
            else { hier::Index c(i); for (int a = 0; a < NDIM; a++) c[a] = i[a] / 2; v = f.value(m, int(n), c, k, last - 1); }
            eq((*cd(*p, f.cur[n]))(pdat::CellIndex(i), k), v, at("moved " + f.name[n], i, k));
         }
      }
   }
   if (!f.conc) {
      eqall(m, q->d_f_l_id, [&](const hier::Index&, int) { return real("f_liquid"); }, "free energy of the liquid");
      eqall(m, q->d_f_a_id, [&](const hier::Index&, int) { return real("f_a"); }, "free energy of phase A");
      if (cfg("B", 0)) eqall(m, q->d_f_b_id, [&](const hier::Index&, int) { return real("f_b"); }, "free energy of phase B");
   }
   // and the rest follows the new hierarchy
   calls().clear();
   want.clear();
   if (!part.empty()) generic(m, part);
   q->resetHierarchyConfiguration(m.h, 0, last);
   want.push_back({"integrator reset", {0., double(last)}});
   if (f.quat) want.push_back(want.back());
   same(calls(), want, "reset");
   eqall(m, q->d_weight_id, [&](const hier::Index& i, int) { return covered(m, i, lev) ? R(0.) : volume(m); }, "weight");
   if (!part.empty()) eqall(m, q->d_weight_diagnostics_id, [&](const hier::Index& i, int) { return covered(m, i, lev) ? R(0.) : ite(inside(m, i, part), volume(m), 0.); }, "weight of diagnostics");
   q->copyCurrentToScratch(m.h, t, q->d_all_refine_patch_strategy);
   for (size_t n = 0; n < f.cur.size(); n++) if (int(n) != relax_cur) f.filled(m, int(n), t, "scratch ");
}
// ---------------------------------------------------------------- mobilities
static std::shared_ptr<CD> first(const Mesh& m, int id) { return cd(m.patch(0), id); }
CASE(mobility)
{
   Mesh m = themesh();
   auto q = model(m);
   auto& par = q->d_model_parameters;
   R M = real("M", 0.1, 5.), Mmin = real("Mmin", 0.01, 5.), q0 = real("q0", 0., 1000.), Mq = real("Mq", 0.1, 5.);
   par.d_phase_mobility = real("Mp", 0.1, 5.); par.d_q0_phase_mobility = real("q0p", 0., 1000.);
   par.d_eta_mobility = M; par.d_min_eta_mobility = Mmin; par.d_q0_eta_mobility = cfg("flat", 0) ? R(0.) : q0;
   if (cfg("flat", 0) == 1) par.d_min_eta_mobility = M;
   const int g = cfg("g", 1);
   int T = cell(m, "T", g, 1, R(200.), R(2000.)), phi = cell(m, "phi", 1, 1, R(-0.5), R(1.5)), mob = out(m, "mob", cfg("gm", 0));
   q->d_temperature_id = T; q->d_phase_scratch_id = phi; q->d_phase_id = phi; q->d_phase_mobility_id = q->d_eta_mobility_id = mob;
   Ref t{m, T}, p{m, phi};
   const R Rgas = GASCONSTANT_R_JPKPMOL;
   q->computePhaseMobilityPatch(m.patch().getBox(), first(m, T), first(m, mob));
   for (auto& i : m.patch().getBox()) eq((*first(m, mob))(pdat::CellIndex(i), 0), par.d_phase_mobility * exp(-par.d_q0_phase_mobility / (t(i) * Rgas)), at("phase mobility", i));
   auto eta = [&](const hier::Index& i, int) {
      R v = M * exp(-par.d_q0_eta_mobility / (t(i) * Rgas)), h = INTERP_FUNC(p(i), "p");
      return cfg("flat", 0) == 1 ? M : R(v + h * (par.d_min_eta_mobility - v));
   };
   int a = cfg("default", 0) ? -1 : phi, b = cfg("default", 0) ? -1 : mob;
   q->computeEtaMobility(m.h, a, b, 1., QuatModel::FORCE);
   prove(B(a == phi && b == mob), "fields used");
   eqall(m, mob, eta, "mobility of the third phase");
   fill(m, mob, [&](const hier::Index& i, int) { return real(at("old", i)); });
   q->computeEtaMobility(m.h, a, b, 1., QuatModel::CACHE);         // known for that time
   eqall(m, mob, [&](const hier::Index& i, int) { return real(at("old", i)); }, "cached");
   q->computeEtaMobility(m.h, a, b, 2., QuatModel::CACHE);
   eqall(m, mob, eta, "at a later time");
   q->computeUniformPhaseMobility(m.h, a, b, 3., QuatModel::FORCE);
   eqall(m, mob, [&](const hier::Index&, int) { return real("Mp", 0.1, 5.); }, "uniform mobility");
}
CASE(qmobility)
{
   Mesh m = themesh();
   auto q = model(m, 2);
   auto& par = q->d_model_parameters;
   const char* types[] = {"pbg", "exp", "inverse"};
   const std::string type = types[cfg("type", 0)];
   par.d_H_parameter = 1.;
   par.d_quat_mobility = real("M", 0.1, 5.); par.d_min_quat_mobility = real("Mmin", 0.01, 0.09); par.d_max_quat_mobility = real("Mmax", 5., 50.); par.d_exp_scale_quat_mobility = real("scale", 0.5, 5.);
   par.d_quat_mobility_func_type = type;
   int phi = cell(m, "phi", 1, 1, R(0.01), R(0.99)), mob = out(m, "mob", cfg("gm", 0)), der = out(m, "der");
   q->d_phase_scratch_id = phi; q->d_quat_mobility_id = mob;
   R alt = cfg("type", 0) == 1 ? real("scale", 0.5, 5.) : cfg("type", 0) == 2 ? real("Mmax", 5., 50.) : R(0.);
   int a = -1, b = -1;
   const int zero = 0;
   q->computeQuatMobility(m.h, a, b, 1., QuatModel::FORCE);
   q->computeQuatMobilityDeriv(m.h, a, der, 1., QuatModel::FORCE);
   prove(B(a == phi && b == mob), "fields used");
   Ref p{m, phi};
   VERIF_PATCHES(m, pt) for (auto& i : pt->getBox()) {
      double v = p(i), r = 0., d = 0.;
#if NDIM == 3
      QUATMOBILITY(zero, zero, zero, zero, zero, zero, &v, zero, &r, zero, par.d_quat_mobility, par.d_min_quat_mobility, type.c_str(), alt);
      QUATMOBILITYDERIV(zero, zero, zero, zero, zero, zero, &v, zero, &d, zero, par.d_quat_mobility, par.d_min_quat_mobility, type.c_str(), alt);
#else
      QUATMOBILITY(zero, zero, zero, zero, &v, zero, &r, zero, par.d_quat_mobility, par.d_min_quat_mobility, type.c_str(), alt);
      QUATMOBILITYDERIV(zero, zero, zero, zero, &v, zero, &d, zero, par.d_quat_mobility, par.d_min_quat_mobility, type.c_str(), alt);
#endif
      eq((*cd(*pt, mob))(pdat::CellIndex(i), 0), r, at("mobility of orientation", i));
      eq((*cd(*pt, der))(pdat::CellIndex(i), 0), d, at("derivative of the mobility", i));
   }
}
// ---------------------------------------------------------------- orientation
CASE(normalize)
{
   Mesh m = themesh();
   const int n = cfg("qlen", 4), g = cfg("g", 1);
   auto q = model(m, n);
   int id = cell(m, "q", g, n);
   auto given = [&](const hier::Index& i, int k) { return real(at("q", i, n > 1 ? k : -1)); };
   auto norm2 = [&](const hier::Index& i) { R s = 0.; for (int k = 0; k < n; k++) s = s + given(i, k) * given(i, k); return s; };
   VERIF_PATCHES(m, p) { hier::Box b(cd(*p, id)->getGhostBox()); for (auto& i : b) assume(gt(norm2(i), R(0.01))); }
   if (cfg("none", 0)) { q->normalizeQuat(m.h, -1); eqall(m, id, given, "left alone", g); return; }
   q->normalizeQuat(m.h, id);
   eqall(m, id, [&](const hier::Index& i, int k) { return n == 1 ? given(i, k) : R(given(i, k) / sqrt(norm2(i))); }, "unit quaternion", g);
}
// kernels that pick symmetries are checked on their own: here stand-ins that show what they were given
extern "C" void QUAT_SYMM_ROTATION(const int& lo0, const int& hi0, const int& lo1, const int& hi1,
#if NDIM == 3
   const int& lo2, const int& hi2,
#endif
   const double* q, const int& ngq, const int& depth, const int* rx, const int* ry,
#if NDIM == 3
   const int* rz,
#endif
   const int& ngrot)
{
   call("rotations", {double(lo0), double(hi0), double(lo1), double(hi1),
#if NDIM == 3
      double(lo2), double(hi2),
#endif
      q[0], q[1], double(ngq), double(depth), double(ngrot)});
   *const_cast<int*>(rx) = 3; *const_cast<int*>(ry) = 5;
   int w[3] = {hi0 - lo0 + 1 + 2 * ngrot, hi1 - lo1 + 1 + 2 * ngrot, 1};
#if NDIM == 3
   w[2] = hi2 - lo2 + 1 + 2 * ngrot;
   for (int n = 0; n < w[0] * w[1] * (w[2] + 1); n++) const_cast<int*>(rz)[n] = 3000 + n;
#endif
   for (int n = 0; n < (w[0] + 1) * w[1] * w[2]; n++) const_cast<int*>(rx)[n] = 1000 + n;
   for (int n = 0; n < w[0] * (w[1] + 1) * w[2]; n++) const_cast<int*>(ry)[n] = 2000 + n;
}
extern "C" void QUAT_FUNDAMENTAL(const int& lo0, const int& hi0, const int& lo1, const int& hi1,
#if NDIM == 3
   const int& lo2, const int& hi2,
#endif
   const double* q, const int& a0, const int& b0, const int& a1, const int& b1,
#if NDIM == 3
   const int& a2, const int& b2,
#endif
   const int& depth)
{
   call("fundamental", {double(lo0), double(hi0), double(lo1), double(hi1),
#if NDIM == 3
      double(lo2), double(hi2),
#endif
      q[0], double(a0), double(b0), double(a1), double(b1),
#if NDIM == 3
      double(a2), double(b2),
#endif
      double(depth)});
}
CASE(symmetry)
{
   Mesh m = themesh();
   const int n = cfg("qlen", 2);
   auto q = model(m, n);
   Fields f(m, q);
   q->initializeRefineCoarsenAlgorithms();
   schedules(m, q);
   q->d_model_parameters.d_extra_visit_output = cfg("visit", 1);
   q->d_time = real("t");
   const int g = cfg("grot", 1);
   q->d_quat_symm_rotation_id = reg(m, std::make_shared<pdat::SideVariable<int> >(tbox::Dimension(NDIM), "rot", hier::IntVector::getOne(tbox::Dimension(NDIM)), 1), g);
   q->d_quat_symm_rotation_cell_id = reg(m, std::make_shared<pdat::CellVariable<int> >(tbox::Dimension(NDIM), "rotcell", NDIM), 0);
   calls().clear();
   q->computeSymmetryRotations(m.h, real("another time"));
   Calls want;
   size_t qi = 0;
   while (f.name[qi] != "q") qi++;
   f.filled(m, int(qi), q->d_time, "scratch ");
   VERIF_PATCHES(m, p) {
      std::vector<double> v;
      for (int a = 0; a < NDIM; a++) { v.push_back(double(p->getBox().lower(a))); v.push_back(double(p->getBox().upper(a))); }
      auto d = cd(*p, f.scr[qi]);
      hier::Index i(d->getGhostBox().lower());
      v.push_back(d->getPointer()[0]); v.push_back(d->getPointer()[1]);
      v.push_back(1.); v.push_back(double(n)); v.push_back(double(g));
      want.push_back({"rotations", v});
      auto r = std::dynamic_pointer_cast<pdat::CellData<int> >(p->getPatchData(q->d_quat_symm_rotation_cell_id));
      auto s = std::dynamic_pointer_cast<pdat::SideData<int> >(p->getPatchData(q->d_quat_symm_rotation_id));
      for (int a = 0; a < NDIM; a++) {
         hier::Box sb(p->getBox());
         sb.grow(hier::IntVector(tbox::Dimension(NDIM), g));
         int stride[3] = {1, sb.numberCells(0) + (a == 0), 0};
         stride[2] = stride[1] * (sb.numberCells(1) + (a == 1));
         for (auto& c : p->getBox()) {
            int k = 1000 * (a + 1);
            for (int x = 0; x < NDIM; x++) k += (c[x] - sb.lower(x)) * stride[x];
            prove(B(s->getArrayData(a)(c, 0) == k), at(lab("rotation", a), c));
            if (cfg("visit", 1)) prove(B((*r)(pdat::CellIndex(c), a) == k), at(lab("rotation shown", a), c));
         }
      }
   }
   same(calls(), want, "rotations");
   calls().clear();
   want.clear();
   q->makeQuatFundamental(m.h, real("another time"));
   VERIF_PATCHES(m, p) {
      std::vector<double> v;
      for (int a = 0; a < NDIM; a++) { v.push_back(double(p->getBox().lower(a))); v.push_back(double(p->getBox().upper(a))); }
      auto d = cd(*p, f.cur[qi]);
      v.push_back(d->getPointer()[0]);
      for (int a = 0; a < NDIM; a++) { v.push_back(double(d->getGhostBox().lower(a))); v.push_back(double(d->getGhostBox().upper(a))); }
      v.push_back(double(n));
      want.push_back({"fundamental", v});
   }
   same(calls(), want, "fundamental");
}

// ---------------------------------------------------------------- one step, and the energies reported
class Heat : public HeatCapacityStrategy
{
 public:
   void setCurrentValue(std::shared_ptr<hier::PatchHierarchy>) { call("heat capacity"); }
};
CASE(advance)
{
   Mesh m = themesh();
   auto q = model(m, cfg("qlen", 2));
   Fields f(m, q);
   q->initializeRefineCoarsenAlgorithms();
   schedules(m, q);
   const bool B3 = cfg("B", 0), calphad = f.conc && cfg("calphad", 1);
   q->d_model_parameters.d_conc_model = calphad ? QP::ConcModel::CALPHAD : QP::ConcModel::QUADRATIC;
   q->d_model_parameters.d_norderp_B = B3;
   q->d_integrator = std::shared_ptr<QuatIntegrator>((QuatIntegrator*)raw_integrator, [](QuatIntegrator*) {});
   q->d_heat_capacity_strategy = new Heat;
   q->d_grain_extend_interval = q->d_test_interval = never();
   const int every = cfg("fundamental", 0), cycle = cfg("cycle", 4);
   auto db = std::make_shared<tbox::Database>();
   db->putDatabase("F")->putInteger("interval", every);
   q->d_fundamental_interval = std::make_shared<EventInterval>(db, "F", 0., "step");
   q->d_symmetry_aware = cfg("aware", 0);
   q->d_quat_symm_rotation_id = reg(m, std::make_shared<pdat::SideVariable<int> >(tbox::Dimension(NDIM), "rot", hier::IntVector::getOne(tbox::Dimension(NDIM)), 1), 1);
   int cl = cell(m, "cl", 0, f.nc), ca = cell(m, "ca", 0, f.nc), cb = cell(m, "cb", 0, f.nc), rl = cell(m, "rl", 0, f.nc), ra = cell(m, "ra", 0, f.nc), rb = cell(m, "rb", 0, f.nc);
   q->d_conc_l_id = cl; q->d_conc_a_id = ca; q->d_conc_b_id = cb; q->d_conc_l_ref_id = rl; q->d_conc_a_ref_id = ra; q->d_conc_b_ref_id = rb;
   R t = real("t", 0., 1000.), dt = real("dt", 0.1, 1.);
   step_taken = dt;
   q->d_time = t; q->d_cycle = cycle;
   calls().clear();
   R got = q->Advance();
   eq(got, dt, "step");
   eq(q->d_time, t + dt, "time after the step");
   std::vector<std::string> want;
   if (f.quat && cfg("aware", 0) && every > 0 && cycle % every == 0) {
      VERIF_PATCHES(m, p) want.push_back("fundamental");
      VERIF_PATCHES(m, p) want.push_back("rotations");
   }
   want.push_back("integrator advance");
   if (f.heat) want.push_back("heat capacity");
   bool ok = want.size() == calls().size();
   for (size_t i = 0; ok && i < want.size(); i++) ok = calls()[i].what == want[i];
   std::string was;
   for (auto& c : calls()) was += " " + c.what;
   prove(B(ok), "order:" + was);
   auto ref = [&](int id, const char* from, const char* to, bool moved) { eqall(m, id, [&](const hier::Index& i, int k) { return real(at(moved ? from : to, i, f.nc > 1 ? k : -1)); }, std::string("reference ") + to); };
   ref(rl, "cl", "rl", calphad); ref(ra, "ca", "ra", calphad); ref(rb, "cb", "rb", calphad && B3);
   intact(m);
}
void FreeEnergyStrategy::computeFreeEnergyLiquid(const PH h, const int t, const int id, const bool gp) { call(gp ? "liquid grand potential" : "liquid", {double(t), double(id)}); }
void FreeEnergyStrategy::computeFreeEnergySolidA(const PH h, const int t, const int id, const bool gp) { call(gp ? "A grand potential" : "A", {double(t), double(id)}); }
void FreeEnergyStrategy::computeFreeEnergySolidB(const PH h, const int t, const int id, const bool gp) { call(gp ? "B grand potential" : "B", {double(t), double(id)}); }
PhaseConcentrationsStrategy::PhaseConcentrationsStrategy(const int, const int, const int, const bool) {}
void PhaseConcentrationsStrategy::computePhaseConcentrations(const PH, const int t, const int p, const int e, const int c) { call("phase concentrations", {double(t), double(p), double(e), double(c)}); }
void PartitionCoefficientStrategy::evaluate(const PH) { call("partition"); }
void EnergyEvaluationStrategy::evaluateEnergy(const PH h, const double time, double& e, double& p, double& o, double& qi, double& w, double& f, const bool gp)
{
   call(gp ? "evaluate grand potential" : "evaluate", {time});
   e = real("total"); p = real("phase energy"); o = real("orient energy"); qi = real("qint energy"); w = real("well energy"); f = real("free energy");
}
class Phases : public PhaseConcentrationsStrategy
{
 public:
   Phases() : PhaseConcentrationsStrategy(0, 0, 0, false) {}
   int computePhaseConcentrationsOnPatch(std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<hier::Patch>) { return 0; }
};
class Partition : public PartitionCoefficientStrategy
{
 public:
   Partition() : PartitionCoefficientStrategy(0, 0, 0) {}
   void evaluate(hier::Patch&, std::shared_ptr<CD>, std::shared_ptr<CD>, std::shared_ptr<CD>) {}
};
class Evaluate : public EnergyEvaluationStrategy
{
 public:
   explicit Evaluate(const QuatModelParameters& p) : EnergyEvaluationStrategy(p, -1) {}
   void evaluateEnergy(std::shared_ptr<hier::Patch>, const double, double&, double&, double&, double&, double&, double&, const bool) {}
};
class Grad : public QuatGradStrategy
{
 public:
   bool isSymmetryAware() { return false; }
   typedef std::shared_ptr<hier::PatchLevel> PL;
   void computeDiffs(const PL, int&, int&, const double) {}
   void computeGradCell(const PL, int&, int&, const double) {}
   void computeGradSide(const PL, int&, int&, const double) {}
   void computeDiffs(const PH, int& q, int& d, const double t, const CACHE_TYPE c) { d = d < 0 ? 61 : d; call(c == FORCE ? "diffs" : "cached diffs", {double(q), double(d), t}); }
   void computeGradCell(const PH, int&, int&, const double, const CACHE_TYPE) {}
   void computeGradSide(const PH, int& d, int& g, const double t, const CACHE_TYPE c) { call(c == FORCE ? "gradient" : "cached gradient", {double(d), double(g), t}); }
   void computeGradModulus(const PH, int&, int&, const double, const CACHE_TYPE) {}
   void computeGradModulusFromSides(const PH, int&, int&, const double, const CACHE_TYPE) {}
};
class Binary : public ConcFreeEnergyStrategy
{
 public:
   int asked = 0;
   std::vector<double> given[2];
   double temperature;
   bool computeCeqT(const double T, const Thermo4PFM::PhaseIndex a, const Thermo4PFM::PhaseIndex b, double* c)
   {
      prove(B(a == Thermo4PFM::PhaseIndex::phaseL && b == Thermo4PFM::PhaseIndex::phaseA), "phases in equilibrium");
      temperature = T;
      int n = asked++;
      if (n > 1) return false;
      given[n] = {c[0], c[1], c[2], c[3]};
      if (n == 0 && cfg("fail", 0)) return false;
      for (int k = 0; k < 4; k++) c[k] = n == 0 && k == cfg("out", -1) ? R(cfg("high", 1) ? 1.5 : -0.5) : R(real(lab(lab("ceq", n), k), 0., 1.));
      return true;
   }
   void computeDerivFreeEnergyLiquid(hier::Patch&, const int, const int) {}
   void computeDerivFreeEnergySolidA(hier::Patch&, const int, const int) {}
   void computeDerivFreeEnergySolidB(hier::Patch&, const int, const int) {}
   void computeFreeEnergyLiquid(hier::Patch&, const int, const int, const bool) {}
   void computeFreeEnergySolidA(hier::Patch&, const int, const int, const bool) {}
   void computeFreeEnergySolidB(hier::Patch&, const int, const int, const bool) {}
   void addDrivingForce(const double, hier::Patch&, const int, const int, const int, const int, const int, const int, const int, const int) {}
   void computeSecondDerivativeEnergyPhaseL(const double, const std::vector<double>&, std::vector<double>&, const bool = true) {}
   void computeSecondDerivativeEnergyPhaseA(const double, const std::vector<double>&, std::vector<double>&, const bool = true) {}
   void preRunDiagnostics(const double) {}
};
void ConcFreeEnergyStrategy::computeDerivFreeEnergyLiquid(const PH, const int, const int) {}
void ConcFreeEnergyStrategy::computeDerivFreeEnergySolidA(const PH, const int, const int) {}
void ConcFreeEnergyStrategy::computeDerivFreeEnergySolidB(const PH, const int, const int) {}
void FreeEnergyStrategy::computeDrivingForce(const double, const PH, const int, const int, const int, const int, const int, const int, const int, const int) {}
CASE(energies)
{
   Mesh m = themesh();
   auto q = model(m, cfg("qlen", 2));
   Fields f(m, q);
   auto& par = q->d_model_parameters;
   q->initializeRefineCoarsenAlgorithms();
   schedules(m, q);
   const bool gp = cfg("gp", 0), three = cfg("three", 0), part = cfg("partition", 0), model = cfg("model", 1);
   par.d_with_three_phases = three; par.d_norderp_B = cfg("B", 0); par.d_phase_concentration_model = part ? "partition" : "kks"; par.d_conc_rhs_strategy = QP::ConcRHSstrategy::EBS;
   par.d_conc_model = cfg("needs", 1) ? QP::ConcModel::CALPHAD : QP::ConcModel::CahnHilliard;
   par.d_H_parameter = f.quat ? cfg("H", 1) : -1;
   q->d_weight_id = cell(m, "w", 0); q->d_quat_grad_side_id = 62; q->d_f_l_id = 63; q->d_f_a_id = 64; q->d_f_b_id = 65;
   q->d_quat_grad_strategy = new Grad;
   q->d_phase_conc_strategy = std::make_shared<Phases>();
   q->d_partition_coeff_strategy = new Partition;
   q->d_energy_eval_strategy = std::make_shared<Evaluate>(par);
   if (model) q->d_free_energy_strategy = std::make_shared<Binary>();
   R t = real("t"), v[7];
   for (auto& x : v) x = real("junk");
   calls().clear();
   q->evaluateEnergy(m.h, t, v[0], v[1], v[2], v[3], v[4], v[5], v[6], gp);
   Calls got = calls(), want;
   if (f.quat && cfg("H", 1)) { want.push_back({"diffs", {double(q->d_quat_scratch_id), 61., t}}); want.push_back({"gradient", {61., 62., t}}); }
   if (f.conc && part) want.push_back({"partition", {}});
   if (f.conc && cfg("needs", 1)) want.push_back({"phase concentrations", {double(q->d_temperature_scratch_id), double(q->d_phase_scratch_id), double(q->d_eta_scratch_id), double(q->d_conc_scratch_id)}});
   const std::string pot = gp ? " grand potential" : "";
   if (model) {
      want.push_back({"liquid" + pot, {double(q->d_temperature_id), 63.}});
      want.push_back({"A" + pot, {double(q->d_temperature_id), 64.}});
      if (cfg("B", 0) || three) want.push_back({"B" + pot, {double(q->d_temperature_id), 65.}});
   }
   const bool total = !three && f.phase;
   if (total) want.push_back({"evaluate" + pot, {t}});
   same(got, want, "order");
   const char* n[] = {"total", "phase energy", "", "orient energy", "qint energy", "well energy", "free energy"};
   for (int k = 0; k < 7; k++) eq(v[k], total && k != 2 ? R(real(n[k])) : R(0.), std::string("energy ") + (k == 2 ? "of the third phase" : n[k]));
   for (size_t k = 0; k < f.cur.size(); k++) f.filled(m, int(k), t, "scratch ");
}
// concentrations in equilibrium, looked for between the extremes of the field
CASE(equilibrium)
{
   Mesh m = themesh();
   auto q = model(m);
   auto s = std::make_shared<Binary>();
   q->d_free_energy_strategy = s;
   const int nc = cfg("nc", 1);
   q->d_ncompositions = nc;
   q->d_model_parameters.d_ncompositions = nc;
   q->d_conc_id = cell(m, "c", 0, nc, R(0.), R(1.));
   q->d_model_parameters.d_initc_in_phase.clear();
   if (cfg("known", 0)) for (int k = 0; k < 2 * nc; k++) q->d_model_parameters.d_initc_in_phase.push_back(real(lab("known", k), 0., 1.));
   R T = real("T", 200., 2000.), lo, hi;
   bool some = false;
   LevScope sc;
   for (int l = 0; l < m.h->getNumberOfLevels(); l++) { setlev(l); for (auto& p : *m.level(l)) for (auto& i : p->getBox()) for (int k = 0; k < nc; k++) { R c = real(at("c", i, nc > 1 ? k : -1), 0., 1.); lo = some ? vmin(lo, c) : c; hi = some ? vmax(hi, c) : c; some = true; } }
   R dc = hi - lo, a = vmax(0.25 * lo, lo - 0.2 * dc), b = vmin(1. - 0.25 * (1. - hi), hi + 0.2 * dc);
   assume(gt(vabs(b - a - 1e-8), R(1e-9)));
   R x = ite(le(b - a, R(1e-8)), vmax(0., a - 0.1), a), y = ite(le(b - a, R(1e-8)), vmin(1., a + 0.1), b);
   double ceq[4] = {-1., -1., -1., -1.};
   bool found = q->computeCeq(T, Thermo4PFM::PhaseIndex::phaseL, Thermo4PFM::PhaseIndex::phaseA, ceq);
   const bool again = cfg("fail", 0) || cfg("out", -1) == 0 || cfg("out", -1) == 1;
   prove(B(found), "found");
   prove(B(s->asked == (again ? 2 : 1)), "tries");
   eq(s->temperature, T, "temperature");
   R first[4] = {x, y, x, y};
   if (cfg("known", 0)) for (int k = 0; k < 2 * nc; k++) first[k] = real(lab("known", k), 0., 1.);
   for (int k = 0; k < 4; k++) eq(s->given[0][k], first[k], lab("starting point", k));
   if (again) { eq(s->given[1][0], y, "second starting point"); eq(s->given[1][1], x, "second starting point"); }
   for (int k = 0; k < 4; k++) eq(ceq[k], real(lab(lab("ceq", again ? 1 : 0), k), 0., 1.), lab("equilibrium", k));
}
// everything that evolves is in the restart files
CASE(saved)
{
   Mesh m = themesh();
   auto q = model(m, cfg("qlen", 2));
   Fields f(m, q);
   auto& par = q->d_model_parameters;
   par.d_conc_model = cfg("needs", 1) ? QP::ConcModel::CALPHAD : QP::ConcModel::INDEPENDENT;
   q->d_conc_l_id = 71; q->d_conc_a_id = 72; q->d_conc_b_id = cfg("B", 0) ? 73 : -1;
   auto& ids = hier::PatchDataRestartManager::getManager()->ids;
   ids.clear();
   q->registerPatchDataForRestart();
   for (size_t k = 0; k < f.cur.size(); k++) prove(B(ids.count(f.cur[k]) == 1), "saved " + f.name[k]);
   if (f.conc && cfg("needs", 1)) for (int id : {71, 72, 73}) if (id < 73 || cfg("B", 0)) prove(B(ids.count(id) == 1), lab("saved concentration of phase", id - 71));
   for (int id : ids) prove(B(id >= 0), "only fields that exist");
   auto db = std::make_shared<tbox::Database>();
   q->d_time = real("t"); q->d_cycle = 9; q->d_previous_timestep = real("dt"); q->d_end_time = real("end"); q->d_start_time = real("start"); q->d_max_cycles = 21; q->d_amr_enabled = true;
   q->putToRestart(db);
   eq(db->getDouble("time"), real("t"), "time");
   prove(B(db->getInteger("cycle") == 9), "cycle");
   eq(db->getDouble("previous_timestep"), real("dt"), "step");
}
// what is shown of side fields: the average of the two sides of a cell
CASE(shown)
{
   Mesh m = themesh();
   auto q = model(m);
   auto& par = q->d_model_parameters;
   const bool ebs = cfg("ebs", 1), B3 = cfg("B", 1), on = cfg("visit", 1);
   par.d_extra_visit_output = on;
   par.d_conc_rhs_strategy = ebs ? QP::ConcRHSstrategy::EBS : QP::ConcRHSstrategy::KKS;
   int sl = side(m, "dl", cfg("g", 0)), sa = side(m, "da", cfg("g", 0)), sb = side(m, "db", cfg("g", 0)), s0 = side(m, "d0", cfg("g", 0));
   int vl = cell(m, "vl", 0), va = cell(m, "va", 0), vb = cell(m, "vb", 0), v0 = cell(m, "v0", 0);
   q->d_conc_pfm_diffusion_l_id = sl; q->d_conc_pfm_diffusion_a_id = sa; q->d_conc_pfm_diffusion_b_id = B3 ? sb : -1; q->d_conc_pfm_diffusion_id = {s0};
   q->d_visit_conc_pfm_diffusion_l_id = vl; q->d_visit_conc_pfm_diffusion_a_id = va; q->d_visit_conc_pfm_diffusion_b_id = vb; q->d_visit_conc_pfm_diffusion_id = v0;
   q->setDiffusionVisit(m.h);
   auto check = [&](int v, int s, const char* old, bool set) {
      Ref d{m, s};
      eqall(m, v, [&](const hier::Index& i, int) {
         if (!set) return R(real(at(old, i)));
         R sum = 0.;
         for (int a = 0; a < NDIM; a++) sum = sum + d(a, i, 0) + d(a, nb(i, a, 1), 0);
         return R(sum / double(2 * NDIM));
      }, std::string("shown ") + old);
   };
   check(vl, sl, "vl", on && ebs); check(va, sa, "va", on && ebs); check(vb, sb, "vb", on && ebs && B3); check(v0, s0, "v0", on && !ebs);
   intact(m);
}

// ---------------------------------------------------------------- differences and gradients over the hierarchy
static R dif(const Ref& f, const hier::Index& i, int a, int k = 0) { return f(i, k) - f(nb(i, a, -1), k); }
static R grads(const Mesh& m, const Ref& f, int a, const hier::Index& i, int b, int k = 0)
{
   if (a == b) return dif(f, i, a, k) / m.dx[a];
   hier::Index j = nb(i, a, -1);
   return (f(nb(i, b, 1), k) - f(nb(i, b, -1), k) + f(nb(j, b, 1), k) - f(nb(j, b, -1), k)) / (4. * m.dx[b]);
}
static R gradc(const Mesh& m, const Ref& f, const hier::Index& i, int b, int k = 0)
{
   return (f(nb(i, b, 1), k) - f(nb(i, b, -1), k)) / (2. * m.dx[b]);
}
CASE(phasegrad)
{
   Mesh m = themesh();
   auto q = model(m);
   const bool visit = cfg("visit", 0), dflt = cfg("default", 0), lvl = cfg("level", 0);
   q->d_model_parameters.d_extra_visit_output = visit;
   int f = cell(m, "phi", 2), e = cell(m, "eta", 2), v = cell(m, "var", 2);
   int fd = outs(m, "fd", 1), ed = outs(m, "ed", 1), vd = outs(m, "vd", 1), shown = out(m, "shown", 0, cfg("depth", 1) * 1);
   int fg = out(m, "fg", 0, NDIM), vg = out(m, "vg", 0, NDIM), vs = outs(m, "vs", 0, NDIM);
   if (visit) shown = out(m, "shownd", 0, NDIM);
   q->d_phase_scratch_id = f; q->d_phase_diffs_id = fd; q->d_eta_scratch_id = e; q->d_eta_diffs_id = ed; q->d_phase_diffs_cell_id = shown; q->d_phase_grad_cell_id = fg;
   int a = dflt ? -1 : f, b = dflt ? -1 : fd, c = dflt ? -1 : e, d = dflt ? -1 : ed, g = dflt ? -1 : fg;
   R t = real("t");
   q->computePhaseDiffs(m.h, a, b, t, QuatModel::FORCE);
   prove(B(a == f && b == fd), "fields of the phase");
   q->computeEtaDiffs(m.h, c, d, t, QuatModel::FORCE);
   prove(B(c == e && d == ed), "fields of eta");
   q->computeVarDiffs(m.h, v, vd, t, QuatModel::FORCE);
   int b2 = dflt ? -1 : fd;
   if (lvl) for (int l = 0; l < m.h->getNumberOfLevels(); l++) { int x = b2, y = g; q->computePhaseGradCell(m.level(l), x, y, t); prove(B(x == fd && y == fg), "fields of the gradient"); }
   else { q->computePhaseGradCell(m.h, b2, g, t, QuatModel::FORCE); prove(B(b2 == fd && g == fg), "fields of the gradient"); }
   q->computeVarGradCell(m.h, vd, vg, t, QuatModel::FORCE);
   q->computeVarGradSide(m.h, vd, vs, t, QuatModel::FORCE);
   Ref F{m, f}, E{m, e}, V{m, v};
   eqalls(m, fd, [&](int a, const hier::Index& i, int) { return dif(F, i, a); }, "phase difference");
   eqalls(m, ed, [&](int a, const hier::Index& i, int) { return dif(E, i, a); }, "eta difference");
   eqalls(m, vd, [&](int a, const hier::Index& i, int) { return dif(V, i, a); }, "difference");
   if (visit) eqall(m, shown, [&](const hier::Index& i, int a) { return dif(F, i, a); }, "difference shown");
   eqall(m, fg, [&](const hier::Index& i, int b) { return gradc(m, F, i, b); }, "phase gradient");
   eqall(m, vg, [&](const hier::Index& i, int b) { return gradc(m, V, i, b); }, "gradient");
   eqalls(m, vs, [&](int a, const hier::Index& i, int b) { return grads(m, V, a, i, b); }, "gradient at sides");
   intact(m);
}
// orientations, through the strategy the integrator and the energies use; with symmetry, the differences are those of the kernels
// (decided on their own)
CASE(quatgrad)
{
   Mesh m = themesh();
   const int n = cfg("qlen", 2);
   auto q = model(m, n);
   const bool aware = cfg("aware", 0), visit = cfg("visit", 0), dflt = cfg("default", 0), iso = cfg("iso", 0), lvl = cfg("level", 0);
   q->d_symmetry_aware = aware;
   q->d_model_parameters.d_extra_visit_output = visit;
   q->d_model_parameters.d_stencil_type = iso ? "isotropic" : "normal";
   auto modp = std::make_shared<QuatGradModulusStrategy>(n);
   auto& mod = *modp;
   q->d_quat_grad_modulus_strategy = modp;
   const int nd = aware ? 2 * n : n;
   int f = cell(m, "q", 2, n), d = outs(m, "d", 1, nd), gc = out(m, "gc", 0, NDIM * n), gs = outs(m, "gs", 0, NDIM * n), mc = out(m, "mc", 0), ms = out(m, "ms", 0);
   int D = outs(m, "D", 1, nd), GC = out(m, "GC", 0, NDIM * n), GS = outs(m, "GS", 0, NDIM * n);
   int s1 = out(m, "s1", 0, NDIM * n), s2 = out(m, "s2", 0, NDIM * n);
   q->d_quat_scratch_id = f; q->d_quat_diffs_id = d; q->d_quat_grad_cell_id = gc; q->d_quat_grad_side_id = gs; q->d_quat_grad_modulus_id = mc;
   q->d_quat_diffs_cell_id = s1; q->d_quat_nonsymm_diffs_cell_id = s2;
   q->d_quat_symm_rotation_id = reg(m, std::make_shared<pdat::SideVariable<int> >(tbox::Dimension(NDIM), "rot", hier::IntVector::getOne(tbox::Dimension(NDIM)), 1), 1);
   int k = 0;
   VERIF_PATCHES(m, p) {
      auto r = std::dynamic_pointer_cast<pdat::SideData<int> >(p->getPatchData(q->d_quat_symm_rotation_id));
      for (int a = 0; a < NDIM; a++) for (auto& i : r->getArrayData(a).getBox()) r->getArrayData(a)(i, 0) = 1 + (7 * k++ + cfg("seed", 0)) % (n == 4 ? 24 : 4);
   }
   SimpleQuatGradStrategy st(q);
   prove(B(st.isSymmetryAware() == aware), "symmetry");
   R t = real("t");
   auto id = [&](int x) { return dflt ? -1 : x; };
   int i1 = id(f), i2 = id(d), i3 = id(d), i4 = id(gc), i5 = id(d), i6 = id(gs), i7 = id(gc), i8 = id(mc), i9 = id(gs), i10 = ms;
   if (lvl) {
      for (int l = 0; l < m.h->getNumberOfLevels(); l++) {
         auto L = m.level(l);
         st.computeDiffs(L, i1, i2, t); st.computeGradCell(L, i3, i4, t); st.computeGradSide(L, i5, i6, t); st.computeGradModulus(L, i7, i8, t);
         q->computeQuatGradModulusFromSides(L, i9, i10, t);
      }
   } else {
      st.computeDiffs(m.h, i1, i2, t, QuatGradStrategy::FORCE);
      st.computeGradCell(m.h, i3, i4, t, QuatGradStrategy::FORCE);
      st.computeGradSide(m.h, i5, i6, t, QuatGradStrategy::FORCE);
      st.computeGradModulus(m.h, i7, i8, t, QuatGradStrategy::FORCE);
      st.computeGradModulusFromSides(m.h, i9, i10, t, QuatGradStrategy::FORCE);
   }
   prove(B(i1 == f && i2 == d && i3 == d && i4 == gc && i5 == d && i6 == gs && i7 == gc && i8 == mc && i9 == gs && i10 == ms), "fields");
   {
      LevScope sc;
      for (int l = 0; l < m.h->getNumberOfLevels(); l++) { setlev(l); for (auto& p : *m.level(l)) {
         double dx[NDIM];
         for (int a = 0; a < NDIM; a++) dx[a] = m.dx[a];
         auto r = aware ? std::dynamic_pointer_cast<pdat::SideData<int> >(p->getPatchData(q->d_quat_symm_rotation_id)) : nullptr;
         computeQDiffs(cd(*p, f), sd(*p, D), aware, r);
         computeQGrad(sd(*p, D), cd(*p, GC), dx, aware, r);
         computeQGradSide(sd(*p, D), sd(*p, GS), dx, aware, iso, r);
      } }
   }
   Ref F{m, f}, rD{m, D}, rC{m, GC}, rS{m, GS};
   eqalls(m, d, [&](int a, const hier::Index& i, int k) { return aware ? R(rD(a, i, k)) : dif(F, i, a, k); }, "difference");
   if (aware) eqalls(m, d, [&](int a, const hier::Index& i, int k) { return k >= n ? dif(F, i, a, k - n) : R(rD(a, i, k)); }, "difference without symmetry");
   eqall(m, gc, [&](const hier::Index& i, int k) { return aware ? R(rC(i, k)) : gradc(m, F, i, k / n, k % n); }, "gradient");
   eqalls(m, gs, [&](int a, const hier::Index& i, int k) { return aware || iso ? R(rS(a, i, k)) : grads(m, F, a, i, k / n, k % n); }, "gradient at sides");
   eqall(m, mc, [&](const hier::Index& i, int) { R s = 0.; for (int k = 0; k < NDIM * n; k++) s = s + rC(i, k) * rC(i, k); return sqrt(s); }, "norm of the gradient");
   if (visit) {
      eqall(m, s1, [&](const hier::Index& i, int k) { return rD(k / n, i, k % n); }, "difference shown");
      eqall(m, s2, [&](const hier::Index& i, int k) { return dif(F, i, k / n, k % n); }, "difference without symmetry shown");
   }
   if (cfg("sides", 1)) {
      int MS = out(m, "MS", 0);
      for (int l = 0; l < m.h->getNumberOfLevels(); l++) mod.computeQuatGradModulusFromSides(m.level(l), GS, MS);
      Ref rm{m, MS};
      eqall(m, ms, [&](const hier::Index& i, int) { return rm(i); }, "norm of the gradient from sides");
   }
   intact(m);
}

// ---------------------------------------------------------------- what is reported
class Temps : public TemperatureStrategy
{
 public:
   double getCurrentMaxTemperature(PH, const double t) { return fn("Tmax", {t}); }
   double getCurrentMinTemperature(PH, const double t) { return fn("Tmin", {t}); }
   double getCurrentAverageTemperature(PH, const double t) { return fn("Tave", {t}); }
   void setCurrentTemperature(PH, const double) {}
};
CASE(reported)
{
   Mesh m = themesh();
   auto q = model(m, cfg("qlen", 2));
   Fields f(m, q);
   auto& par = q->d_model_parameters;
   q->initializeRefineCoarsenAlgorithms();
   schedules(m, q);
   const bool three = cfg("three", 0), detail = cfg("detail", 1), gp = cfg("gp", 0), sub = cfg("sub", 0);
   par.d_with_three_phases = three; par.d_grand_potential = gp; par.d_phase_concentration_model = "kks"; par.d_conc_model = QP::ConcModel::CahnHilliard; par.d_latent_heat = real("latent");
   if (f.np > 1) { par.d_norderp_A = 1; par.d_norderp_B = cfg("nB", 0); }
   q->d_extra_energy_detail = detail;
   q->d_energy_eval_strategy = std::make_shared<Evaluate>(par);
   q->d_weight_id = weight(m, "w"); q->d_weight_diagnostics_id = weight(m, "wd");
   q->d_work_id = out(m, "work");
   q->d_cp_id = cell(m, "cp", 0); q->d_phase_mobility_id = cell(m, "mob", 0, 1, R(-10.), R(10.));
   q->d_f_l_id = cell(m, "fl", 0);
   if (f.conc) { Ref c{m, q->d_conc_id}; VERIF_PATCHES(m, p) for (auto& i : p->getBox()) for (int k = 0; k < f.nc; k++) assume(lt(vabs(c(i, k)), R(10.))); }
   if (sub) for (int a = 0; a < NDIM; a++) q->d_subdomain_diagnostics[a] = 0.5;
   if (cfg("temps", 1)) q->d_temperature_strategy = std::make_shared<Temps>();
   q->d_time_info_interval = never();
   q->d_time = real("t", 0., 10.);
   Ref phi{m, f.phase ? q->d_phase_id : q->d_temperature_id}, T{m, q->d_temperature_id}, cp{m, q->d_cp_id}, mob{m, q->d_phase_mobility_id};
   const int w = q->d_weight_id;
   R vol = 1.;
   for (int a = 0; a < NDIM; a++) vol = vol * (m.geom->getXUpper()[a] - m.geom->getXLower()[a]);
   assume(gt(sum(m, q->d_weight_diagnostics_id, [&](const hier::Index&, int) { return R(1.); }), R(0.1)));
   Printed out;
   q->printScalarDiagnostics();
   const bool total = !three && f.phase;
   auto energy = [&](const char* n) { return total ? R(real(n)) : R(0.); };
   eq(out.value("Total energy [pJ]"), energy("total"), "total energy reported");
   if (detail) {
      eq(out.value("phi energy [pJ]"), energy("phase energy"), "phase energy reported");
      eq(out.value("orient energy [pJ]"), energy("orient energy"), "orientation energy reported");
      eq(out.value("qint energy [pJ]"), energy("qint energy"), "grain boundary energy reported");
      eq(out.value("well energy [pJ]"), energy("well energy"), "well energy reported");
      eq(out.value("free energy [pJ]"), energy("free energy"), "free energy reported");
      if (gp) eq(out.value("GP [pJ]"), energy("total"), "grand potential reported");
      if (f.eta) eq(out.value("eta energy [pJ]"), R(0.), "eta energy reported");
   }
   if (f.heat) eq(out.value("Thermal energy [pJ]"), sum(m, w, [&](const hier::Index& i, int) { return cp(i) * T(i) - (f.phase ? R(real("latent") * phi(i)) : R(0.)); }), "thermal energy reported");
   if (cfg("temps", 1)) {
      eq(out.value("Min. Temperature"), fn("Tmin", {real("t", 0., 10.)}), "lowest temperature reported");
      eq(out.value("Max. Temperature"), fn("Tmax", {real("t", 0., 10.)}), "highest temperature reported");
      eq(out.value("Average Temperature"), fn("Tave", {real("t", 0., 10.)}), "average temperature reported");
   }
   auto extreme = [&](const Ref& r, int k, bool up) {
      R v;
      bool first = true;
      LevScope sc;
      for (int l = 0; l < m.h->getNumberOfLevels(); l++) { setlev(l); for (auto& p : *m.level(l)) for (auto& i : p->getBox()) { v = first ? R(r(i, k)) : up ? vmax(v, r(i, k)) : vmin(v, r(i, k)); first = false; } }
      return v;
   };
   if (f.phase) {
      if (three || f.np > 1) for (int k = 0; k < (three ? 3 : f.np); k++) eq(out.value("Volume fraction of phase " + std::to_string(k)) * vol, sum(m, w, [&](const hier::Index& i, int) { return phi(i, k); }), lab("fraction of phase reported", k));
      else eq(out.value("Volume fraction of solid phase") * vol, sum(m, w, [&](const hier::Index& i, int) { return vabs(phi(i)); }), "solid fraction reported");
      eq(out.value("Max. Phase mobility"), extreme(mob, 0, true), "highest mobility reported");
      eq(out.value("Min. Phase mobility"), extreme(mob, 0, false), "lowest mobility reported");
   }
   if (f.eta) { Ref eta{m, q->d_eta_id}; eq(out.value("Volume fraction of eta phase") * vol, sum(m, w, [&](const hier::Index& i, int) { return vabs(eta(i)); }), "eta fraction reported"); }
   if (f.conc) {
      Ref c{m, q->d_conc_id};
      for (int k = 0; k < f.nc; k++) {
         eq(out.value("Integral concentration " + std::to_string(k)), sum(m, w, [&](const hier::Index& i, int) { return c(i, k); }), lab("integral of composition reported", k));
         eq(out.value("Max. concentration " + std::to_string(k)), extreme(c, k, true), lab("highest composition reported", k));
      }
   }
   prove(B(out.has("Density") == (sub && f.phase && f.np > 1)), "density reported");
}
// ---------------------------------------------------------------- the rest of the fields a model fills
CASE(filled)
{
   Mesh m = themesh();
   auto q = model(m, 1);
   const int nc = cfg("nc", 1);
   m.geom->rops["LINEAR_REFINE"] = nearest();
   R t = real("t"), mu = real("mobility", 0.1, 10.);
   // mobility of a model with one for all
   int mob = out(m, "mob", cfg("g", 0)), a = cfg("default", 0) ? -1 : 5, b = cfg("default", 0) ? -1 : mob;
   q->d_phase_scratch_id = 5; q->d_phase_mobility_id = mob;
   q->d_model_parameters.d_phase_mobility = mu;
   q->computeUniformPhaseMobility(m.h, a, b, t, QuatModel::FORCE);
   prove(B(a == 5 && b == mob), "fields of the mobility");
   eqall(m, mob, [&](const hier::Index&, int) { return mu; }, "uniform mobility");
   // initial concentrations of the phases
   q->d_conc_l_id = cell(m, "cl", cfg("g", 0), nc); q->d_conc_a_id = cell(m, "ca", cfg("g", 0), nc); q->d_conc_b_id = cell(m, "cb", cfg("g", 0), nc);
   const int given = cfg("given", 7);
   for (int k = 0; k < nc; k++) {
      if (given & 1) q->d_init_cl.push_back(real(lab("cl", k)));
      if (given & 2) q->d_init_ca.push_back(real(lab("ca", k)));
      if (given & 4) q->d_init_cb.push_back(real(lab("cb", k)));
   }
   q->setAuxilliaryCompositions();
   auto set = [&](int id, const char* n, bool on) { eqall(m, id, [&](const hier::Index& i, int k) { return on ? R(real(lab(n, k))) : R(real(at(n, i, nc > 1 ? k : -1))); }, std::string("initial ") + n); };
   set(q->d_conc_l_id, "cl", given & 1); set(q->d_conc_a_id, "ca", given & 2); set(q->d_conc_b_id, "cb", given & 4);
   // partition coefficient with its ghosts
   Fields f(m, q);
   f.cur.clear(); f.scr.clear(); f.name.clear();
   q->d_partition_coeff_id = cell(m, "pc", 0); q->d_partition_coeff_scratch_id = out(m, "pcs", 1);
   f.cur.push_back(q->d_partition_coeff_id); f.scr.push_back(q->d_partition_coeff_scratch_id); f.name.push_back("pc");
   q->d_partition_coeff_refine_patch_strategy = new PartitionCoeffRefinePatchStrategy("pc", nullptr, q->d_partition_coeff_scratch_id);
   q->d_time = t;
   q->fillPartitionCoeffGhosts();
   f.filled(m, 0, t, "filled ");
   // partition coefficient with its ghosts
   intact(m);
}
// smoothing of orientations: the kernel (decided on its own) on the field with its ghosts filled, on every patch
CASE(smooth)
{
   Mesh m = themesh();
   const int n = cfg("qlen", 2);
   auto q = model(m, n);
   Fields f(m, q);
   q->initializeRefineCoarsenAlgorithms();
   schedules(m, q);
   const bool aware = cfg("aware", 0);
   q->d_symmetry_aware = aware;
   R t = real("t"), th = real("threshold");
   q->d_phase_threshold = th;
   q->d_time = t;
   q->d_quat_diffs_id = outs(m, "d", 1, aware ? 2 * n : n);
   q->d_quat_symm_rotation_id = reg(m, std::make_shared<pdat::SideVariable<int> >(tbox::Dimension(NDIM), "rot", hier::IntVector::getOne(tbox::Dimension(NDIM)), 1), 1);
   VERIF_PATCHES(m, p) {
      auto r = std::dynamic_pointer_cast<pdat::SideData<int> >(p->getPatchData(q->d_quat_symm_rotation_id));
      for (int a = 0; a < NDIM; a++) for (auto& i : r->getArrayData(a).getBox()) r->getArrayData(a)(i, 0) = 1;      // the identity
   }
   q->smoothQuat(m.h, t);
   int s = -1;
   for (size_t k = 0; k < f.name.size(); k++) if (f.name[k] == "q") s = int(k);
   Ref S{m, f.scr[s]}, phi{m, q->d_phase_id};
   eqall(m, q->d_quat_id, [&](const hier::Index& i, int k) {
      R u = S(i, k), v = 0.;
      for (int a = 0; a < NDIM; a++) v = v + (S(nb(i, a, 1), k) - u) - (u - S(nb(i, a, -1), k));
      return ite(lt(phi(i), th), u + R(1. / (NDIM == 2 ? 8. : 6.)) * v, u);
   }, "smoothed");
   VERIF_PATCHES(m, p) for (auto& i : p->getBox()) for (int k = 0; k < n; k++) eq(S(i, k), real(at("q", i, n > 1 ? k : -1)), at("before", i, k));
}
