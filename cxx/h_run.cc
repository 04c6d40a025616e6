// the run loop: steps, outputs, regridding, restart files and what a restart brings back
#include "stubs.h"
#include "PFModel.h"
#include "Verbosity.h"
using namespace fx;
typedef std::shared_ptr<hier::PatchHierarchy> PH;
typedef std::vector<tbox::VerifCall> Calls;
static Calls& calls() { return tbox::verif_calls(); }
static void call(const std::string& w, const std::vector<double>& v = {}) { calls().push_back({w, v}); }
// outputs of one step come in any order
static Calls sorted(const Calls& c)
{
   Calls r(c);
   auto fixed = [](const tbox::VerifCall& x) { return x.what == "advance" || x.what == "regrid" || x.what == "end"; };
   for (size_t i = 0; i < r.size();) {
      if (fixed(r[i])) { i++; continue; }
      size_t k = i;
      while (k < r.size() && !fixed(r[k])) k++;
      std::stable_sort(r.begin() + i, r.begin() + k, [](const tbox::VerifCall& a, const tbox::VerifCall& b) { return a.what < b.what; });
      i = k;
   }
   return r;
}
static void same(const Calls& g, const Calls& w, const std::string& label)
{
   Calls got = sorted(g), want = sorted(w);
   bool ok = got.size() == want.size();
   for (size_t i = 0; ok && i < got.size(); i++) ok = got[i].what == want[i].what && got[i].v.size() == want[i].v.size();
   if (!ok) {
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i].what == want[i].what && got[i].v.size() == want[i].v.size()) i++;
      prove(B(false), label + ": step " + std::to_string(i) + " is " + (i < got.size() ? got[i].what : "none") + " instead of " + (i < want.size() ? want[i].what : "none"));
      return;
   }
   prove(B(true), label);
   for (size_t i = 0; i < got.size(); i++) for (size_t k = 0; k < got[i].v.size(); k++) eq(got[i].v[k], want[i].v[k], lab(label, int(i), int(k)));
}
static QuatVerbosity verbosity;
static std::vector<std::shared_ptr<tbox::Database> > saved;
class Sim : public PFModel
{
 public:
   bool log = true, keep = false;
   Sim() { d_verbosity = &verbosity; d_visit_data_writer = std::make_shared<appu::VisItDataWriter>(1); d_gridding_algorithm = std::make_shared<mesh::GriddingAlgorithm>(); d_write_initial_conditions_file = false; d_restart_write_dirname = "dir"; }
   static R step(int cycle) { return real(lab("dt", cycle), 0.1, 1.); }
   double Advance() { call("advance", {double(d_cycle), d_time, d_previous_timestep}); R dt = step(d_cycle); d_time += dt; return dt; }
   void CreateIntegrator(std::shared_ptr<tbox::Database>) { call("create integrator"); }
   void RegisterVariables() { call("variables"); }
   void InitializeIntegrator() { call("initialize integrator"); }
   void initializeCoarseRefineOperators() { call("operators"); }
   void RegisterWithVisit() { call("visit"); }
   void preRunDiagnostics() { call("before", {double(d_cycle), d_time}); }
   void postAdvanceDiagnostics() { call("diagnostics", {double(d_cycle), d_time}); }
   void postRunDiagnostics() { call("end", {double(d_cycle), d_time}); }
   void computeGrainDiagnostics() { call("grains", {double(d_cycle), d_time}); }
   void WriteInitialConditionsFile(std::string f, int l) { call("initial " + f, {double(l)}); }
   void DeallocateIntermediateLocalPatchData(const PH) { call("deallocate"); }
   void initializeLevelData(const PH&, const int, const double, const bool, const bool, const std::shared_ptr<hier::PatchLevel>&, const bool) {}
   void resetHierarchyConfiguration(const PH&, const int, const int) {}
   void writeRestartFile()
   {
      PFModel::writeRestartFile();
      auto db = std::make_shared<tbox::Database>();
      putToRestart(db);
      if (keep) saved.push_back(db);
      call("state", {db->getDouble("time"), double(db->getInteger("cycle")), db->getDouble("previous_timestep"), db->getDouble("start_time"), db->getDouble("end_time"), double(db->getInteger("max_cycles")), db->getBool("amr_enabled") ? 1. : 0.});
   }
};
// a schedule of each kind, from an input file
static std::shared_ptr<tbox::Database> schedule(const char* n, int kind, bool first, bool last)
{
   auto db = std::make_shared<tbox::Database>();
   auto e = db->putDatabase(n);
   e->putString("interval_type", kind >= 0 ? "step" : "time");
   if (kind >= 0) e->putInteger("interval", kind);
   else e->putDouble("interval", real(lab("every", std::string(n)), 0.3, 2.));
   e->putBool("include_first_step", first);
   e->putBool("include_last_step", last);
   return db;
}
struct Plan {
   std::shared_ptr<EventInterval> restart, visit, grains, regrid, info;
   void make()
   {
      auto mk = [](const char* n, int def, bool first, bool last) { int k = cfg(n, def); return std::make_shared<EventInterval>(schedule(n, k, first, last), n, 0., "step", first, last); };
      restart = mk("restart", 2, cfg("first", 0), cfg("last", 1));
      visit = mk("visit", 2, cfg("vfirst", 1), cfg("vlast", 1));
      grains = mk("grains", 3, cfg("gfirst", 0), true);
      regrid = mk("regrid", 1, false, true);
      info = std::make_shared<EventInterval>(std::shared_ptr<tbox::Database>(), "info", 1, "step");
   }
};
static void install(Sim& s, Plan& p)
{
   s.d_restart_interval = p.restart; s.d_visit_dump_interval = p.visit; s.d_grain_diag_interval = p.grains; s.d_regrid_interval = p.regrid; s.d_time_info_interval = p.info;
}
static std::vector<int> cells() { std::vector<int> c(NDIM, 1); c[0] = 2; return c; }
CASE(loop)
{
   Mesh m = grid(cells(), 1, 0);
   const bool amr = cfg("amr", 1);
   m.h->maxlevels = amr ? 3 : 1;
   verbosity.setBasicLevel(cfg("verbose", 0)); verbosity.setAmrLevel(cfg("verbose", 0));
   Sim s;
   s.d_patch_hierarchy = m.h;
   s.d_tag_buffer_array = {1, 2, 2};
   R t = real("t0", 0., 1.), end = real("end", 0., 3.), before = real("dt_before", 0.1, 1.);
   int c = cfg("cycle", 0), most = c + choose("most", 0, cfg("most", 3));
   s.d_time = t; s.d_cycle = c; s.d_end_time = end; s.d_max_cycles = most; s.d_previous_timestep = before; s.d_start_time = real("start"); s.d_amr_enabled = amr;
   s.d_write_initial_conditions_file = cfg("ic", 0); s.d_initial_conditions_file_name = "f"; s.d_initial_conditions_level = 2;
   Plan real_plan, twin;
   real_plan.make(); twin.make();
   install(s, real_plan);
   calls().clear();
   s.Run();
   Calls got = calls();
   calls().clear();
   R prev = before;
   auto restart = [&] { call("restart dir", {double(c)}); call("state", {t, double(c), prev, s.d_start_time, end, double(most), amr ? 1. : 0.}); };
   auto plot = [&] { call("plot", {double(c), t}); };
   call("before", {double(c), t});
   if (twin.visit->includeInitial(t)) plot();
   if (twin.restart->includeInitial(t)) restart();
   if (twin.grains->includeInitial(t)) call("grains", {double(c), t});
   bool shown = true;
   while (t < end && c < most) {
      c++;
      call("advance", {double(c), t, prev});
      prev = Sim::step(c);
      t = t + prev;
      if (twin.restart->hasIntervalPassed(c, t)) restart();
      if (twin.grains->hasIntervalPassed(c, t)) call("grains", {double(c), t});
      call("diagnostics", {double(c), t});
      shown = twin.visit->hasIntervalPassed(c, t);
      if (shown) plot();
      if (amr && twin.regrid->hasIntervalPassed(c, t)) call("regrid", {0., 3., double(c), t});
   }
   call("end", {double(c), t});
   if (twin.visit->includeFinal(t) && !shown) plot();
   if (twin.restart->includeFinal(t)) restart();
   call("deallocate");
   if (cfg("ic", 0)) call("initial f", {2.});
   same(got, calls(), "run");
   eq(s.d_time, t, "time at the end");
   prove(B(s.d_cycle == c), "cycle at the end");
}
static void put(Sim& s, int c)
{
   s.d_time = real("t"); s.d_cycle = c; s.d_end_time = real("end"); s.d_max_cycles = 77; s.d_previous_timestep = real("dt_before"); s.d_start_time = real("start"); s.d_amr_enabled = cfg("amr", 1);
}
static void garbage(Sim& s)
{
   s.d_time = real("junk"); s.d_cycle = -5; s.d_end_time = real("junk"); s.d_max_cycles = -6; s.d_previous_timestep = real("junk"); s.d_start_time = real("junk"); s.d_amr_enabled = !cfg("amr", 1);
}
CASE(restart)
{
   Sim a, b;
   const int c = cfg("cycle", 12), old = cfg("legacy", 0);
   put(a, c);
   auto db = std::make_shared<tbox::Database>();
   a.putToRestart(db);
   auto& root = tbox::RestartManager::getManager()->root;
   root = std::make_shared<tbox::Database>();
   auto in = std::make_shared<tbox::Database>();
   if (old) {      // files of earlier versions
      db = root->putDatabase("PFModel");
      db->putInteger("max_timesteps", 77); db->putDouble("start_time", a.d_start_time); db->putDouble("end_time", a.d_end_time); db->putDouble("loop_time", a.d_time); db->putInteger("iteration_number", c);
   } else if (!cfg("missing", 0)) root->dbs["PFModel"] = db;
   int most = 77;
   R end = a.d_end_time;
   if (cfg("delta", 0)) { in->putInteger("max_delta_cycles", cfg("delta", 0)); most = c + cfg("delta", 0); }
   if (cfg("most", 0)) { in->putInteger("max_cycles", cfg("most", 0)); most = cfg("most", 0); }
   if (cfg("steps", 0)) { in->putInteger("max_timesteps", cfg("steps", 0)); most = cfg("steps", 0); }
   if (cfg("newend", 0)) { end = real("new end"); in->putDouble("end_time", end); }
   garbage(b);
   if (cfg("missing", 0)) { prove(B(refuses([&] { b.getFromRestart(in); })), "a file without the model is refused"); return; }
   b.getFromRestart(in);
   eq(b.d_time, a.d_time, "time");
   prove(B(b.d_cycle == c), "cycle");
   eq(b.d_start_time, a.d_start_time, "start time");
   eq(b.d_end_time, end, "end time");
   prove(B(b.d_max_cycles == most), "number of cycles");
   eq(b.d_previous_timestep, old ? R(0.) : a.d_previous_timestep, "previous time step");
   prove(B(b.d_amr_enabled == (old ? true : bool(cfg("amr", 1)))), "mesh refinement");
   prove(B(tbox::RestartManager::getManager()->items.count("PFModel") == 1), "saved in restart files");
}
CASE(input)
{
   Sim s;
   garbage(s);
   auto in = std::make_shared<tbox::Database>();
   if (!cfg("noend", 0)) in->putDouble("end_time", real("end"));
   if (cfg("start", 0)) in->putDouble("start_time", real("start"));
   int most = INT_MAX;
   if (cfg("delta", 0)) { in->putInteger("max_delta_cycles", cfg("delta", 0)); most = cfg("delta", 0); }
   if (cfg("most", 0)) { in->putInteger("max_cycles", cfg("most", 0)); most = cfg("most", 0); }
   if (cfg("steps", 0)) { in->putInteger("max_timesteps", cfg("steps", 0)); most = cfg("steps", 0); }
   const int amr = cfg("amr", 0);
   if (amr) { auto d = in->putDatabase("Amr"); if (amr > 1) d->putBool("enabled", amr == 2); }
   if (cfg("noend", 0)) { prove(B(refuses([&] { s.getFromInput(in); })), "an end time is required"); return; }
   s.getFromInput(in);
   eq(s.d_end_time, real("end"), "end time");
   eq(s.d_start_time, cfg("start", 0) ? R(real("start")) : R(0.), "start time");
   prove(B(s.d_max_cycles == most), "number of cycles");
   prove(B(s.d_amr_enabled == (amr == 1 || amr == 2)), "mesh refinement");
}
CASE(levels)
{
   Mesh m = grid(cells(), 1, 0);
   for (int l = 1; l < cfg("levels", 1); l++) { std::vector<int> c(NDIM, 2); refine(m, c); }
   m.h->maxlevels = cfg("max", 3);
   Sim s;
   s.d_patch_hierarchy = m.h;
   s.d_cycle = 4;
   for (int l = 0; l < m.h->maxlevels; l++) s.d_tag_buffer_array.push_back(l + 1);
   calls().clear();
   s.setupHierarchy();
   Calls got = calls();
   calls().clear();
   call("coarsest", {0.});
   for (int l = 0; l + 1 < m.h->maxlevels; l++) { call("finer initial", {double(l + 1), 4., 0.}); if (l + 1 >= cfg("levels", 1)) break; }
   same(got, calls(), "levels");
}
// going on from a restart file gives the same run
CASE(resume)
{
   Mesh m = grid(cells(), 1, 0);
   m.h->maxlevels = cfg("amr", 0) ? 2 : 1;
   verbosity.setBasicLevel(0); verbosity.setAmrLevel(0);
   Sim a, b;
   R end = real("end", 0., 3.);
   auto start = [&](Sim& s, Plan& p) { p.make(); install(s, p); s.d_patch_hierarchy = m.h; s.d_tag_buffer_array = {1, 2}; };
   Plan pa, pb;
   start(a, pa); start(b, pb);
   a.keep = true;
   a.d_time = real("t0", 0., 1.); a.d_cycle = 0; a.d_end_time = end; a.d_max_cycles = cfg("most", 4); a.d_previous_timestep = 0.; a.d_start_time = a.d_time; a.d_amr_enabled = cfg("amr", 0);
   saved.clear();
   calls().clear();
   a.Run();
   Calls full = sorted(calls());
   calls().clear();
   if (saved.empty()) return;
   auto& root = tbox::RestartManager::getManager()->root;
   root = std::make_shared<tbox::Database>();
   root->dbs["PFModel"] = saved[0];
   garbage(b);
   b.getFromRestart(std::make_shared<tbox::Database>());
   const int c = b.d_cycle;
   b.Run();
   Calls rest = sorted(calls()), want, got;
   auto later = [&](const Calls& from, Calls& to) {      // from the first step after the restart file on
      bool on = false;
      for (auto& x : from) {
         if (x.what == "advance" && int(x.v[0]) == c + 1) on = true;
         if (x.what == "end") on = false;
         if (on && x.what != "state") to.push_back(x);
      }
   };
   later(full, want); later(rest, got);
   same(got, want, "continued");
   eq(b.d_time, a.d_time, "time at the end");
   prove(B(b.d_cycle == a.d_cycle), "cycle at the end");
}
