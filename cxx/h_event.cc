// schedule of outputs, regridding and diagnostics
#include "fixture.h"
#include "EventInterval.h"
using namespace fx;
struct Oracle {
   bool cycle, first, last;
   int n;
   R dt;
   R prev = -1., at = -1.;
   bool active() const { return cycle ? n > 0 : bool(dt > R(0.)); }
   bool fired(const R& t) { return active() && bool(t == at); }
   bool initial(const R& t)
   {
      bool f = active() && first && !fired(t);
      if (f) at = t;
      prev = t;
      return f;
   }
   bool final_(const R& t)
   {
      bool f = active() && last && !fired(t);
      if (f) at = t;
      prev = t;
      return f;
   }
   bool passed(int step, const R& t)
   {
      bool f = false;
      if (active() && !fired(t)) {
         if (first && bool(prev < R(0.))) f = true;
         else if (cycle) f = step % n == 0;
         else if (bool(prev >= R(0.))) {
            // a multiple of the interval lies in (prev, t]
            R k = 1.;
            while (bool(k * dt <= prev)) k = k + 1.;
            f = bool(k * dt <= t);
         }
      }
      prev = t;
      if (f) at = t;
      return f;
   }
};
static EventInterval* build(Oracle& o)
{
   const int how = cfg("how");     // 0: defaults, 1: database, 2: database without the entry, 3: partly given
   o.cycle = !cfg("time");
   o.first = cfg("first");
   o.last = cfg("last", 1);
   o.n = cfg("off") ? 0 : choose("interval", 1, 3);
   o.dt = cfg("off") ? R(0.) : real("dt", 1., 2.);
   const char* type = cfg("alias") ? (o.cycle ? "step" : "dt") : (o.cycle ? "cycle" : "time");
   auto db = std::make_shared<tbox::MemoryDatabase>("input");
   double def = o.cycle ? double(o.n) : double(o.dt);
   if (how == 0) return new EventInterval(nullptr, "Output", def, type, o.first, o.last);
   if (how == 2) return new EventInterval(db, "Output", def, type, o.first, o.last);
   auto e = db->putDatabase("Output");
   if (how == 1) {
      e->putString("interval_type", type);
      e->putBool("include_first_step", o.first);
      e->putBool("include_last_step", o.last);
      if (o.cycle) e->putInteger("interval", o.n); else e->putDouble("interval", def);
      return new EventInterval(db, "Output", 7., o.cycle ? "time" : "cycle", !o.first, !o.last);
   }
   if (o.cycle) e->putInteger("interval", o.n); else e->putDouble("interval", def);
   return new EventInterval(db, "Output", 9., type, o.first, o.last);
}
CASE(schedule)
{
   Oracle o;
   EventInterval* e = build(o);
   prove(B(e->isActive() == o.active()), "active when the interval is positive");
   R t = real("t0", 0., 1.);
   const int script = cfg("script");
   int step = cfg("step0", 0), n = cfg("n", 3);
   std::vector<R> at;
   for (int k = 0; k < n; k++) {
      bool got, want;
      if (script == 1 && k == 0) got = e->includeInitial(t), want = o.initial(t);
      else if (script == 2 && k == n - 1) got = e->includeFinal(t), want = o.final_(t);
      else if (script == 3 && k == 1) got = e->includeFinal(t), want = o.final_(t);
      else got = e->hasIntervalPassed(step, t), want = o.passed(step, t);
      prove(B(got == want), lab("event at call ", k));
      prove(B(e->eventOccurredAtTime(t) == o.fired(t)), lab("occurred at the time of call ", k));
      if (got) {
         for (auto& x : at) prove(lt(x, t), lab("no two events at one time ", k));
         at.push_back(t);
      }
      if (k + 1 < n) {
         step += choose(lab("ds", k), 0, 1);
         t = t + real(lab("dt", k), 0., 1.5);
      }
   }
   if (!o.active()) prove(B(at.empty()), "inactive events never happen");
   delete e;
}
CASE(refused)
{
   auto db = std::make_shared<tbox::MemoryDatabase>("input");
   db->putDatabase("Output")->putString("interval_type", "steps");
   prove(B(refuses([&] { EventInterval e(db, "Output", 1., "step"); })), "unknown kind of interval is refused");
}
