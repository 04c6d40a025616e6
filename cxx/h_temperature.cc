#include "fixture.h"
#include "ScalarTemperatureStrategy.h"
#include "GradientTemperatureStrategy.h"
#include "GaussianTemperatureStrategy.h"
using namespace fx;

#include "ConstantTemperatureStrategy.h"
#include "ConstantHeatCapacityStrategy.h"
#include "NKRHeatCapacityStrategy.h"
#include "SimpleTemperatureRHSStrategy.h"
#include "SteadyStateTemperatureGaussianSource.h"
#include "SteadyStateTemperatureCompositionSource.h"
#include "LinearMeltingTemperatureStrategy.h"
#include "ConstantMeltingTemperatureStrategy.h"
#include "TemperatureStrategyFactory.h"
#include "QuatModelParameters.h"
#include "QuatFort.h"
#include "ConcFort.h"
#include "stubs.h"
#include <fstream>
#include <unistd.h>
#undef stod
namespace std { double verif_stod(const std::string& s) { size_t b = s.find_first_not_of(" \t"); return s[b] == '@' ? verif::real(s.substr(b + 1)) : double(std::stod(s)); } }

// a table of np positions (listed from the largest to the smallest) and nt times
struct Table {
   std::vector<double> x, t;
   std::vector<std::vector<double> > T;
   std::string text = "# positions, then one row per time\n";
   Table(int nt, int np)
   {
      auto n = [](const char* s, int i) { return s + std::to_string(i); };
      for (int i = 0; i < np; i++) { x.push_back(real(n("x", i), -3., 3.)); if (i) assume(lt(x[i - 1], x[i])); }
      for (int i = 0; i < nt; i++) { t.push_back(real(n("t", i), 0., 5.)); if (i) assume(lt(t[i - 1], t[i])); }
      for (int i = 0; i < nt; i++) { T.push_back({}); for (int j = 0; j < np; j++) T[i].push_back(real(n(n("T", i).c_str(), j), 200., 2000.)); }
      for (int j = np - 1; j >= 0; j--) text += "@" + n("x", j) + (j ? ", " : "\n");
      for (int i = 0; i < nt; i++) {
         text += "@" + n("t", i);
         for (int j = np - 1; j >= 0; j--) text += ",@" + n(n("T", i).c_str(), j);
         text += "\n";
         if (i == 0) text += "# a comment\n";
      }
   }
   std::string file() const
   {
      char name[] = "/tmp/ampe-verif-table-XXXXXX";
      int fd = mkstemp(name);
      if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) ::verif_stop("no scratch file", "h_temperature", 0);
      close(fd);
      return name;
   }
   R slope(int i, int j) const { return (T[i][j + 1] - T[i][j]) / (x[j + 1] - x[j]); }
   // slope at a position of interval j: that of the interval at its middle, mean of both neighbours at a node, straight between
   R grad(int i, int j, const R& f) const
   {
      R g = slope(i, j);
      if (j > 0) g = ite(lt(f, R(0.5)), (R(0.5) + f) * slope(i, j) + (R(0.5) - f) * slope(i, j - 1), g);
      if (j + 2 < (int)x.size()) g = ite(lt(R(0.5), f), (R(1.5) - f) * slope(i, j) + (f - R(0.5)) * slope(i, j + 1), g);
      return g;
   }
   // false outside the table
   void at(const R& time, const R& pos, R& tem, R& gr) const
   {
      int nt = t.size(), np = x.size();
      tem = gr = R(0.);
      for (int i = 0; i + 1 < nt; i++)
         for (int j = 0; j + 1 < np; j++) {
            R ft = (time - t[i]) / (t[i + 1] - t[i]), fx = (pos - x[j]) / (x[j + 1] - x[j]);
            R v = (1. - ft) * ((1. - fx) * T[i][j] + fx * T[i][j + 1]) + ft * ((1. - fx) * T[i + 1][j] + fx * T[i + 1][j + 1]);
            R g = (1. - ft) * grad(i, j, fx) + ft * grad(i + 1, j, fx);
            B in = le(t[i], time) && lt(time, t[i + 1]) && (j == 0 ? le(x[j], pos) : lt(x[j], pos)) && le(pos, x[j + 1]);
            tem = ite(in, v, tem);
            gr = ite(in, g, gr);
         }
   }
   B covers(const R& time, const R& pos) const { return le(t.front(), time) && lt(time, t.back()) && le(x.front(), pos) && le(pos, x.back()); }
};
CASE(history)
{
   Table tb(cfg("nt", 2), cfg("np", 3));
   TemperatureHistory h(tbox::plog);
   std::string f = tb.file();
   h.readCSV(f);
   unlink(f.c_str());
   R time = real("time", -0.5, 4.), pos = real("position", -3., 3.);
   double T = 0., g = 0.;
   int ret = h.getTandGradT(time, pos, T, g);
   R eT, eg;
   tb.at(time, pos, eT, eg);
   prove(ret ? !tb.covers(time, pos) : tb.covers(time, pos), "answered inside the table, refused outside");
   if (!ret) {
      eq(T, eT, "temperature between the entries of the table");
      eq(g, eg, "temperature gradient between the entries of the table");
   }
}
static std::shared_ptr<tbox::Database> db() { return std::make_shared<tbox::Database>(); }
CASE(scalar)
{
   Mesh m = grid(box(1));
   int T = out(m, "T"), Ts = out(m, "Ts", 1);
   auto d = db();
   R T0 = real("T0", 100., 2000.), rate = real("rate", -50., 50.), target = real("target", 100., 2000.), time = real("time", 0., 10.);
   d->putDouble("dtemperaturedt", rate);
   if (cfg("target")) d->putDouble("target_temperature", target);
   ScalarTemperatureStrategy s(T, Ts, T0, d);
   R t0 = T0 + rate * time;
   R e = t0;
   if (cfg("target")) e = ite(lt(rate, R(0.)), vmax(t0, target), ite(gt(rate, R(0.)), vmin(t0, target), t0));
   else e = ite(lt(rate, R(0.)), vmax(t0, R(0.)), t0);
   eq(s.getCurrentTemperature(time), e, "temperature at this time");
   eq(s.getCurrentMaxTemperature(m.h, time), e, "maximum");
   eq(s.getCurrentMinTemperature(m.h, time), e, "minimum");
   eq(s.getCurrentAverageTemperature(m.h, time), e, "average");
   s.setCurrentTemperature(m.h, R(0.));
   s.setCurrentTemperature(m.h, time);
   eqall(m, T, [&](const hier::Index&, int) { return e; }, "T");
   eqall(m, Ts, [&](const hier::Index&, int) { return e; }, "T with ghosts", 1);
}
CASE(gradient)
{
   Mesh m = grid(box(2), 2, cfg("lo"));
   int T = out(m, "T"), Ts = out(m, "Ts", 1);
   auto d = db();
   d->putString("type", "frozen");
   R T0 = real("T0", 100., 2000.), rate = real("rate", -50., 50.), time = real("time", 0., 10.), v = real("velocity");
   std::vector<double> g, c;
   for (int a = 0; a < NDIM; a++) { g.push_back(real("g" + std::to_string(a))); c.push_back(real("center" + std::to_string(a), -3., 3.)); }
   d->putDouble("temperature", T0);
   d->putDouble("dtemperaturedt", rate);
   d->putDoubleVector("gradient", g);
   if (cfg("center")) d->putDoubleVector("center", c);
   GradientTemperatureStrategy s(T, Ts, v, d);
   s.setCurrentTemperature(m.h, time);
   Cell e = [&](const hier::Index& i, int) {
      R t = T0 + rate * time;
      for (int a = 0; a < NDIM; a++) {
         R x = m.geom->getXLower()[a] + (R(double(i[a] - m.domain.lower(a))) + R(0.5)) * m.dx[a];
         t = t + g[a] * (x - (cfg("center") ? c[a] : R(0.)) + (a == 0 ? v * time : R(0.)));
      }
      return t;
   };
   eqall(m, T, e, "T");
   eqall(m, Ts, e, "T with ghosts", 1);
}

// temperature and gradient of a table, seen from a frame that moves along x
CASE(gradient_from_table)
{
   Mesh m = grid(box(1));
   int T = out(m, "T"), Ts = out(m, "Ts", 1);
   Table tb(2, 2);
   R v = real("velocity", -1., 1.), time = real("time", 0., 4.), c0 = real("center", -3., 3.);
   assume(tb.covers(time, c0 + v * time));
   auto d = db();
   d->putString("type", "frozen");
   std::string f = tb.file();
   d->putString("filename", f);
   std::vector<double> c(NDIM, double(0.));
   c[0] = c0;
   d->putDoubleVector("center", c);
   GradientTemperatureStrategy s(T, Ts, v, d);
   unlink(f.c_str());
   s.setCurrentTemperature(m.h, time);
   R eT, eg;
   tb.at(time, c0 + v * time, eT, eg);
   Cell e = [&](const hier::Index& i, int) { return eT + eg * (m.geom->getXLower()[0] + (R(double(i[0] - m.domain.lower(0))) + R(0.5)) * m.dx[0] - c0); };
   eqall(m, T, e, "T");
   eqall(m, Ts, e, "T with ghosts", 1);
}
struct Profile {
   std::vector<double> c0, v;
   double center[NDIM], length[NDIM];
   Profile()
   {
      for (int a = 0; a < NDIM; a++) { c0.push_back(real("center" + std::to_string(a), -3., 3.)); v.push_back(real("velocity" + std::to_string(a), -1., 1.)); }
   }
   // at most one period away from the domain
   void limit(const Mesh& m, const R& time)
   {
      for (int a = 0; a < NDIM; a++) {
         if (!m.geom->periodic[a]) continue;
         R lo = m.geom->getXLower()[a], L = m.geom->getXUpper()[a] - m.geom->getXLower()[a], c = c0[a] + time * v[a];
         assume(le(lo, c0[a]) && le(c0[a], lo + L) && le(lo - L, c) && le(c, lo + 2. * L));
      }
   }
   void move(const Mesh& m, const R& time)
   {
      for (int a = 0; a < NDIM; a++) {
         R lo = m.geom->getXLower()[a], L = m.geom->getXUpper()[a] - m.geom->getXLower()[a], c = c0[a] + time * v[a];
         length[a] = double(-1.);
         if (m.geom->periodic[a]) {
            length[a] = L;
            c = ite(lt(c, lo), c + L, ite(lt(lo + L, c), c - L, c));
         }
         center[a] = c;
      }
   }
};
static void period(Mesh& m) { for (int a = 0; a < NDIM; a++) m.geom->periodic[a] = cfg("periodic") == 1 + a || cfg("periodic") == 9 ? 4 : 0; }
// gaussian of the stated amplitude around a center that moves
CASE(gaussian)
{
   Mesh m = grid(box(2), 2);
   if (cfg("levels")) refine(m, box(2, 2, 2));
   period(m);
   int T = out(m, "T"), Ts = out(m, "Ts", 1), w = cell(m, "weight"), ref = out(m, "expected", 1);
   Profile pr;
   auto d = db();
   R base = real("base", 100., 2000.), init = real("initial", 100., 2000.), target = real("target", 100., 2000.), rate = real("rate", -50., 50.), sd = real("deviation", 0.1, 3.), time = real("time", 0., 5.);
   d->putDouble("base", base);
   if (cfg("initial")) d->putDouble("initial", init); else init = base;
   d->putDouble("target", target);
   if (cfg("rate", 1)) d->putDouble("dtemperaturedt", rate); else rate = R(0.);
   d->putDouble("standard_deviation", sd);
   d->putDoubleVector("center", pr.c0);
   d->putDoubleVector("velocity", pr.v);
   GaussianTemperatureStrategy s(T, Ts, w, d, m.geom);
   R peak = init + rate * time;
   peak = ite(lt(rate, R(0.)) && lt(peak, target), target, ite(lt(R(0.), rate) && lt(target, peak), target, peak));
   eq(s.getCurrentTemperature(time), peak, "amplitude");
   pr.limit(m, time);
   s.setCurrentTemperature(m.h, R(0.));
   s.setCurrentTemperature(m.h, time);
   pr.move(m, time);
   VERIF_PATCHES(m, p) {
      auto r = cd(*p, ref);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry());
      auto dx = spacing(m);
      INITGAUSSIAN(&dx[0], g->getXLower(), VERIF_BOX(p->getBox()), r->getPointer(), 1, pr.center, pr.length, sd, base, peak);
   }
   Ref e{m, ref};
   VERIF_PATCHES(m, p) {
      auto r = cd(*p, ref), t = cd(*p, T), ts = cd(*p, Ts);
      for (auto& i : p->getBox()) eq((*t)(pdat::CellIndex(i), 0), (*r)(pdat::CellIndex(i), 0), at("T", i));
      for (auto& i : r->getGhostBox()) eq((*ts)(pdat::CellIndex(i), 0), (*r)(pdat::CellIndex(i), 0), at("T with ghosts", i));
   }
}
CASE(constant)
{
   Mesh m = grid(box(2), 2);
   if (cfg("levels")) refine(m, box(2, 2, 2));
   int T = cell(m, "T", 1), w = cell(m, "weight", 0, 1, R(0.), R(1.));
   ConstantTemperatureStrategy s(T, w);
   s.setCurrentTemperature(m.h, real("time"));
   eqall(m, T, [&](const hier::Index& i, int) { return real(at("T", i)); }, "left alone", 1);
}
// heat capacity by Neumann-Kopp: weights of the species times their polynomials
CASE(neumann_kopp)
{
   Mesh m = grid(box(1), 2);
   if (cfg("levels")) refine(m, box(2, 1, 1));
   int nsp = cfg("species", 2);
   int c = cell(m, "c", cfg("ngc"), nsp - 1), T = cell(m, "T", cfg("ngT", 1), 1, R(100.), R(2000.)), cp = out(m, "cp", cfg("ngcp"));
   std::vector<std::map<short, double> > poly(nsp);
   static const int pw[3][3] = {{0, 1, 9}, {0, -2, 9}, {0, 2, -2}};
   for (int s = 0; s < nsp; s++) for (int k = 0; k < 3; k++) if (pw[s][k] != 9) poly[s][pw[s][k]] = real("cp" + std::to_string(s) + "^" + std::to_string(pw[s][k]), 0.1, 2.);
   NKRHeatCapacityStrategy s(poly, cp, c, T);
   s.setCurrentValue(m.h);
   Ref fc{m, c}, fT{m, T};
   eqall(m, cp, [&](const hier::Index& i, int) {
      R t = fT(i), last = R(1.), v = R(0.);
      for (int s = 0; s < nsp; s++) {
         R wt = s < nsp - 1 ? fc(i, s) : last, q = R(0.);
         if (s < nsp - 1) last = last - fc(i, s);
         for (auto& x : poly[s]) q = q + x.second * (x.first == 0 ? R(1.) : x.first == 1 ? t : x.first == 2 ? t * t : R(1.) / (t * t));
         v = v + wt * q;
      }
      return v;
   }, "heat capacity");
   intact(m);
}
// a constant heat capacity is set on every patch, also on those a regrid made since the last time
CASE(constant_cp)
{
   Mesh m = grid(box(1), 2);
   int cp = out(m, "cp", 1);
   R v = real("cp", 0.1, 5.);
   ConstantHeatCapacityStrategy s(v, cp);
   s.setCurrentValue(m.h);
   eqall(m, cp, [&](const hier::Index&, int) { return v; }, "heat capacity");
   VERIF_PATCHES(m, p) cd(*p, cp)->fillAll(0.);
   s.setCurrentValue(m.h);
   eqall(m, cp, [&](const hier::Index&, int) { return v; }, "heat capacity of the patches after a regrid");
}
CASE(rhs)
{
   Mesh m = grid(box(1), 2);
   if (cfg("levels")) refine(m, box(2, 1, 1));
   int T = cell(m, "T", cfg("ngT", 1)), cp = cell(m, "cp", cfg("ngcp"), 1, R(0.5), R(5.)), ph = cell(m, "dphidt", cfg("ngp")), rhs = out(m, "rhs", cfg("ngr"));
   R D = real("D", 0.1, 2.), L = real("latent", 0.1, 2.);
   SimpleTemperatureRHSStrategy s(D, L, T, cp);
   s.TemperatureRHSStrategy::evaluateRHS(m.h, rhs, cfg("phase", 1) ? ph : -1);
   Ref t{m, T}, c{m, cp}, q{m, ph};
   eqall(m, rhs, [&](const hier::Index& i, int) {
      R lap = R(0.);
      for (int a = 0; a < NDIM; a++) lap = lap + (t(nb(i, a, 1)) - 2. * t(i) + t(nb(i, a, -1))) / (m.dx[a] * m.dx[a]);
      R v = D * lap;
      if (cfg("phase", 1)) v = v + L / c(i) * q(i);
      return v;
   }, "dT/dt");
   intact(m);
}
// ---- steady state: the equation handed to the solver (the solver itself is C12, C13)
static R opc[3];
static int solves, solved[2], coefs, cpset;
static std::vector<std::vector<R> > given;
static const Mesh* gm;
static char raw[sizeof(TemperatureFACSolver)];
void TemperatureFACSolver::setOperatorCoefficients(const double a, const double b, const double c) { opc[0] = a; opc[1] = b; opc[2] = c; coefs++; }
bool EllipticFACSolver::solveSystem(const int u, const int f)
{
   solves++;
   solved[0] = u;
   solved[1] = f;
   return true;
}
SteadyStateTemperatureStrategy::SteadyStateTemperatureStrategy(const int t, const int r, const int w, std::shared_ptr<tbox::Database>, solv::LocationIndexRobinBcCoefs*)
{
   d_temperature_scratch_id = t;
   d_rhs_id = r;
   d_weight_id = w;
   d_temperature_sys_solver = reinterpret_cast<TemperatureFACSolver*>(raw);
   solves = coefs = 0;
}
SteadyStateTemperatureStrategy::~SteadyStateTemperatureStrategy() {}
class Heat : public HeatCapacityStrategy
{
 public:
   int id;
   Heat(int i) : id(i) {}
   void setCurrentValue(std::shared_ptr<hier::PatchHierarchy>) { fill(*gm, id, [&](const hier::Index& i, int) { return real(at("cp", i), R(0.5), R(5.)); }); }
};
CASE(steady_gaussian)
{
   Mesh m = grid(box(2), 2);
   if (cfg("levels")) refine(m, box(2, 2, 2));
   period(m);
   gm = &m;
   int T = out(m, "T", 1), rhs = out(m, "rhs", cfg("ngr")), w = cell(m, "weight"), cp = out(m, "cp", cfg("ngcp", 1)), ref = out(m, "expected"), rc = out(m, "cpref");
   Profile pr;
   auto hs = db(), sv = db();
   R power = real("power", 0.1, 5.), sd = real("deviation", 0.1, 3.), pt = real("pulse_time", 0., 2.), pw = real("pulse_width", 0.2, 2.), time = real("time", 0., 3.), D = real("D", 0.1, 2.);
   hs->putDouble("max_power", power);
   hs->putDouble("standard_deviation", sd);
   hs->putDouble("pulse_time", pt);
   hs->putDouble("pulse_width", pw);
   hs->putDoubleVector("center", pr.c0);
   hs->putDoubleVector("velocity", pr.v);
   Heat heat(cp);
   SteadyStateTemperatureGaussianSource s(T, rhs, w, D, cp, hs, sv, m.geom, &heat, nullptr);
   pr.limit(m, time);
   s.setCurrentTemperature(m.h, time);
   pr.move(m, time);
   prove(B(solves == 1 && coefs == 1 && solved[0] == T && solved[1] == rhs), "one solve for the temperature with the source");
   eq(opc[0], R(1.), "coefficient m");
   eq(opc[1], R(0.), "coefficient c");
   R scale = opc[2] / (R(0.) - D);          // equation scaled as a whole
   heat.id = rc;
   heat.setCurrentValue(m.h);
   VERIF_PATCHES(m, p) {
      auto r = cd(*p, ref);
      auto g = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry());
      auto dx = spacing(m);
      double peak = scale * (power * 10.) * exp(-(time - pt) * (time - pt) / (2. * pw * pw));
      INITGAUSSIANSOURCE(&dx[0], g->getXLower(), VERIF_BOX(p->getBox()), r->getPointer(), 0, cd(*p, rc)->getPointer(), 0, pr.center, pr.length, sd, peak);
   }
   Ref e{m, ref};
   eqall(m, rhs, [&](const hier::Index& i, int) { return e(i); }, "source");
}
CASE(steady_composition)
{
   Mesh m = grid(box(1), 2);
   if (cfg("levels")) refine(m, box(2, 1, 1));
   gm = &m;
   int nc = cfg("nc", 1);
   int T = out(m, "T", 1), rhs = out(m, "rhs", cfg("ngr")), w = cell(m, "weight"), cp = out(m, "cp", cfg("ngcp", 1)), c = cell(m, "c", cfg("ngc"), nc);
   R D = real("D", 0.1, 2.);
   std::vector<double> S;
   for (int k = 0; k < nc + 1; k++) S.push_back(real("source" + std::to_string(k)));
   Heat heat(cp);
   SteadyStateTemperatureCompositionSource s(T, c, rhs, w, D, cp, S, db(), &heat, nullptr);
   s.setCurrentTemperature(m.h, real("time"));
   prove(B(solves == 1 && coefs == 1 && solved[0] == T && solved[1] == rhs), "one solve for the temperature with the source");
   eq(opc[0], R(1.), "coefficient m");
   eq(opc[1], R(0.), "coefficient c");
   eq(opc[2], R(0.) - D, "coefficient d");
   Ref fc{m, c};
   eqall(m, rhs, [&](const hier::Index& i, int) {
      R v = R(0.), last = R(1.);
      for (int k = 0; k < nc; k++) { v = v + S[k] * fc(i, k); last = last - fc(i, k); }
      return (v + S[nc] * last) / real(at("cp", i), R(0.5), R(5.));
   }, "source");
   intact(m);
}
CASE(melting)
{
   Mesh m = grid(box(2), 2);
   int T = out(m, "Tm", cfg("ngT")), c = cell(m, "c", cfg("ngc"));
   R Tref = real("Tref", 100., 2000.), c0 = real("c0", 0., 1.), sl = real("slope", -100., 100.);
   LinearMeltingTemperatureStrategy lin(Tref, c0, sl, c, T);
   ConstantMeltingTemperatureStrategy con(Tref, T);
   VERIF_PATCHES(m, p) if (cfg("linear")) lin.evaluate(*p); else con.evaluate(*p);
   Ref fc{m, c};
   eqall(m, T, [&](const hier::Index& i, int) { return cfg("linear") ? Tref + sl * (fc(i) - c0) : Tref; }, "melting temperature");
   eqall(m, c, [&](const hier::Index& i, int) { return real(at("c", i)); }, "composition left alone", cfg("ngc"));
   intact(m);
}

// the strategy a model asks for, with the values given in its input
void copyDatabase(std::shared_ptr<SAMRAI::tbox::Database>, boost::property_tree::ptree&) {}
void printDeprecated(const std::string&, const std::string&) {}
CASE(chosen)
{
   typedef QuatModelParameters QP;
   Mesh m = grid(box(1));
   period(m);
   gm = &m;
   int T = out(m, "T"), Ts = out(m, "Ts", 1), c = cell(m, "c"), w = cell(m, "weight"), rhs = out(m, "rhs"), cp = out(m, "cp", 1), T2 = out(m, "T2"), Ts2 = out(m, "Ts2", 1);
   auto model = db(), integ = db();
   const int k = cfg("kind");      // scalar, gradient, gaussian, constant, heat equation, source: gaussian, by composition
   auto d = cfg("nested", 1) ? model->putDatabase("Temperature") : model;
   QP par;
   par.d_with_heat_equation = k >= 4; par.d_with_steady_temperature = k >= 5;
   par.d_temperature_type = k == 0 ? QP::TemperatureType::SCALAR : k == 1 ? QP::TemperatureType::GRADIENT : k == 2 ? QP::TemperatureType::GAUSSIAN : QP::TemperatureType::CONSTANT;
   par.d_heat_source_type = k == 6 ? "composition" : "gaussian";
   R D = real("D", 0.1, 2.), v = real("velocity", -2., 2.), time = real("time", 0., 3.);
   par.d_thermal_diffusivity = D; par.d_moving_frame_velocity = v;
   par.d_T_source.clear();
   for (int a = 0; a < 2; a++) par.d_T_source.push_back(real(lab("source", a)));
   const char* keys[] = {"temperature", "initial", "T_parameter", "temperature0"};
   R T0 = real("T0", 100., 2000.);
   d->putDouble(k == 1 ? "temperature" : keys[cfg("key")], T0);
   d->putDouble("dtemperaturedt", real("rate", 0.1, 50.));
   d->putString("type", "frozen");
   std::vector<double> g, ctr, vel;
   for (int a = 0; a < NDIM; a++) { g.push_back(real(lab("g", a))); ctr.push_back(real(lab("center", a), -3., 3.)); vel.push_back(real(lab("v", a))); }
   if (k == 1) d->putDoubleVector("gradient", g);
   if (k == 2) { d->putDouble("base", real("base", 100., 2000.)); d->putDouble("target", real("target", 3000., 4000.)); d->putDouble("standard_deviation", real("deviation", 0.1, 3.)); d->putDoubleVector("center", ctr); d->putDoubleVector("velocity", vel); }
   if (k == 5) { auto h = d->putDatabase("HeatSource"); h->putDouble("max_power", real("power", 0.1, 5.)); h->putDouble("standard_deviation", real("deviation", 0.1, 3.)); h->putDouble("pulse_time", real("pulse_time", 0., 2.)); h->putDouble("pulse_width", real("pulse_width", 0.2, 2.)); h->putDoubleVector("center", ctr); h->putDoubleVector("velocity", vel); }
   auto sv = integ->putDatabase("TemperatureSysSolver");
   if (k >= 5) model->putDatabase("BoundaryConditions")->putDatabase("Temperature");
   Heat heat(cp);
   TemperatureStrategyFactory f(T, Ts, c, w, rhs, cp, R(1.), true, m.geom, &heat);
   auto s = f.create(model, integ, par);
   prove(B(bool(s)), "a strategy");
   if (!s) return;
   const int got = std::dynamic_pointer_cast<ScalarTemperatureStrategy>(s) ? 0 : std::dynamic_pointer_cast<GradientTemperatureStrategy>(s) ? 1 : std::dynamic_pointer_cast<GaussianTemperatureStrategy>(s) ? 2 : std::dynamic_pointer_cast<ConstantTemperatureStrategy>(s) ? 3 : std::dynamic_pointer_cast<SteadyStateTemperatureGaussianSource>(s) ? 5 : std::dynamic_pointer_cast<SteadyStateTemperatureCompositionSource>(s) ? 6 : -1;
   prove(B(got == (k == 4 ? 3 : k)), "kind of strategy");
   if (k <= 2) {
      std::shared_ptr<TemperatureStrategy> ref;
      if (k == 0) ref = std::make_shared<ScalarTemperatureStrategy>(T2, Ts2, T0, d);
      if (k == 1) ref = std::make_shared<GradientTemperatureStrategy>(T2, Ts2, v, d);
      if (k == 2) ref = std::make_shared<GaussianTemperatureStrategy>(T2, Ts2, w, d, m.geom);
      s->setCurrentTemperature(m.h, time);
      ref->setCurrentTemperature(m.h, time);
      Ref r{m, T2}, rs{m, Ts2};
      eqall(m, T, [&](const hier::Index& i, int) { return r(i); }, "T");
      eqall(m, Ts, [&](const hier::Index& i, int) { return rs(i); }, "T with ghosts", 1);
   }
   if (k >= 5) {
      s->setCurrentTemperature(m.h, time);
      prove(B(solves == 1 && coefs == 1 && solved[0] == Ts && solved[1] == rhs), "one solve for the temperature with the source");
      if (k == 6) eq(opc[2], R(0.) - D, "coefficient d");
   }
}
