#include "verif.h"
#include "TiltingFolchPlapp2005.h"
#include "TiltingMoelans2011.h"
#include "ArrayOperation.h"
#include <vector>
using namespace verif;
void computeWeights3Pairs(const double p0, const double p1, const double p2, double& w01, double& w02, double& w12);

struct Til {
   R (*g0)(const R, const R, const R);
   R (*d00)(const R, const R, const R);
   R (*d01)(const R, const R, const R);
};
static Til tilting()
{
   if (cfg("moelans")) return {TiltingMoelans2011::g0, TiltingMoelans2011::dg0dp0, TiltingMoelans2011::dg0dp1};
   return {TiltingFolchPlapp2005::g0, TiltingFolchPlapp2005::dg0dp0, TiltingFolchPlapp2005::dg0dp1};
}
static void simplex(R& a, R& b, R& c, const R& low = R(0.), const R& high = R(1.))
{
   a = real("p0", low, high);
   b = real("p1", low, high);
   c = R(1.) - a - b;
   assume(le(low, c));
}
CASE(partition)
{
   Til t = tilting();
   R a, b, c;
   simplex(a, b, c);
   R g[3] = {t.g0(a, b, c), t.g0(b, c, a), t.g0(c, a, b)};
   eq(g[0] + g[1] + g[2], R(1.), "the three weights sum to one");
   eq(t.g0(a, c, b), g[0], "the order of the other phases does not matter");
   for (int i = 0; i < 3; i++) {
      prove(le(R(0.), g[i]), lab("weight >= 0 [", i));
      prove(le(g[i], R(1.)), lab("weight <= 1 [", i));
   }
}
CASE(limits)
{
   Til t = tilting();
   R p = real("p", 0., 1.);
   eq(t.g0(R(1.), R(0.), R(0.)), R(1.), "pure phase");
   eq(t.g0(R(0.), p, R(1.) - p), R(0.), "absent phase");
   R two = t.g0(p, R(1.) - p, R(0.));
   if (cfg("moelans")) eq(two, p * p / (p * p + (R(1.) - p) * (R(1.) - p)), "two phases");
   else eq(two, p * p * p * (R(10.) - R(15.) * p + R(6.) * p * p), "two phases");
   R n = real("n");
   R x = real("x"), y = real("y");
   assume(lt(n, R(0.)));
   eq(t.g0(n, x, y), R(0.), "negative fraction counts as absent");
   eq(t.d00(n, x, y), R(0.), "negative fraction, derivative");
   eq(t.d01(n, x, y), R(0.), "negative fraction, cross derivative");
   if (!cfg("moelans")) {
      eq(t.g0(R(1.) - n, x, y), R(1.), "fraction above one counts as pure");
      eq(t.d00(R(1.) - n, x, y), R(0.), "fraction above one, derivative");
      eq(t.d01(R(1.) - n, x, y), R(0.), "fraction above one, cross derivative");
      eq(t.d01(p, n, y), R(0.), "other fraction negative, cross derivative");
      eq(t.d01(p, R(1.) - n, y), R(0.), "other fraction above one, cross derivative");
   }
   eq(t.d00(R(1.), R(0.), R(0.)), R(0.), "no slope at the pure phase");
   eq(t.d01(R(1.), R(0.), R(0.)), R(0.), "no cross slope at the pure phase");
   eq(t.d01(R(0.), R(1.), R(0.)), R(0.), "no cross slope at the other pure phase");
   eq(t.d00(R(0.), R(1.), R(0.)), R(0.), "no slope where absent");
}
CASE(derivative)
{
   Til t = tilting();
   R a, b, c;
   simplex(a, b, c);
   assume(lt(R(0.), a));
   R s = R(1.) / R(3.);
   auto along = [&](R x, R y, R z) { return deriv([&](const R& e) { return t.g0(a + x * e, b + y * e, c + z * e); }, R(0.)); };
   eq(t.d00(a, b, c), along(R(2.) * s, -s, -s), "dg0/dp0 along the simplex");
   eq(t.d01(a, b, c), along(-s, R(2.) * s, -s), "dg0/dp1 along the simplex");
   eq(t.d01(a, c, b), along(-s, -s, R(2.) * s), "dg0/dp2 along the simplex");
   R q = real("q", 0., 1.);
   eq(t.d00(R(0.), q, R(1.) - q), R(0.), "dg0/dp0 where absent");
   eq(t.d01(R(0.), q, R(1.) - q), R(0.), "dg0/dp1 where absent");
   eq(t.d00(a, b, c) + t.d01(a, b, c) + t.d01(a, c, b), R(0.), "the constrained derivatives of one weight sum to zero");
   eq(t.d00(a, b, c) + t.d01(b, a, c) + t.d01(c, a, b), R(0.), "the derivatives of all weights sum to zero");
}
// weights of the pairs: angles of the triangle of the three pair points (law of cosines), divided by pi
static R dist(const R* p, const R* q)
{
   return sqrt((q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2]));
}
static R angle(const R& a, const R& b, const R& opposite)
{
   return acos(vmax(R(-1.), vmin(R(1.), (a * a + b * b - opposite * opposite) / (R(2.) * a * b))));
}
CASE(weights)
{
   R p[3];
   simplex(p[0], p[1], p[2], R(-0.002), R(1.004));
   int region = cfg("dominant");       // which fraction exceeds the limit of 0.99 (3: none)
   for (int i = 0; i < 3; i++)
      if (i == region) assume(gt(p[i], R(0.99)));
      else assume(le(p[i], R(0.99)));
   R w01, w02, w12;
   computeWeights3Pairs(p[0], p[1], p[2], w01, w02, w12);
   R m = R(0.99);
   R r[3];
   for (int i = 0; i < 3; i++) {
      R a = p[i], b = p[(i + 1) % 3], c = p[(i + 2) % 3];
      R fb = R(1.) - m - a - c, fc = R(1.) - m - a - b;   // what is left when b (c) is cut to m
      r[i] = ite(gt(a, m), m, ite(gt(b, m), a + fb * R(0.5), ite(gt(c, m), a + fc * R(0.5), a)));
   }
   R v01[3] = {r[0] / (r[0] + r[1]), r[1] / (r[0] + r[1]), R(0.)};
   R v02[3] = {r[0] / (r[0] + r[2]), R(0.), r[2] / (r[0] + r[2])};
   R v12[3] = {R(0.), r[1] / (r[1] + r[2]), r[2] / (r[1] + r[2])};
   R d0 = dist(v01, v02), d1 = dist(v01, v12), d2 = dist(v02, v12);
   R a01 = angle(d0, d1, d2), a02 = angle(d0, d2, d1), a12 = angle(d1, d2, d0);
   eq(w01, a01 / pi(), "weight of pair 0-1");
   eq(w02, a02 / pi(), "weight of pair 0-2");
   eq(w12, a12 / pi(), "weight of pair 1-2");
#ifndef VERIF_SYM
   eq(w01 + w02 + w12, R(1.), "the weights sum to one");      // by the angle sum of a triangle, given the three equalities above
#endif
   prove(le(R(0.), w01), "weight >= 0 [0]");
   prove(le(R(0.), w02), "weight >= 0 [1]");
   prove(le(R(0.), w12), "weight >= 0 [2]");
}
CASE(arrayops)
{
   R a = real("a"), b = real("b");
   R x = a;
   AddOperation<R> add;
   MultiplyOperation<R> mul;
   add(x, b);
   eq(x, a + b, "a + b");
   x = a;
   mul(x, b);
   eq(x, a * b, "a * b");
}
