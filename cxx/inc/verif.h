// Interface of the harnesses.  The same harness source is compiled twice: with D for double (symbolic, against the
// rewritten sources) and with the ordinary double (native, against the sources as they are).
#ifndef VERIF_H
#define VERIF_H
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#ifdef VERIF_SYM
#include "symd.h"
typedef int64_t vnum;      // what crosses to the engine
#else
#include <cmath>
#include <algorithm>
typedef double vnum;
#endif
#include "verif_assert.h"

namespace verif {
struct Api {
   vnum (*op)(int, vnum, vnum, vnum);
   vnum (*konst)(double);
   int (*decide)(vnum);
   int (*to_int)(vnum);
   vnum (*uninit)();
   vnum (*real)(const char* name, double lo, double hi, int hard);
   int (*choose)(const char* name, int lo, int hi);
   int (*assume)(vnum);
   void (*eq)(vnum, vnum, const char* label);
   void (*prove)(vnum, const char* label);
   vnum (*fn)(const char* name, int n, const vnum* args);
   int (*cfg)(const char* key, int dflt);
   const char* (*cfgs)(const char* key, const char* dflt);
   int (*fcall)(const char* name, int n, void** args, void* ret);
   void (*note)(const char* what);
   vnum (*diff)(vnum, vnum);
};
extern Api api;
struct PathEnd {};
struct Stop { std::string what; };        // TBOX_ERROR, exit, abort, failed assertion

#ifdef VERIF_SYM
typedef vsym::D R;
struct B { int64_t id; B(int64_t i) : id(i) {} B(bool b); };
inline vnum out(const R& d) { return vsym::tid(d); }
inline R in(vnum v) { return vsym::D::of(v); }
inline B lt(const R& a, const R& b) { return B(vsym::op(vsym::LT, out(a), out(b))); }
inline B le(const R& a, const R& b) { return B(vsym::op(vsym::LE, out(a), out(b))); }
inline B same(const R& a, const R& b) { return B(vsym::op(vsym::EQ, out(a), out(b))); }
inline B operator&&(const B& a, const B& b) { return B(vsym::op(vsym::AND, a.id, b.id)); }
inline B operator||(const B& a, const B& b) { return B(vsym::op(vsym::OR, a.id, b.id)); }
inline B operator!(const B& a) { return B(vsym::op(vsym::NOT, a.id)); }
inline R ite(const B& c, const R& a, const R& b) { return in(vsym::op(vsym::ITE, c.id, out(a), out(b))); }
inline vnum outb(const B& b) { return b.id; }
inline R vmax(const R& a, const R& b) { return vsym::fmax(a, b); }
inline R vmin(const R& a, const R& b) { return vsym::fmin(a, b); }
inline R vabs(const R& a) { return vsym::fabs(a); }
#else
typedef double R;
typedef bool B;
inline vnum out(R d) { return d; }
inline R in(vnum v) { return v; }
inline double slack(R a, R b) { return 1e-9 * std::max(1., std::max(std::fabs(a), std::fabs(b))); }
inline B lt(R a, R b) { return a < b; }
inline B le(R a, R b) { return a <= b + slack(a, b); }
inline B same(R a, R b) { return std::fabs(a - b) <= slack(a, b); }
inline R ite(B c, R a, R b) { return c ? a : b; }
inline vnum outb(B b) { return b ? 1. : 0.; }
inline R vmax(R a, R b) { return std::max(a, b); }
inline R vmin(R a, R b) { return std::min(a, b); }
inline R vabs(R a) { return std::fabs(a); }
#endif
inline B gt(const R& a, const R& b) { return lt(b, a); }
inline B ge(const R& a, const R& b) { return le(b, a); }
inline B implies(const B& a, const B& b) { return !a || b; }

inline std::string lab(const std::string& s) { return s; }
template <class... T> std::string lab(const std::string& s, const std::string& t, T... r);
template <class... T> std::string lab(const std::string& s, int i, T... r) { return lab(s + (s.back() == '[' ? "" : ",") + std::to_string(i), r...); }
template <class... T> std::string lab(const std::string& s, const std::string& t, T... r) { return lab(s + t, r...); }

const double NOLIM = 1e308;
// hard: lo/hi are assumptions; otherwise they only guide sampling of concrete values
inline R real(const std::string& n) { return in(api.real(n.c_str(), -NOLIM, NOLIM, 0)); }
R real(const std::string& n, const R& lo, const R& hi);
R real_sample(const std::string& n, const R& lo, const R& hi);
R real_pos(const std::string& n);
inline int choose(const std::string& n, int lo, int hi) { int r = api.choose(n.c_str(), lo, hi); if (r == INT32_MIN) throw PathEnd(); return r; }
inline int cfg(const char* k, int d = 0) { return api.cfg(k, d); }
inline std::string cfgs(const char* k, const char* d = "") { return api.cfgs(k, d); }
inline void assume(const B& b) { if (!api.assume(outb(b))) throw PathEnd(); }
inline void eq(const R& a, const R& b, const std::string& l) { api.eq(out(a), out(b), l.c_str()); }
inline void prove(const B& b, const std::string& l) { api.prove(outb(b), l.c_str()); }
inline void note(const std::string& l) { api.note(l.c_str()); }
R fn(const std::string& name, const std::vector<R>& args);
R pi();
// derivative of f at x (exact in the symbolic build: f must be smooth on the path; x any value)
R deriv(const std::function<R(const R&)>& f, const R& x);
extern int g_tag;
// runs f; true when the code refused (TBOX_ERROR / assertion / exit)
bool refuses(const std::function<void()>& f, std::string* what = nullptr);
struct Case { const char* name; void (*f)(); };
std::vector<Case>& cases();
struct Reg { Reg(const char* n, void (*f)()) { cases().push_back({n, f}); } };
void reg_array(const void* p, size_t bytes, const char* name);
void unreg_array(const void* p);
}  // namespace verif
#define CASE(n) static void case_##n(); static verif::Reg reg_##n(#n, case_##n); static void case_##n()
#endif
