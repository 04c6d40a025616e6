#include <csetjmp>
#include "verif.h"
#include <map>
#include <unordered_map>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <execinfo.h>
#include <cxxabi.h>
#include <new>
namespace verif {
Api api;
std::vector<Case>& cases() { static std::vector<Case> c; return c; }
#ifdef VERIF_SYM
B::B(bool b) : id(api.op(vsym::BOOL, b ? 1 : 0, 0, 0)) {}
#endif
static R real4(const std::string& n, double lo, double hi, int hard)
{
   vnum v = api.real(n.c_str(), lo, hi, hard);
#ifndef VERIF_SYM
   if (v != v) throw PathEnd();
#endif
   return in(v);
}
#ifdef VERIF_SYM
static double litv(const R& r) { if (r.id != 0) verif_stop("unmodelled bounds of an input that are not literals", "", 0); return r.c; }
#else
static double litv(double r) { return r; }
#endif
R real(const std::string& n, const R& lo, const R& hi) { return real4(n, litv(lo), litv(hi), 1); }
R real_sample(const std::string& n, const R& lo, const R& hi) { return real4(n, litv(lo), litv(hi), 0); }
R real_pos(const std::string& n) { return real4(n, 0, NOLIM, 2); }
R fn(const std::string& name, const std::vector<R>& a)
{
   std::vector<vnum> v;
   for (auto& x : a) v.push_back(out(x));
   v.push_back(vnum());
   return in(api.fn(name.c_str(), (int)a.size(), v.data()));
}
int g_tag;
R deriv(const std::function<R(const R&)>& f, const R& x)
{
#ifdef VERIF_SYM
   R t = in(vsym::op(vsym::ADD, api.diff(-1, 0), out(R(0))));
   R y = f(x + t);
   return in(api.diff(out(y), out(t)));
#else
   auto c = [&](double h) { return (f(x + h) - f(x - h)) / (2 * h); };
   double h = 4e-3 * std::max(1e-3, std::min(1., std::fabs(x)));
   double a = c(h), b = c(h / 2), d = c(h / 4);
   double r1 = (4 * b - a) / 3, r2 = (4 * d - b) / 3;
   return (16 * r2 - r1) / 15;
#endif
}
R pi() { return in(api.konst(M_PI)); }
bool refuses(const std::function<void()>& f, std::string* what)
{
   try { f(); } catch (Stop& s) { if (what) *what = s.what; return true; }
   return false;
}
struct Ext { size_t n; const char* name; };
static std::map<const char*, Ext> arrays;
void reg_array(const void* p, size_t n, const char* name) { arrays[(const char*)p] = Ext{n, name}; }
void unreg_array(const void* p) { arrays.erase((const char*)p); }
}  // namespace verif
void verif_assert_failed(const char* e, const char* f, int l)
{
   const char* b = strrchr(f, '/');
   if (getenv("AMPE_VERIF_NOTES")) { void* t[40]; backtrace_symbols_fd(t, backtrace(t, 40), 1); }
   throw verif::Stop{std::string("assertion ") + e + " (" + (b ? b + 1 : f) + ")"};
}
void verif_stop(const char* w, const char* f, int l)
{
   const char* b = strrchr(f, '/');
   throw verif::Stop{std::string(w) + " (" + (b ? b + 1 : f) + ")"};
}
#ifdef VERIF_SYM
namespace vsym {
static std::unordered_map<double, int64_t>& kcr() { static std::unordered_map<double, int64_t> m; return m; }
#define kc kcr()
static int64_t mk(double x);
struct K { int o; int64_t a, b, c; bool operator==(const K& k) const { return o == k.o && a == k.a && b == k.b && c == k.c; } };
struct H { size_t operator()(const K& k) const { return ((k.a * 1000003u + k.b) * 1000003u + k.c) * 67u + k.o; } };
static std::unordered_map<K, int64_t, H>& ocr() { static std::unordered_map<K, int64_t, H> m; return m; }
#define oc ocr()
// while the library is being loaded (static initialisers) there is no engine: plain arithmetic on literals, kept apart
static std::vector<double>& early() { static std::vector<double> e; return e; }
const int64_t EARLY = TAG | (1LL << 46);
static bool isearly(int64_t i) { return (i >> 47) == (TAG >> 47) && (i & (1LL << 46)); }
static int64_t fix(int64_t i) { return isearly(i) ? konst(early()[i & 0xffffffff]) : i; }
static int64_t eop(int o, double a, double b)
{
   double r = 0;
   switch (o) {
      case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break; case DIV: r = a / b; break;
      case NEG: r = -a; break; case SQRT: r = std::sqrt(a); break; case EXP: r = std::exp(a); break; case LOG: r = std::log(a); break;
      case POW: r = std::pow(a, b); break; case ACOS: r = std::acos(a); break; case ATAN: r = std::atan(a); break; case ABS: r = std::fabs(a); break;
      case MAX: r = std::fmax(a, b); break; case MIN: r = std::fmin(a, b); break; default: std::terminate();
   }
   return mk(r);
}
static int64_t mk(double x) { early().push_back(x); return EARLY | (int64_t)(early().size() - 1); }
int64_t op(int o, int64_t a, int64_t b, int64_t c)
{
   if (!verif::api.op) return eop(o, early()[a & 0xffffffff], b ? early()[b & 0xffffffff] : 0.);
   a = o == BOOL ? a : fix(a), b = fix(b), c = fix(c);
   K k{o, a, b, c};
   auto i = oc.find(k);
   if (i != oc.end()) return i->second;
   int64_t r = verif::api.op(o, a, b, c);
   if (r == -1) throw verif::PathEnd();
   oc[k] = r;
   return r;
}
int64_t konst(double x)
{
   if (!verif::api.op) return mk(x);
   auto i = kc.find(x);
   if (i != kc.end()) return i->second;
   return kc[x] = verif::api.konst(x);
}
bool decide(int64_t c) { c = fix(c); int r = verif::api.decide(c); if (r < 0) throw verif::PathEnd(); return r; }
int to_int(int64_t x) { x = fix(x); int r = verif::api.to_int(x); if (r == INT32_MIN) throw verif::PathEnd(); return r; }
int64_t uninit() { return verif::api.uninit(); }
std::vector<D> printed;
bool printing = false;
std::ostream& operator<<(std::ostream& o, const D& d)
{
   if (printing) { printed.push_back(d); return o << "<#" << std::to_string(printed.size() - 1) << "#>"; }
   return d.id == 0 ? o << d.c : o << "<term>";
}
}
static std::string stopmsg;
extern "C" void verif_set_stop(const char* s) { stopmsg = s; }
extern "C" void verif_fcall(const char* name, int n, void** args, void* ret)
{
   int r = verif::api.fcall(name, n, args, ret);
   if (r == 2) throw verif::Stop{stopmsg};
   if (r) throw verif::PathEnd();
}
extern "C" int verif_failed;
int verif_failed = 0;
#endif
#ifdef VERIF_SYM
#include <dlfcn.h>
#include <set>
static std::set<void*>& calledset() { static std::set<void*>* s = new std::set<void*>; return *s; }
#define called calledset()
static std::string callnames;
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* f, void*) { called.insert(f); }
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}
extern "C" const char* verif_calls()
{
   callnames.clear();
   for (void* f : called) {
      Dl_info i;
      if (!dladdr(f, &i) || !i.dli_sname) continue;
      int st;
      char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st);
      std::string n = d ? d : i.dli_sname;
      free(d);
      size_t k;
      while ((k = n.find("vsym::D")) != std::string::npos) n.replace(k, 7, "double");
      if (n.compare(0, 5, "std::") && n.find("(anonymous") == std::string::npos) callnames += n + "\n";
   }
   return callnames.c_str();
}
extern "C" void verif_reset() { called.clear(); vsym::ocr().clear(); vsym::kcr().clear(); }
// fresh memory holds a pattern that is no number
void* operator new(size_t n)
{
   void* p = malloc(n ? n : 1);
   if (!p) throw std::bad_alloc();
   memset(p, 0xFE, n);
   return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
void verif_unmodelled(const char* s) { throw verif::Stop{std::string("unmodelled ") + s}; }
// -> 1 ran to the end, 2 path ended (assumption), 3 the code stopped, 4 exception, 5 no such case
static std::string msg;
// a checked access of the C++ library out of range ends the path like any other stop
static jmp_buf range_stop;
namespace std {
void __glibcxx_assert_fail(const char* f, int, const char*, const char* c) noexcept
{
   const char* b = strrchr(f, '/');
   if (getenv("AMPE_VERIF_NOTES")) { void* t[40]; backtrace_symbols_fd(t, backtrace(t, 40), 1); }
   msg = std::string("library check ") + c + " (" + (b ? b + 1 : f) + ")";
   longjmp(::range_stop, 1);
}
}
extern "C" int verif_run(const char* name, verif::Api* a)
{
   verif::api = *a;
   msg.clear();
   for (auto& c : verif::cases())
      if (!strcmp(c.name, name)) {
         if (setjmp(range_stop)) return 3;
         try {
            c.f();
         } catch (verif::PathEnd&) {
            return 2;
         } catch (verif::Stop& s) {
            msg = s.what;
            return 3;
         } catch (std::exception& e) {
            msg = std::string("exception ") + e.what();
            return 4;
         } catch (...) {
            msg = "exception";
            return 4;
         }
         return 1;
      }
   return 5;
}
extern "C" const char* verif_msg() { return msg.c_str(); }
extern "C" long verif_extent(const void* p, const void** base, const char** name)
{
   auto i = verif::arrays.upper_bound((const char*)p);
   if (i == verif::arrays.begin()) return -1;
   --i;
   if ((const char*)p >= i->first + i->second.n) return -1;
   *base = i->first;
   *name = i->second.name;
   return (long)i->second.n;
}
