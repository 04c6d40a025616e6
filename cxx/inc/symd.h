// The number type that replaces `double` in the symbolic build.  A D is either a literal (id == 0) or a
// handle of a term kept by the engine.  Comparisons of terms ask the engine which way to go (path exploration).
#ifndef VSYM_D_H
#define VSYM_D_H
#include <cstdint>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <ostream>
#include <istream>
#include <string>
#include <vector>
#include <type_traits>
#include <functional>
#include <algorithm>

namespace vsym {
enum Op { ADD, SUB, MUL, DIV, NEG, LT, LE, EQ, SQRT, EXP, LOG, POW, ABS, MAX, MIN, ACOS, ASIN, ATAN, ATAN2, SIN, COS, TAN,
          TANH, COSH, SINH, ERF, FLOOR, TRUNC, AND, OR, NOT, ITE, BOOL };
struct PathEnd {};
int64_t op(int o, int64_t a, int64_t b = 0, int64_t c = 0);
int64_t konst(double);
bool decide(int64_t cond);
int64_t uninit();
int to_int(int64_t);
constexpr int64_t TAG = 0x5A5Aull << 47;

struct D {
   int64_t id;
   double c;
   D() = default;
   template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
   constexpr D(T x) : id(0), c((double)x) {}
   static D of(int64_t i) { D d; d.id = i; d.c = 0; return d; }
   bool lit() const { return id == 0; }
   template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>::type>
   explicit operator T() const;
   explicit operator bool() const;
   D& operator+=(const D& o);
   D& operator-=(const D& o);
   D& operator*=(const D& o);
   D& operator/=(const D& o);
   D& operator++();
   D& operator--();
   D operator++(int);
};
inline int64_t tid(const D& d)
{
   if (d.id == 0) return konst(d.c);
   if ((d.id >> 47) != (TAG >> 47)) return uninit();
   return d.id;
}
inline bool small(const D& a) { return a.id == 0 && a.c == std::floor(a.c) && std::fabs(a.c) < 1e12; }
inline D operator+(const D& a, const D& b) { if (small(a) && small(b)) return D(a.c + b.c); return D::of(op(ADD, tid(a), tid(b))); }
inline D operator-(const D& a, const D& b) { if (small(a) && small(b)) return D(a.c - b.c); return D::of(op(SUB, tid(a), tid(b))); }
inline D operator*(const D& a, const D& b) { if (small(a) && small(b) && std::fabs(a.c * b.c) < 1e12) return D(a.c * b.c); return D::of(op(MUL, tid(a), tid(b))); }
inline D operator/(const D& a, const D& b) { if (small(a) && small(b) && b.c != 0 && std::fabs(b.c) < 1e6 && std::fabs(a.c) < 1e6) return D(a.c / b.c); return D::of(op(DIV, tid(a), tid(b))); }
inline D operator-(const D& a) { if (a.id == 0) return D(-a.c); return D::of(op(NEG, tid(a))); }
inline D operator+(const D& a) { return a; }
inline bool operator<(const D& a, const D& b) { if (a.id == 0 && b.id == 0) return a.c < b.c; return decide(op(LT, tid(a), tid(b))); }
inline bool operator>(const D& a, const D& b) { return b < a; }
inline bool operator<=(const D& a, const D& b) { if (a.id == 0 && b.id == 0) return a.c <= b.c; return decide(op(LE, tid(a), tid(b))); }
inline bool operator>=(const D& a, const D& b) { return b <= a; }
inline bool operator==(const D& a, const D& b) { if (a.id == 1 || b.id == 1) return false; /* a NaN equals nothing */ if (a.id == 0 && b.id == 0) return a.c == b.c; return decide(op(EQ, tid(a), tid(b))); }
inline bool operator!=(const D& a, const D& b) { return !(a == b); }
#define VSYM_MIX(OP, R) \
   template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline R operator OP(const D& a, T b) { return a OP D(b); } \
   template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline R operator OP(T a, const D& b) { return D(a) OP b; }
VSYM_MIX(+, D) VSYM_MIX(-, D) VSYM_MIX(*, D) VSYM_MIX(/, D)
VSYM_MIX(<, bool) VSYM_MIX(>, bool) VSYM_MIX(<=, bool) VSYM_MIX(>=, bool) VSYM_MIX(==, bool) VSYM_MIX(!=, bool)
inline D& D::operator+=(const D& o) { return *this = *this + o; }
inline D& D::operator-=(const D& o) { return *this = *this - o; }
inline D& D::operator*=(const D& o) { return *this = *this * o; }
inline D& D::operator/=(const D& o) { return *this = *this / o; }
inline D& D::operator++() { return *this = *this + D(1); }
inline D& D::operator--() { return *this = *this - D(1); }
inline D D::operator++(int) { D r = *this; ++*this; return r; }
inline D::operator bool() const { return !(*this == D(0)); }
template <class T, class> inline D::operator T() const
{
   if (id == 0) return (T)c;
   return (T)to_int(tid(*this));
}
inline bool operator!(const D& a) { return a == D(0); }
#define VSYM_U(f, o) inline D f(const D& a) { return D::of(op(o, tid(a))); }
VSYM_U(sqrt, SQRT) VSYM_U(exp, EXP) VSYM_U(log, LOG) VSYM_U(acos, ACOS) VSYM_U(asin, ASIN) VSYM_U(atan, ATAN) VSYM_U(sin, SIN)
VSYM_U(cos, COS) VSYM_U(tan, TAN) VSYM_U(tanh, TANH) VSYM_U(cosh, COSH) VSYM_U(sinh, SINH) VSYM_U(erf, ERF) VSYM_U(floor, FLOOR)
VSYM_U(trunc, TRUNC)
inline D log10(const D& a) { return log(a) / log(D(10)); }
inline D cbrt(const D& a) { return D::of(op(POW, tid(a), tid(D(1) / D(3)))); }
inline D fabs(const D& a) { if (a.id == 0) return D(std::fabs(a.c)); return D::of(op(ABS, tid(a))); }
inline D abs(const D& a) { return fabs(a); }
inline D ceil(const D& a) { return -floor(-a); }
inline D round(const D& a) { return a < D(0) ? -floor(D(0.5) - a) : floor(a + D(0.5)); }
inline D copysign(const D& a, const D& s) { D b = fabs(a); return s < D(0) ? -b : b; }
inline D hypot(const D& a, const D& b) { return sqrt(a * a + b * b); }
inline D fmod(const D& a, const D& b) { return a - b * trunc(a / b); }
inline D atan2(const D& a, const D& b) { return D::of(op(ATAN2, tid(a), tid(b))); }
inline D fmax(const D& a, const D& b) { if (a.id == 0 && b.id == 0) return a.c < b.c ? b : a; return D::of(op(MAX, tid(a), tid(b))); }
inline D fmin(const D& a, const D& b) { if (a.id == 0 && b.id == 0) return b.c < a.c ? b : a; return D::of(op(MIN, tid(a), tid(b))); }
inline D ipow(const D& a, long n)
{
   if (n < 0) return D(1) / ipow(a, -n);
   D r = D(1);
   for (long i = 0; i < n; i++) r = i == 0 ? a : r * a;
   return r;
}
inline D pow(const D& a, const D& b)
{
   if (b.id == 0 && b.c == std::floor(b.c) && std::fabs(b.c) <= 16) return ipow(a, (long)b.c);
   if (b.id == 0 && b.c == 0.5) return sqrt(a);
   return D::of(op(POW, tid(a), tid(b)));
}
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline D pow(const D& a, T b) { return pow(a, D(b)); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline D pow(T a, const D& b) { return pow(D(a), b); }
inline bool isnan(const D&) { return false; }
inline bool isinf(const D&) { return false; }
inline bool isfinite(const D&) { return true; }
extern std::vector<D> printed;      // what was written to a stream while printing is on
extern bool printing;
std::ostream& operator<<(std::ostream& o, const D& d);
inline std::istream& operator>>(std::istream& i, D& d) { double x; i >> x; d = D(x); return i; }
inline std::string dstr(const D& d) { return d.id == 0 ? std::to_string(d.c) : "<term>"; }
}  // namespace vsym

using vsym::sqrt; using vsym::exp; using vsym::log; using vsym::pow; using vsym::fabs; using vsym::acos; using vsym::asin;
using vsym::atan; using vsym::atan2; using vsym::sin; using vsym::cos; using vsym::tan; using vsym::tanh; using vsym::cosh;
using vsym::sinh; using vsym::floor; using vsym::ceil; using vsym::abs; using vsym::fmax; using vsym::fmin; using vsym::isnan;
using vsym::round; using vsym::trunc; using vsym::erf; using vsym::cbrt; using vsym::log10; using vsym::copysign; using vsym::hypot;
using vsym::fmod;
namespace std {
using vsym::sqrt; using vsym::exp; using vsym::log; using vsym::pow; using vsym::fabs; using vsym::acos; using vsym::asin;
using vsym::atan; using vsym::atan2; using vsym::sin; using vsym::cos; using vsym::tan; using vsym::tanh; using vsym::cosh;
using vsym::sinh; using vsym::floor; using vsym::ceil; using vsym::abs; using vsym::fmax; using vsym::fmin; using vsym::isnan;
using vsym::round; using vsym::trunc; using vsym::erf; using vsym::cbrt; using vsym::log10; using vsym::copysign; using vsym::hypot;
using vsym::fmod; using vsym::isinf; using vsym::isfinite;
inline vsym::D max(const vsym::D& a, const vsym::D& b) { return vsym::fmax(a, b); }
inline vsym::D min(const vsym::D& a, const vsym::D& b) { return vsym::fmin(a, b); }
inline string to_string(const vsym::D& d) { return vsym::dstr(d); }
template <> struct numeric_limits<vsym::D> {
   static constexpr bool is_specialized = true, is_signed = true, is_integer = false, has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = true;
   static constexpr int digits10 = 15, digits = 53, max_digits10 = 17;
   static vsym::D max() { return vsym::D(1.7976931348623157e308); }
   static vsym::D min() { return vsym::D(2.2250738585072014e-308); }
   static vsym::D lowest() { return vsym::D(-1.7976931348623157e308); }
   static vsym::D epsilon() { return vsym::D(2.220446049250313e-16); }
   static vsym::D infinity() { return vsym::D(1e300); }
   static vsym::D quiet_NaN() { vsym::D d; d.id = 1; d.c = 0; return d; }
   static vsym::D signaling_NaN() { return quiet_NaN(); }
};
template <> struct hash<vsym::D> { size_t operator()(const vsym::D& d) const { return hash<int64_t>()(d.id) ^ hash<double>()(d.c); } };
}  // namespace std
#endif
