// A small functional model of the SAMRAI classes the sources use (SAMRAI itself is not installed here).
// Patches hold real data with SAMRAI's storage layout (Fortran order, ghost cells, one array per side direction).
#ifndef VERIF_SAMRAI_H
#define VERIF_SAMRAI_H
#include <locale>
#include <cstdio>
#include <array>
#include <cassert>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <limits>
#include <numeric>
#include <cmath>
#include <mpi.h>
#include "verif.h"

#ifndef NDIM
#define NDIM 2
#endif
#define SAMRAI_SHARED_PTR_CAST std::dynamic_pointer_cast
#define BOOST_CAST std::dynamic_pointer_cast
#define NULL_USE(v) ((void)(v))
#define TBOX_ERROR(X) do { std::ostringstream tboxos; tboxos << X; ::verif_stop("TBOX_ERROR", __FILE__, __LINE__); } while (0)
#define TBOX_WARNING(X) do { std::ostringstream tboxos; tboxos << X; } while (0)
#define TBOX_ASSERT(E) assert(E)
#define TBOX_ASSERT_OBJDIM_EQUALITY2(a, b)
#define TBOX_ASSERT_OBJDIM_EQUALITY3(a, b, c)
#define TBOX_ASSERT_OBJDIM_EQUALITY4(a, b, c, d)
#define TBOX_CONSTEXPR_ASSERT(a)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY1(a, b)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY2(a, b, c)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY3(a, b, c, d)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY4(a, b, c, d, e)
#define INPUT_VALUE_ERROR(p) TBOX_ERROR("bad value of " << p)
#define INPUT_RANGE_ERROR(p) TBOX_ERROR("value out of range: " << p)
#define SAMRAI_MAX_DIM_VAL 3
#define IOS_TRUNC
#define SAMRAI_F77_FUNC(n, N) n##_
#define BOUNDARY_BDRY 1
#define IOMANIP_HEADER_FILE <iomanip>
#define IOSTREAM_HEADER_FILE <iostream>

namespace SAMRAI
{
const int MAX_DIM_VAL = 3;
namespace tbox
{
inline std::string& printed_text() { static std::string s; return s; }
inline bool& printing() { static bool on = false; return on; }
struct NullBuf : std::streambuf { int overflow(int c) override { if (printing()) printed_text() += char(c); return c; } };
#ifdef VERIF_SYM
inline std::ostream& nullstream() { static NullBuf b; static std::ostream s(&b); return s; }
#else
struct FullPut : std::num_put<char> {      // all the digits, whatever the precision asked for
   iter_type do_put(iter_type o, std::ios_base&, char, double v) const override { char b[40]; snprintf(b, sizeof b, "<=%.17g=>", v); for (char* c = b; *c; c++) *o++ = *c; return o; }
};
inline std::ostream& nullstream() { static NullBuf b; static std::ostream s(&b); static bool done = (s.imbue(std::locale(std::locale::classic(), new FullPut)), true); (void)done; return s; }
#endif
static std::ostream& pout = nullstream();
static std::ostream& plog = nullstream();
static std::ostream& perr = nullstream();

class Dimension
{
 public:
   typedef unsigned short dir_t;
   explicit Dimension(unsigned short d) : d_dim(d) {}
   unsigned short getValue() const { return d_dim; }
   bool operator>(const Dimension& o) const { return getValue() > o.getValue(); }
   bool operator==(const Dimension& o) const { return d_dim == o.d_dim; }
   bool operator!=(const Dimension& o) const { return d_dim != o.d_dim; }
   bool operator<(const Dimension& o) const { return d_dim < o.d_dim; }
 private:
   unsigned short d_dim;
};

class Serializable { public: virtual ~Serializable() {} };

class SAMRAI_MPI
{
 public:
   typedef MPI_Comm Comm;
   SAMRAI_MPI() {}
   SAMRAI_MPI(Comm) {}
   static SAMRAI_MPI& getSAMRAIWorld() { static SAMRAI_MPI m; return m; }
   static void verif_stop(const char* w, const char* f, int l) { ::verif_stop(w, f, l); }
   static void init(int*, char***) {}
   static void finalize() {}
   int getRank() const { return 0; }
   int getSize() const { return 1; }
   Comm getCommunicator() const { return MPI_COMM_WORLD; }
   template <class T> int AllReduce(T*, int, MPI_Op, int* = 0) const { return 0; }
   template <class T> int Allreduce(const T* a, T* b, int n, MPI_Datatype, MPI_Op) const { for (int i = 0; i < n; i++) b[i] = a[i]; return 0; }
   template <class T> int Bcast(T*, int, MPI_Datatype, int) const { return 0; }
   int Barrier() const { return 0; }
};

class Utilities
{
 public:
   static std::string intToString(int n, int w = 1) { std::ostringstream o; o << std::setw(w) << std::setfill('0') << n; return o.str(); }
   static std::string nodeToString(int n) { return intToString(n, 5); }
   static std::string levelToString(int n) { return intToString(n, 4); }
   static std::string processorToString(int n) { return intToString(n, 5); }
   static void recursiveMkdir(const std::string&) {}
   static void verif_stop(const char* w, const char* f, int l) { ::verif_stop(w, f, l); }
};
class IEEE { public: static double getSignalingNaN() { return std::numeric_limits<double>::signaling_NaN(); } };
template <class T> class MathUtilities
{
 public:
   static T getSignalingNaN() { return std::numeric_limits<T>::signaling_NaN(); }
   static T getMax() { return std::numeric_limits<T>::max(); }
   static T getMin() { return std::numeric_limits<T>::min(); }
   static T getEpsilon() { return std::numeric_limits<T>::epsilon(); }
   static T Max(T a, T b) { return std::max(a, b); }
   static T Min(T a, T b) { return std::min(a, b); }
   static T Abs(T a) { return a < T(0) ? -a : a; }
   static int round(double x) { return (int)floor(x + 0.5); }
   static bool isNaN(T) { return false; }
   static bool equalEps(T a, T b) { return a == b; }
};
class Timer { public: void start() {} void stop() {} void reset() {} void barrierAndStart() {} void barrierAndStop() {} double getTotalWallclockTime() { return 0.; } };
class Database;
class TimerManager
{
 public:
   static TimerManager* getManager() { static TimerManager m; return &m; }
   static void createManager(std::shared_ptr<Database>) {}
   std::shared_ptr<Timer> getTimer(const std::string&, bool = false) { return std::make_shared<Timer>(); }
   void resetAllTimers() {}
   void print(std::ostream&) {}
};
class PIO { public: static void logOnlyNodeZero(const std::string&) {} static void logAllNodes(const std::string&) {} static void suspendLogging() {} static void resumeLogging() {} static void initialize() {} static void finalize() {} };
class DatabaseBox { public: DatabaseBox() {} template <class... A> explicit DatabaseBox(A&&...) {} };

class Database
{
 public:
   enum DataType { SAMRAI_INVALID, SAMRAI_DATABASE, SAMRAI_BOOL, SAMRAI_CHAR, SAMRAI_INT, SAMRAI_COMPLEX, SAMRAI_DOUBLE, SAMRAI_FLOAT, SAMRAI_STRING, SAMRAI_BOX };
   explicit Database(const std::string& n = "db") : d_name(n) {}
   template <class... A> void putDatabaseBox(A&&...) {}
   virtual ~Database() {}
   std::string getName() const { return d_name; }
   bool keyExists(const std::string& k) const { return dbs.count(k) || bools.count(k) || ints.count(k) || doubles.count(k) || strings.count(k); }
   std::vector<std::string> getAllKeys() const
   {
      std::vector<std::string> r;
      for (auto& x : dbs) r.push_back(x.first);
      for (auto& x : bools) r.push_back(x.first);
      for (auto& x : ints) r.push_back(x.first);
      for (auto& x : doubles) r.push_back(x.first);
      for (auto& x : strings) r.push_back(x.first);
      return r;
   }
   DataType getArrayType(const std::string& k) const
   {
      return dbs.count(k) ? SAMRAI_DATABASE : bools.count(k) ? SAMRAI_BOOL : ints.count(k) ? SAMRAI_INT : doubles.count(k) ? SAMRAI_DOUBLE : strings.count(k) ? SAMRAI_STRING : SAMRAI_INVALID;
   }
   bool isDatabase(const std::string& k) const { return dbs.count(k); }
   bool isBool(const std::string& k) const { return bools.count(k); }
   bool isInteger(const std::string& k) const { return ints.count(k); }
   bool isDouble(const std::string& k) const { return doubles.count(k); }
   bool isFloat(const std::string& k) const { return false; }
   bool isString(const std::string& k) const { return strings.count(k); }
   size_t getArraySize(const std::string& k) const
   {
      if (bools.count(k)) return bools.at(k).size();
      if (ints.count(k)) return ints.at(k).size();
      if (doubles.count(k)) return doubles.at(k).size();
      if (strings.count(k)) return strings.at(k).size();
      return dbs.count(k) ? 1 : 0;
   }
   std::shared_ptr<Database> getDatabase(const std::string& k) { need(dbs.count(k), k); return dbs[k]; }
   std::shared_ptr<Database> putDatabase(const std::string& k) { return dbs[k] = std::make_shared<Database>(k); }
   bool getBool(const std::string& k) { need(bools.count(k), k); return bools[k].at(0); }
   int getInteger(const std::string& k) { need(ints.count(k), k); return ints[k].at(0); }
   double getDouble(const std::string& k)
   {
      if (!doubles.count(k) && ints.count(k)) return double(ints[k].at(0));
      need(doubles.count(k), k);
      return doubles[k].at(0);
   }
   float getFloat(const std::string& k) { return (float)getDouble(k); }
   std::string getString(const std::string& k) { need(strings.count(k), k); return strings[k].at(0); }
   bool getBoolWithDefault(const std::string& k, bool d) { return keyExists(k) ? getBool(k) : d; }
   int getIntegerWithDefault(const std::string& k, int d) { return keyExists(k) ? getInteger(k) : d; }
   double getDoubleWithDefault(const std::string& k, double d) { return keyExists(k) ? getDouble(k) : d; }
   float getFloatWithDefault(const std::string& k, float d) { return keyExists(k) ? getFloat(k) : d; }
   std::string getStringWithDefault(const std::string& k, const std::string& d) { return keyExists(k) ? getString(k) : d; }
   std::shared_ptr<Database> getDatabaseWithDefault(const std::string& k, std::shared_ptr<Database> d) { return dbs.count(k) ? dbs[k] : d; }
   std::vector<double> getDoubleVector(const std::string& k)
   {
      if (!doubles.count(k) && ints.count(k)) return std::vector<double>(ints[k].begin(), ints[k].end());
      need(doubles.count(k), k);
      return doubles[k];
   }
   std::vector<int> getIntegerVector(const std::string& k) { need(ints.count(k), k); return ints[k]; }
   std::vector<std::string> getStringVector(const std::string& k) { need(strings.count(k), k); return strings[k]; }
   std::vector<bool> getBoolVector(const std::string& k) { need(bools.count(k), k); return std::vector<bool>(bools[k].begin(), bools[k].end()); }
   void getDoubleArray(const std::string& k, double* d, size_t n)
   {
      std::vector<double> v(getDoubleVector(k));
      need(v.size() == n, k);
      for (size_t i = 0; i < n; i++) d[i] = v[i];
   }
   void getFloatArray(const std::string& k, float* d, size_t n)
   {
      std::vector<double> v(getDoubleVector(k));
      need(v.size() == n, k);
      for (size_t i = 0; i < n; i++) d[i] = (float)v[i];
   }
   void getIntegerArray(const std::string& k, int* d, size_t n)
   {
      std::vector<int> v(getIntegerVector(k));
      need(v.size() == n, k);
      for (size_t i = 0; i < n; i++) d[i] = v[i];
   }
   void getStringArray(const std::string& k, std::string* d, size_t n)
   {
      std::vector<std::string> v(getStringVector(k));
      need(v.size() == n, k);
      for (size_t i = 0; i < n; i++) d[i] = v[i];
   }
   void putBool(const std::string& k, bool v) { bools[k] = {(char)v}; }
   void putInteger(const std::string& k, int v) { ints[k] = {v}; }
   void putDouble(const std::string& k, double v) { doubles[k] = {v}; }
   void putString(const std::string& k, const std::string& v) { strings[k] = {v}; }
   void putDoubleVector(const std::string& k, const std::vector<double>& v) { doubles[k] = v; }
   void putDoubleArray(const std::string& k, const double* v, size_t n) { doubles[k] = std::vector<double>(v, v + n); }
   void putIntegerVector(const std::string& k, const std::vector<int>& v) { ints[k] = v; }
   void putIntegerArray(const std::string& k, const int* v, size_t n) { ints[k] = std::vector<int>(v, v + n); }
   void putStringVector(const std::string& k, const std::vector<std::string>& v) { strings[k] = v; }
   void printClassData(std::ostream&) {}
   bool isEmpty() const { return dbs.empty() && bools.empty() && ints.empty() && doubles.empty() && strings.empty(); }
 private:
   void need(bool ok, const std::string& k) const { if (!ok) ::verif_stop("database entry missing or of another type", k.c_str(), 0); }
   std::string d_name;
   std::map<std::string, std::shared_ptr<Database> > dbs;
   std::map<std::string, std::vector<char> > bools;
   std::map<std::string, std::vector<int> > ints;
   std::map<std::string, std::vector<double> > doubles;
   std::map<std::string, std::vector<std::string> > strings;
};
typedef Database MemoryDatabase;
typedef Database InputDatabase;
typedef Database HDFDatabase;
class InputManager
{
 public:
   static InputManager* getManager() { static InputManager m; return &m; }
   std::shared_ptr<Database> parseInputFile(const std::string&) { return std::make_shared<Database>(); }
   std::map<std::string, std::shared_ptr<Database> > files;
   void parseInputFile(const std::string& n, std::shared_ptr<Database> d) { if (files.count(n)) *d = *files[n]; }
   static std::shared_ptr<Database> getInputDatabase() { return std::make_shared<Database>(); }
};
struct VerifCall { std::string what; std::vector<double> v; };      // calls of the library that harnesses look at
inline std::vector<VerifCall>& verif_calls() { static std::vector<VerifCall> c; return c; }
class RestartManager
{
 public:
   static RestartManager* getManager() { static RestartManager m; return &m; }
   bool restarted = false;
   std::shared_ptr<Database> root = std::make_shared<Database>();
   bool isFromRestart() const { return restarted; }
   std::shared_ptr<Database> getRootDatabase() { return root; }
   std::map<std::string, Serializable*> items;
   void registerRestartItem(const std::string& n, Serializable* s) { items[n] = s; }
   void unregisterRestartItem(const std::string& n) { items.erase(n); }
   void writeRestartFile(const std::string& n, int c) { verif_calls().push_back({"restart " + n, {double(c)}}); }
   void closeRestartFile() {}
   bool openRestartFile(const std::string&, int, int) { return true; }
};
}  // namespace tbox

namespace hier
{
class Index;
class IntVector
{
 public:
   explicit IntVector(const tbox::Dimension& d) : v{0, 0, 0} { (void)d; }
   IntVector(const tbox::Dimension& d, int x) : v{x, x, x} { (void)d; }
   IntVector(const tbox::Dimension& d, const int* p) : v{0, 0, 0} { for (int i = 0; i < d.getValue(); i++) v[i] = p[i]; }
   IntVector(int a, int b) : v{a, b, 0} {}
   IntVector(int a, int b, int c) : v{a, b, c} {}
   IntVector(const Index& i);
   int& operator[](size_t i) { return v[i]; }
   const int& operator[](size_t i) const { return v[i]; }
   int& operator()(size_t i) { return v[i]; }
   const int& operator()(size_t i) const { return v[i]; }
   bool operator==(const IntVector& o) const { return cmp(o, 0); }
   bool operator!=(const IntVector& o) const { return !cmp(o, 0); }
   bool operator==(int k) const { for (int i = 0; i < NDIM; i++) if (v[i] != k) return false; return true; }
   bool operator>=(const IntVector& o) const { for (int i = 0; i < NDIM; i++) if (v[i] < o.v[i]) return false; return true; }
   bool operator<=(const IntVector& o) const { for (int i = 0; i < NDIM; i++) if (v[i] > o.v[i]) return false; return true; }
   bool operator<(const IntVector& o) const { for (int i = 0; i < NDIM; i++) if (v[i] >= o.v[i]) return false; return true; }
   bool operator>(const IntVector& o) const { return o < *this; }
   IntVector operator+(const IntVector& o) const { return IntVector(v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]); }
   IntVector operator-(const IntVector& o) const { return IntVector(v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]); }
   IntVector operator*(const IntVector& o) const { return IntVector(v[0] * o.v[0], v[1] * o.v[1], v[2] * o.v[2]); }
   IntVector operator/(const IntVector& o) const { return IntVector(v[0] / o.v[0], v[1] / o.v[1], o.v[2] ? v[2] / o.v[2] : 0); }
   IntVector operator-() const { return IntVector(-v[0], -v[1], -v[2]); }
   IntVector& operator*=(const IntVector& o) { return *this = *this * o; }
   IntVector& operator+=(const IntVector& o) { return *this = *this + o; }
   IntVector& operator-=(const IntVector& o) { return *this = *this - o; }
   IntVector& operator/=(const IntVector& o) { return *this = *this / o; }
   int max() const { int m = v[0]; for (int i = 1; i < NDIM; i++) m = std::max(m, v[i]); return m; }
   int min() const { int m = v[0]; for (int i = 1; i < NDIM; i++) m = std::min(m, v[i]); return m; }
   void max(const IntVector& o) { for (int i = 0; i < 3; i++) v[i] = std::max(v[i], o.v[i]); }
   void min(const IntVector& o) { for (int i = 0; i < 3; i++) v[i] = std::min(v[i], o.v[i]); }
   static IntVector max(const IntVector& a, const IntVector& b) { IntVector r(a); r.max(b); return r; }
   static IntVector min(const IntVector& a, const IntVector& b) { IntVector r(a); r.min(b); return r; }
   int getProduct() const { int p = 1; for (int i = 0; i < NDIM; i++) p *= v[i]; return p; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   static const IntVector& getZero(const tbox::Dimension& d) { static IntVector z(d, 0); return z; }
   static const IntVector& getOne(const tbox::Dimension& d) { static IntVector z(d, 1); return z; }
 private:
   bool cmp(const IntVector& o, int) const { for (int i = 0; i < NDIM; i++) if (v[i] != o.v[i]) return false; return true; }
   int v[3];
};
inline std::ostream& operator<<(std::ostream& o, const IntVector& v) { return o << "(" << v[0] << "," << v[1] << ")"; }

class Index
{
 public:
   explicit Index(const tbox::Dimension&) : v{0, 0, 0} {}
   Index(const tbox::Dimension&, int x) : v{x, x, x} {}
   Index(const tbox::Dimension& d, const int* p) : v{0, 0, 0} { for (int i = 0; i < d.getValue(); i++) v[i] = p[i]; }
   Index(int a, int b) : v{a, b, 0} {}
   Index(int a, int b, int c) : v{a, b, c} {}
   explicit Index(const IntVector& i) : v{i[0], i[1], i[2]} {}
   int& operator[](size_t i) { return v[i]; }
   const int& operator[](size_t i) const { return v[i]; }
   int& operator()(size_t i) { return v[i]; }
   const int& operator()(size_t i) const { return v[i]; }
   bool operator==(const Index& o) const { for (int i = 0; i < NDIM; i++) if (v[i] != o.v[i]) return false; return true; }
   bool operator!=(const Index& o) const { return !(*this == o); }
   Index operator+(const IntVector& o) const { return Index(v[0] + o[0], v[1] + o[1], v[2] + o[2]); }
   Index operator-(int o) const { return Index(v[0] - o, v[1] - o, v[2] - o); }
   Index operator+(int o) const { return Index(v[0] + o, v[1] + o, v[2] + o); }
   Index operator-(const IntVector& o) const { return Index(v[0] - o[0], v[1] - o[1], v[2] - o[2]); }
   Index operator-(const Index& o) const { return Index(v[0] - o[0], v[1] - o[1], v[2] - o[2]); }
   Index operator+(const Index& o) const { return Index(v[0] + o[0], v[1] + o[1], v[2] + o[2]); }
   Index operator*(const IntVector& o) const { return Index(v[0] * o[0], v[1] * o[1], v[2] * o[2]); }
   Index& operator+=(const IntVector& o) { return *this = *this + o; }
   Index& operator-=(const IntVector& o) { return *this = *this - o; }
   static Index getZeroIndex(const tbox::Dimension& d) { return Index(d, 0); }
   static Index coarsen(const Index& i, const IntVector& r) { Index o(i); for (int a = 0; a < NDIM; a++) o.v[a] = i.v[a] >= 0 ? i.v[a] / r[a] : -((-i.v[a] + r[a] - 1) / r[a]); return o; }
   void min(const Index& o) { for (int i = 0; i < 3; i++) v[i] = std::min(v[i], o.v[i]); }
   void max(const Index& o) { for (int i = 0; i < 3; i++) v[i] = std::max(v[i], o.v[i]); }
   static Index min(const Index& a, const Index& b) { Index r(a); r.min(b); return r; }
   static Index max(const Index& a, const Index& b) { Index r(a); r.max(b); return r; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
 private:
   int v[3];
};
inline IntVector::IntVector(const Index& i) : v{i[0], i[1], i[2]} {}
inline std::ostream& operator<<(std::ostream& o, const Index& v) { return o << "(" << v[0] << "," << v[1] << ")"; }

class BlockId { public: BlockId(int i = 0) : b(i) {} static const BlockId& zero() { static BlockId z; return z; } int getBlockValue() const { return b; } bool operator==(const BlockId& o) const { return b == o.b; } private: int b; };
class LocalId { public: LocalId(int i = 0) : b(i) {} int getValue() const { return b; } bool operator<(const LocalId& o) const { return b < o.b; } bool operator==(const LocalId& o) const { return b == o.b; } private: int b; };
class GlobalId { public: GlobalId(int i = 0) : b(i) {} LocalId getLocalId() const { return LocalId(b); } int getOwnerRank() const { return 0; } bool operator<(const GlobalId& o) const { return b < o.b; } private: int b; };
inline std::ostream& operator<<(std::ostream& o, const LocalId& v) { return o << v.getValue(); }
inline std::ostream& operator<<(std::ostream& o, const GlobalId& v) { return o << v.getLocalId().getValue(); }

class Box
{
 public:
   explicit Box(const tbox::Dimension& d) : lo(d, 0), hi(d, -1) {}
   Box(const Index& l, const Index& h, const BlockId& = BlockId::zero()) : lo(l), hi(h) {}
   Box(const Box& b) : lo(b.lo), hi(b.hi), id(b.id) {}
   Box& operator=(const Box& b) { lo = b.lo; hi = b.hi; id = b.id; return *this; }
   class iterator;
   const Index& lower() const { return lo; }
   const Index& upper() const { return hi; }
   int lower(size_t i) const { return lo[i]; }
   int upper(size_t i) const { return hi[i]; }
   int& lower(size_t i) { return lo[i]; }
   int& upper(size_t i) { return hi[i]; }
   void setLower(const Index& i) { lo = i; }
   void setUpper(const Index& i) { hi = i; }
   void setLower(size_t a, int x) { lo[a] = x; }
   void setUpper(size_t a, int x) { hi[a] = x; }
   int numberCells(size_t i) const { return hi[i] >= lo[i] ? hi[i] - lo[i] + 1 : 0; }
   IntVector numberCells() const { return IntVector(numberCells(0), numberCells(1), NDIM == 3 ? numberCells(2) : 1); }
   size_t size() const { size_t n = 1; for (int a = 0; a < NDIM; a++) n *= numberCells(a); return n; }
   bool empty() const { for (int a = 0; a < NDIM; a++) if (hi[a] < lo[a]) return true; return false; }
   void setEmpty() { *this = Box(getDim()); }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   bool contains(const Index& i) const { for (int a = 0; a < NDIM; a++) if (i[a] < lo[a] || i[a] > hi[a]) return false; return true; }
   bool contains(const Box& b) const { return b.empty() || (contains(b.lo) && contains(b.hi)); }
   bool operator==(const Box& b) const { return (empty() && b.empty()) || (lo == b.lo && hi == b.hi); }
   bool operator!=(const Box& b) const { return !(*this == b); }
   bool isSpatiallyEqual(const Box& b) const { return *this == b; }
   Box operator*(const Box& b) const { Box r(*this); for (int a = 0; a < NDIM; a++) { r.lo[a] = std::max(lo[a], b.lo[a]); r.hi[a] = std::min(hi[a], b.hi[a]); } return r; }
   Box& operator*=(const Box& b) { return *this = *this * b; }
   Box operator+(const Box& b) const { if (empty()) return b; if (b.empty()) return *this; Box r(*this); for (int a = 0; a < NDIM; a++) { r.lo[a] = std::min(lo[a], b.lo[a]); r.hi[a] = std::max(hi[a], b.hi[a]); } return r; }
   bool intersects(const Box& b) const { return !(*this * b).empty(); }
   void grow(const IntVector& g) { for (int a = 0; a < NDIM; a++) { lo[a] -= g[a]; hi[a] += g[a]; } }
   void grow(size_t a, int g) { lo[a] -= g; hi[a] += g; }
   void growLower(size_t a, int g) { lo[a] -= g; }
   void growUpper(size_t a, int g) { hi[a] += g; }
   void growUpper(const IntVector& g) { for (int a = 0; a < NDIM; a++) hi[a] += g[a]; }
   void growLower(const IntVector& g) { for (int a = 0; a < NDIM; a++) lo[a] -= g[a]; }
   void shorten(size_t a, int g) { if (g > 0) hi[a] -= g; else lo[a] -= g; }
   void shift(const IntVector& g) { for (int a = 0; a < NDIM; a++) { lo[a] += g[a]; hi[a] += g[a]; } }
   void shift(size_t a, int g) { lo[a] += g; hi[a] += g; }
   void refine(const IntVector& r) { for (int a = 0; a < NDIM; a++) { lo[a] *= r[a]; hi[a] = (hi[a] + 1) * r[a] - 1; } }
   void coarsen(const IntVector& r) { lo = Index::coarsen(lo, r); hi = Index::coarsen(hi, r); }
   static Box refine(const Box& b, const IntVector& r) { Box o(b); o.refine(r); return o; }
   static Box coarsen(const Box& b, const IntVector& r) { Box o(b); o.coarsen(r); return o; }
   static Box grow(const Box& b, const IntVector& g) { Box o(b); o.grow(g); return o; }
   static Box shift(const Box& b, const IntVector& g) { Box o(b); o.shift(g); return o; }
   size_t offset(const Index& i) const { size_t s = 0, m = 1; for (int a = 0; a < NDIM; a++) { s += m * (i[a] - lo[a]); m *= numberCells(a); } return s; }
   Index index(size_t k) const { Index i(lo); if (empty()) return i; for (int a = 0; a < NDIM; a++) { i[a] = lo[a] + (int)(k % numberCells(a)); k /= numberCells(a); } return i; }
   LocalId getLocalId() const { return LocalId(id); }
   GlobalId getGlobalId() const { return GlobalId(id); }
   BlockId getBlockId() const { return BlockId(); }
   void setBlockId(const BlockId&) {}
   int getOwnerRank() const { return 0; }
   iterator begin() const;
   iterator end() const;
   int id = 0;
 private:
   Index lo, hi;
};
inline std::ostream& operator<<(std::ostream& o, const Box& b) { return o << "[" << b.lower() << "," << b.upper() << "]"; }
class Box::iterator
{
 public:
   iterator(const Box& b, bool begin) : box(b), k(begin || b.empty() ? 0 : b.size()), i(b.index(k)) { if (begin && b.empty()) k = 0; }
   const Index& operator*() const { return i; }
   const Index* operator->() const { return &i; }
   iterator& operator++() { ++k; i = box.index(k); return *this; }
   iterator operator++(int) { iterator r(*this); ++*this; return r; }
   bool operator==(const iterator& o) const { return k == o.k; }
   bool operator!=(const iterator& o) const { return k != o.k; }
 private:
   Box box; size_t k; Index i;
};
inline Box::iterator Box::begin() const { return iterator(*this, true); }
inline Box::iterator Box::end() const { return iterator(*this, false); }

class BoxContainer
{
 public:
   typedef std::list<Box>::iterator iterator;
   typedef std::list<Box>::const_iterator const_iterator;
   BoxContainer() {}
   explicit BoxContainer(const Box& b) { l.push_back(b); }
   iterator begin() { return l.begin(); }
   iterator end() { return l.end(); }
   const_iterator begin() const { return l.begin(); }
   const_iterator end() const { return l.end(); }
   const Box& front() const { return l.front(); }
   const Box& back() const { return l.back(); }
   void push_back(const Box& b) { l.push_back(b); }
   void pushBack(const Box& b) { l.push_back(b); }
   void push_front(const Box& b) { l.push_front(b); }
   iterator insert(const Box& b) { l.push_back(b); return --l.end(); }
   int size() const { return (int)l.size(); }
   bool empty() const { return l.empty(); }
   bool isEmpty() const { return l.empty(); }
   Box getBoundingBox() const { Box r(tbox::Dimension(NDIM)); for (auto& b : l) r = r + b; return r; }
   void intersectBoxes(const Box& b) { for (auto& x : l) x *= b; l.remove_if([](const Box& x) { return x.empty(); }); }
   void removeIntersections(const Box& b);
   void removeIntersections(const BoxContainer& c) { for (auto& b : c) removeIntersections(b); }
   bool boxesIntersect() const { for (auto a = l.begin(); a != l.end(); ++a) for (auto b = std::next(a); b != l.end(); ++b) if (!(*a * *b).empty()) return true; return false; }
   void unorder() {}
   void print(std::ostream& = std::cout) const {}
   void order() {}
   void clear() { l.clear(); }
   void coarsen(const IntVector& r) { for (auto& b : l) b.coarsen(r); }
   void refine(const IntVector& r) { for (auto& b : l) b.refine(r); }
   void grow(const IntVector& g) { for (auto& b : l) b.grow(g); }
   void coalesce() {}
   void simplify() {}
   size_t getTotalSizeOfBoxes() const { size_t n = 0; for (auto& b : l) n += b.size(); return n; }
   bool contains(const Index& i) const { for (auto& b : l) if (b.contains(i)) return true; return false; }
 private:
   std::list<Box> l;
};
inline void BoxContainer::removeIntersections(const Box& t)
{
   std::list<Box> o;
   for (auto b : l) {
      if (!b.intersects(t)) { o.push_back(b); continue; }
      for (int a = 0; a < NDIM; a++) {
         if (b.lower(a) < t.lower(a)) { Box p(b); p.setUpper(a, t.lower(a) - 1); o.push_back(p); b.setLower(a, t.lower(a)); }
         if (b.upper(a) > t.upper(a)) { Box p(b); p.setLower(a, t.upper(a) + 1); o.push_back(p); b.setUpper(a, t.upper(a)); }
      }
   }
   l = o;
}

class BoundaryBox
{
 public:
   explicit BoundaryBox(const tbox::Dimension& d) : box(d), type(1), loc(0) {}
   BoundaryBox(const Box& b, int t, int l) : box(b), type(t), loc(l) {}
   const Box& getBox() const { return box; }
   int getBoundaryType() const { return type; }
   int getLocationIndex() const { return loc; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   void setIsMultiblockSingularity(bool) {}
   bool getIsMultiblockSingularity() const { return false; }
 private:
   Box box; int type, loc;
};
class BoundaryBoxUtils
{
 public:
   BoundaryBoxUtils() : bb(tbox::Dimension(NDIM)) {}
   explicit BoundaryBoxUtils(const BoundaryBox& b) : bb(b) {}
   void setBoundaryBox(const BoundaryBox& b) { bb = b; }
   // enlarge the boundary box outward from the patch
   void stretchBoxToGhostWidth(Box& box, const IntVector& g) const
   {
      box = bb.getBox();
      for (int a = 0; a < NDIM; a++) {
         if (bb.getLocationIndex() / 2 == a && bb.getBoundaryType() == 1) { if (bb.getLocationIndex() % 2 == 0) box.setLower(a, box.upper(a) - g[a] + 1); else box.setUpper(a, box.lower(a) + g[a] - 1); }
      }
   }
   void extendBoxOutward(Box& box, const IntVector& ext) const
   {
      box = bb.getBox();
      int a = bb.getLocationIndex() / 2;
      if (bb.getBoundaryType() == 1) { if (bb.getLocationIndex() % 2 == 0) box.growLower(a, ext[a]); else box.growUpper(a, ext[a]); }
   }
   const std::vector<int>& getOutwardShift() const { static std::vector<int> s(NDIM, 0); return s; }
   // the part of the boundary box next to the patch, excluding corners outside the patch's own range
   // along the directions parallel to the boundary (type 1 only)
   static BoundaryBox trimBoundaryBox(const BoundaryBox& b, const Box& lim)
   {
      if (b.getBoundaryType() != 1) ::verif_stop("unmodelled trimBoundaryBox", "samrai", 0);
      Box x(b.getBox());
      for (int a = 0; a < NDIM; a++) if (a != b.getLocationIndex() / 2) { x.setLower(a, std::max(x.lower(a), lim.lower(a))); x.setUpper(a, std::min(x.upper(a), lim.upper(a))); }
      return BoundaryBox(x, b.getBoundaryType(), b.getLocationIndex());
   }
   BoundaryBox trimBoundaryBox(const Box& lim) const { return trimBoundaryBox(bb, lim); }
   Box getSurfaceBoxFromBoundaryBox() const
   {
      Box box(bb.getBox());
      int a = bb.getLocationIndex() / 2;
      if (bb.getLocationIndex() % 2 == 0) { int u = box.upper(a); box.setLower(a, u + 1); box.setUpper(a, u + 1); }
      else box.setUpper(a, box.lower(a));
      return box;
   }
 private:
   BoundaryBox bb;
};

class PatchData
{
 public:
   PatchData(const Box& b, const IntVector& g) : d_box(b), d_gbox(Box::grow(b, g)), d_ghosts(g), d_time(0.) {}
   virtual ~PatchData() {}
   const Box& getBox() const { return d_box; }
   const Box& getGhostBox() const { return d_gbox; }
   const IntVector& getGhostCellWidth() const { return d_ghosts; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   void setTime(double t) { d_time = t; }
   double getTime() const { return d_time; }
   virtual void copy(const PatchData&) { ::verif_stop("copy", "model", 0); }
   virtual void copy2(PatchData& d) const { d.copy(*this); }
   // copies, on the overlap with the given box (cell index space), as a refine/coarsen schedule would
   virtual void copyOnBox(const PatchData&, const Box&) { ::verif_stop("copyOnBox", "model", 0); }
 protected:
   Box d_box, d_gbox; IntVector d_ghosts; double d_time;
};
class BoxOverlap { public: virtual ~BoxOverlap() {} };

class Variable
{
 public:
   Variable(const std::string& n, int depth) : d_name(n), d_depth(depth) { static int c = 0; d_id = c++; }
   virtual ~Variable() {}
   const std::string& getName() const { return d_name; }
   int getDepth() const { return d_depth; }
   int getInstanceIdentifier() const { return d_id; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   virtual std::shared_ptr<PatchData> make(const Box&, const IntVector&) const = 0;
 protected:
   std::string d_name; int d_depth, d_id;
};
class VariableContext { public: explicit VariableContext(const std::string& n) : d_name(n) {} const std::string& getName() const { return d_name; } int getIndex() const { return 0; } private: std::string d_name; };

class ComponentSelector
{
 public:
   explicit ComponentSelector(bool = false) {}
   void setFlag(int i) { s.insert(i); }
   void clrFlag(int i) { s.erase(i); }
   bool isSet(int i) const { return s.count(i); }
   void clrAllFlags() { s.clear(); }
   const std::set<int>& all() const { return s; }
   ComponentSelector operator|(const ComponentSelector& o) const { ComponentSelector r(*this); r.s.insert(o.s.begin(), o.s.end()); return r; }
   ComponentSelector& operator|=(const ComponentSelector& o) { s.insert(o.s.begin(), o.s.end()); return *this; }
 private:
   std::set<int> s;
};
class PatchDescriptor { public: int getMaxNumberRegisteredComponents() const { return 1000; } };

class VariableDatabase
{
 public:
   static VariableDatabase*& ptr() { static VariableDatabase* p = nullptr; return p; }
   static VariableDatabase* getDatabase() { if (!ptr()) ptr() = new VariableDatabase; return ptr(); }
   static void reset() { delete ptr(); ptr() = nullptr; }
   std::shared_ptr<VariableContext> getContext(const std::string& n) { auto& c = ctx[n]; if (!c) c = std::make_shared<VariableContext>(n); return c; }
   int registerVariableAndContext(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c, const IntVector& g = IntVector(tbox::Dimension(NDIM), 0))
   {
      for (size_t i = 0; i < e.size(); i++) if (e[i].v == v && e[i].c == c) return (int)i;
      e.push_back(Ent{v, c, g});
      return (int)e.size() - 1;
   }
   int registerClonedPatchDataIndex(const std::shared_ptr<Variable>& v, int old) { e.push_back(Ent{v, nullptr, e[old].g}); return (int)e.size() - 1; }
   int registerInternalSAMRAIVariable(const std::shared_ptr<Variable>& v, const IntVector& g) { return registerVariableAndContext(v, getContext("internal"), g); }
   void removePatchDataIndex(int) {}
   void removeInternalSAMRAIVariablePatchDataIndex(int) {}
   int mapVariableAndContextToIndex(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) { for (size_t i = 0; i < e.size(); i++) if (e[i].v == v && e[i].c == c) return (int)i; return -1; }
   bool mapIndexToVariable(int i, std::shared_ptr<Variable>& v) { if (i < 0 || i >= (int)e.size()) return false; v = e[i].v; return true; }
   bool mapIndexToVariableAndContext(int i, std::shared_ptr<Variable>& v, std::shared_ptr<VariableContext>& c) { if (!mapIndexToVariable(i, v)) return false; c = e[i].c; return true; }
   bool checkVariableExists(const std::string& n) { for (auto& x : e) if (x.v->getName() == n) return true; return false; }
   std::shared_ptr<Variable> getVariable(const std::string& n) { for (auto& x : e) if (x.v->getName() == n) return x.v; return nullptr; }
   std::shared_ptr<PatchData> make(int i, const Box& b) { if (i < 0 || i >= (int)e.size()) ::verif_stop("patch data index out of range", "model", 0); return e[i].v->make(b, e[i].g); }
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const { return std::make_shared<PatchDescriptor>(); }
   void printClassData(std::ostream&, bool = true) {}
   const IntVector& ghosts(int i) const { return e[i].g; }
 private:
   struct Ent { std::shared_ptr<Variable> v; std::shared_ptr<VariableContext> c; IntVector g; };
   std::vector<Ent> e;
   std::map<std::string, std::shared_ptr<VariableContext> > ctx;
};

class PatchGeometry
{
 public:
   virtual ~PatchGeometry() {}
   // [type-1]: boundary boxes of this codimension
   std::vector<std::vector<BoundaryBox> > bdry = std::vector<std::vector<BoundaryBox> >(3);
   const std::vector<BoundaryBox>& getCodimensionBoundaries(int c) const { return bdry[c - 1]; }
   const std::vector<BoundaryBox>& getNodeBoundaries() const { return bdry[NDIM - 1]; }
   const std::vector<BoundaryBox>& getEdgeBoundaries() const { return bdry[NDIM - 2]; }
   const std::vector<BoundaryBox>& getFaceBoundaries() const { return bdry[0]; }
   std::vector<BoundaryBox>& bdryOf(int c) { return bdry[c - 1]; }
   bool touch[3][2] = {{false, false}, {false, false}, {false, false}};
   bool getTouchesRegularBoundary(int a, int s) const { if (a < 0 || a >= NDIM) ::verif_stop("boundary of an axis that does not exist", "samrai", 0); return touch[a][s]; }
   bool getTouchesRegularBoundary() const { for (int a = 0; a < NDIM; a++) if (touch[a][0] || touch[a][1]) return true; return false; }
   bool getTouchesPeriodicBoundary() const { return false; }
   bool getTouchesRegularBoundary(int a) const { return touch[a][0] || touch[a][1]; }
   bool intersectsPhysicalBoundary() const { return getTouchesRegularBoundary(); }
   IntVector ratio = IntVector(tbox::Dimension(NDIM), 1);
   const IntVector& getRatio() const { return ratio; }
   // the ghost region of a boundary box
   Box getBoundaryFillBox(const BoundaryBox& bb, const Box& patch_box, const IntVector& g) const
   {
      Box b(bb.getBox());
      int n = bb.getLocationIndex();
      if (bb.getBoundaryType() == 1) { int a = n / 2; if (g[a] == 0) return Box(tbox::Dimension(NDIM)); if (n % 2 == 0) b.setLower(a, b.upper(a) - g[a] + 1); else b.setUpper(a, b.lower(a) + g[a] - 1); }
      else {
         for (int a = 0; a < NDIM; a++) {
            if (b.upper(a) < patch_box.lower(a)) b.setLower(a, b.upper(a) - g[a] + 1);
            else if (b.lower(a) > patch_box.upper(a)) b.setUpper(a, b.lower(a) + g[a] - 1);
         }
      }
      return b;
   }
};

class Patch
{
 public:
   explicit Patch(const Box& b, int id = 0, int level = 0) : d_box(b), d_id(id), d_level(level) { d_box.id = id; }
   const Box& getBox() const { return d_box; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   std::shared_ptr<PatchData> getPatchData(int i) const { auto k = d.find(i); if (k == d.end()) ::verif_stop("patch data not allocated", "model", 0); return k->second; }
   std::shared_ptr<PatchData> getPatchData(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) const { return getPatchData(VariableDatabase::getDatabase()->mapVariableAndContextToIndex(v, c)); }
   void setPatchData(int i, const std::shared_ptr<PatchData>& p) { d[i] = p; }
   void allocatePatchData(int i, double t = 0.) { if (!d.count(i)) { d[i] = VariableDatabase::getDatabase()->make(i, d_box); d[i]->setTime(t); } }
   void allocatePatchData(const ComponentSelector& s, double t = 0.) { for (int i : s.all()) allocatePatchData(i, t); }
   void deallocatePatchData(int i) { d.erase(i); }
   void deallocatePatchData(const ComponentSelector& s) { for (int i : s.all()) deallocatePatchData(i); }
   bool checkAllocated(int i) const { return d.count(i); }
   void setTime(double t, int i) { if (d.count(i)) d[i]->setTime(t); }
   void setTime(double t) { for (auto& x : d) x.second->setTime(t); }
   std::shared_ptr<PatchGeometry> getPatchGeometry() const { return d_geom; }
   void setPatchGeometry(const std::shared_ptr<PatchGeometry>& g) { d_geom = g; }
   const std::map<int, std::shared_ptr<PatchData> >& all() const { return d; }
   GlobalId getGlobalId() const { return GlobalId(d_id); }
   LocalId getLocalId() const { return LocalId(d_id); }
   int getPatchLevelNumber() const { return d_level; }
   bool inHierarchy() const { return true; }
 private:
   Box d_box; int d_id, d_level;
   std::map<int, std::shared_ptr<PatchData> > d;
   std::shared_ptr<PatchGeometry> d_geom;
};

class BaseGridGeometry { public: virtual ~BaseGridGeometry() {} tbox::Dimension getDim() const { return tbox::Dimension(NDIM); } int periodic[3] = {0, 0, 0}; IntVector getPeriodicShift(const IntVector&) const { IntVector r(tbox::Dimension(NDIM), 0); for (int d = 0; d < NDIM; d++) r[d] = periodic[d]; return r; } };
class BoxLevel { public: template <class... A> explicit BoxLevel(A&&...) {} BoxContainer getBoxes() const { return BoxContainer(); } int getGlobalNumberOfBoxes() const { return 0; } };
class PatchLevel
{
 public:
   typedef std::vector<std::shared_ptr<Patch> > V;
   class Iterator
   {
    public:
      Iterator() {}
      Iterator(const V::const_iterator& x) : i(x) {}
      const std::shared_ptr<Patch>& operator*() const { return *i; }
      const std::shared_ptr<Patch>& operator->() const { return *i; }
      Iterator& operator++() { ++i; return *this; }
      Iterator operator++(int) { Iterator r(*this); ++i; return r; }
      bool operator==(const Iterator& o) const { return i == o.i; }
      bool operator!=(const Iterator& o) const { return i != o.i; }
    private:
      V::const_iterator i;
   };
   typedef Iterator iterator;
   PatchLevel(int n, const IntVector& r, const std::shared_ptr<BaseGridGeometry>& g) : d_num(n), d_ratio(r), d_ratio0(r), d_geom(g) {}
   Iterator begin() const { return Iterator(p.begin()); }
   Iterator end() const { return Iterator(p.end()); }
   void add(const std::shared_ptr<Patch>& x) { p.push_back(x); }
   std::shared_ptr<Patch> getPatch(int i) const { return p.at(i); }
   std::shared_ptr<Patch> getPatch(const GlobalId& g) const { return p.at(g.getLocalId().getValue()); }
   int getLocalNumberOfPatches() const { return (int)p.size(); }
   int getGlobalNumberOfPatches() const { return (int)p.size(); }
   int getNumberOfPatches() const { return (int)p.size(); }
   int getLevelNumber() const { return d_num; }
   bool inHierarchy() const { return true; }
   const IntVector& getRatioToCoarserLevel() const { return d_ratio; }
   const IntVector& getRatioToLevelZero() const { return d_ratio0; }
   void setRatioToLevelZero(const IntVector& r) { d_ratio0 = r; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return d_geom; }
   void allocatePatchData(int i, double t = 0.) { for (auto& x : p) x->allocatePatchData(i, t); }
   void allocatePatchData(const ComponentSelector& s, double t = 0.) { for (auto& x : p) x->allocatePatchData(s, t); }
   void deallocatePatchData(int i) { for (auto& x : p) x->deallocatePatchData(i); }
   void deallocatePatchData(const ComponentSelector& s) { for (auto& x : p) x->deallocatePatchData(s); }
   bool checkAllocated(int i) const { for (auto& x : p) if (!x->checkAllocated(i)) return false; return true; }
   void setTime(double t, int i) { for (auto& x : p) x->setTime(t, i); }
   void setTime(double t) { for (auto& x : p) x->setTime(t); }
   BoxContainer getBoxes() const { BoxContainer c; for (auto& x : p) c.push_back(x->getBox()); return c; }
   BoxContainer domain;
   const BoxContainer& getPhysicalDomain(const BlockId&) const { return domain; }
   const BoxContainer& getPhysicalDomain() const { return domain; }
   std::shared_ptr<BoxLevel> getBoxLevel() const { return std::make_shared<BoxLevel>(); }
   int getGlobalNumberOfCells() const { int n = 0; for (auto& x : p) n += (int)x->getBox().size(); return n; }
   int getLocalNumberOfCells() const { return getGlobalNumberOfCells(); }
 private:
   int d_num; IntVector d_ratio, d_ratio0; V p;
   std::shared_ptr<BaseGridGeometry> d_geom;
};
class PatchHierarchy
{
 public:
   PatchHierarchy(const std::string& n, const std::shared_ptr<BaseGridGeometry>& g, const std::shared_ptr<tbox::Database>& = nullptr) : d_geom(g) { (void)n; }
   void add(const std::shared_ptr<PatchLevel>& x) { l.push_back(x); }
   void replace(int i, const std::shared_ptr<PatchLevel>& x) { l[i] = x; }
   void drop() { l.pop_back(); }
   std::shared_ptr<PatchLevel> getPatchLevel(int i) const { if (i < 0 || i >= (int)l.size()) ::verif_stop("no such level", "model", 0); return l[i]; }
   int getNumberOfLevels() const { return (int)l.size(); }
   int getFinestLevelNumber() const { return (int)l.size() - 1; }
   int getMaxNumberOfLevels() const { return maxlevels < 0 ? (int)l.size() : maxlevels; }
   int maxlevels = -1;
   bool levelCanBeRefined(int i) const { return i < getMaxNumberOfLevels() - 1; }
   bool finerLevelExists(int i) const { return i < getFinestLevelNumber(); }
   bool levelExists(int i) const { return i >= 0 && i <= getFinestLevelNumber(); }
   const IntVector& getRatioToCoarserLevel(int i) const { return getPatchLevel(i)->getRatioToCoarserLevel(); }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return d_geom; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   const tbox::SAMRAI_MPI& getMPI() const { return tbox::SAMRAI_MPI::getSAMRAIWorld(); }
   void initializeHierarchy() {}
   IntVector getSmallestPatchSize(int) const { return IntVector(tbox::Dimension(NDIM), 1); }
 private:
   std::shared_ptr<BaseGridGeometry> d_geom;
   std::vector<std::shared_ptr<PatchLevel> > l;
};
class PatchDataRestartManager { public: std::set<int> ids; static PatchDataRestartManager* getManager() { static PatchDataRestartManager m; return &m; } void registerPatchDataForRestart(int i) { ids.insert(i); } void unregisterPatchDataForRestart(int i) { ids.erase(i); } void clearPatchDataForRestart() { ids.clear(); } };

class TransferOperator
{
 public:
   explicit TransferOperator(const std::string& n) : d_name(n) {}
   virtual ~TransferOperator() {}
   const std::string& getOperatorName() const { return d_name; }
   virtual int getOperatorPriority() const { return 0; }
   virtual IntVector getStencilWidth(const tbox::Dimension& d) const { return IntVector(d, 1); }
 private:
   std::string d_name;
};
class RefineOperator : public TransferOperator
{
 public:
   explicit RefineOperator(const std::string& n) : TransferOperator(n) {}
   virtual void refine(Patch&, const Patch&, const int, const int, const BoxOverlap&, const IntVector&) const {}
};
class CoarsenOperator : public TransferOperator
{
 public:
   explicit CoarsenOperator(const std::string& n) : TransferOperator(n) {}
   virtual bool sides() const { return false; }      // model: also serves the sides shared with a neighbouring coarse patch
   virtual void coarsen(Patch&, const Patch&, const int, const int, const Box&, const IntVector&) const { ::verif_stop("unmodelled coarsening operator", "model", 0); }
};
class CoarseFineBoundary
{
 public:
   explicit CoarseFineBoundary(const tbox::Dimension&) {}
   // faces of the patches of a level behind which there is neither another patch of it nor the outside of the domain
   CoarseFineBoundary(const PatchHierarchy& h, int ln, const IntVector& g)
   {
      if (ln == 0) return;
      for (int a = 0; a < NDIM; a++) if (g[a] != 1) ::verif_stop("unmodelled coarse-fine boundary", "model", 0);
      int n = 0;
      for (auto& p : *h.getPatchLevel(ln)) {
         std::vector<std::vector<BoundaryBox> > r(3);
         for (int a = 0; a < NDIM; a++)
            for (int s = 0; s < 2; s++) {
               if (p->getPatchGeometry()->getTouchesRegularBoundary(a, s)) continue;
               Box b(p->getBox());
               if (s) { b.setLower(a, b.upper(a) + 1); b.setUpper(a, b.lower(a)); } else { b.setUpper(a, b.lower(a) - 1); b.setLower(a, b.upper(a)); }
               bool cover = false;
               for (auto& q : *h.getPatchLevel(ln)) {
                  Box x(q->getBox() * b);
                  if (x.empty()) continue;
                  if (x.size() != b.size()) ::verif_stop("unmodelled coarse-fine boundary", "model", 0);
                  cover = true;
               }
               if (!cover) r[0].push_back(BoundaryBox(b, 1, 2 * a + s));
            }
         this->b[n++] = r;
      }
   }
   std::map<int, std::vector<std::vector<BoundaryBox> > > b;
   const std::vector<BoundaryBox>& getBoundaries(const GlobalId& g, int codim, const BlockId& = BlockId::zero()) const { return get(g, codim); }
   const std::vector<BoundaryBox>& getFaceBoundaries(const GlobalId& g, const BlockId& = BlockId::zero()) const { return get(g, 1); }
   const std::vector<BoundaryBox>& getEdgeBoundaries(const GlobalId& g, const BlockId& = BlockId::zero()) const { return get(g, NDIM - 1); }
   const std::vector<BoundaryBox>& getNodeBoundaries(const GlobalId& g, const BlockId& = BlockId::zero()) const { return get(g, NDIM); }
   void clear() { b.clear(); }
   void clear(int) { b.clear(); }
 private:
   const std::vector<BoundaryBox>& get(const GlobalId& g, int c) const { static std::vector<BoundaryBox> none; auto i = b.find(g.getLocalId().getValue()); return i == b.end() ? none : i->second[c - 1]; }
};
}  // namespace hier

namespace pdat
{
class CellIndex : public hier::Index
{
 public:
   explicit CellIndex(const tbox::Dimension& d) : hier::Index(d) {}
   CellIndex(const hier::Index& i) : hier::Index(i) {}
};
class NodeIndex : public hier::Index { public: explicit NodeIndex(const hier::Index& i) : hier::Index(i) {} };
class SideIndex : public hier::Index
{
 public:
   enum { Left = 0, Right = 1, Bottom = 0, Top = 1, X = 0, Y = 1, Z = 2, Lower = 0, Upper = 1 };
   explicit SideIndex(const tbox::Dimension& d) : hier::Index(d), ax(0) {}
   SideIndex(const hier::Index& i, int axis, int side) : hier::Index(i), ax(axis) { (*this)[axis] += side; }
   int getAxis() const { return ax; }
   void setAxis(int a) { ax = a; }
   CellIndex toCell(int side) const { CellIndex c(*this); c[ax] += side - 1; return c; }
 private:
   int ax;
};
template <class TYPE> class ArrayData
{
 public:
   ArrayData(const hier::Box& b, int depth, const char* nm = "array") : d_box(b), d_depth(depth), d_n(b.size() * depth), d_p(d_n + 2 * PAD)
   {
      std::memset((void*)d_p.data(), 0xA5, d_p.size() * sizeof(TYPE));
      verif::reg_array(d_p.data() + PAD, d_n * sizeof(TYPE), nm);
   }
   ~ArrayData() { verif::unreg_array(d_p.data() + PAD); }
   ArrayData(const ArrayData&) = delete;
   const hier::Box& getBox() const { return d_box; }
   int getDepth() const { return d_depth; }
   size_t getOffset() const { return d_box.size(); }
   size_t size() const { return d_n; }
   bool isInitialized() const { return true; }
   TYPE* getPointer(int d = 0) { return d_p.data() + PAD + d_box.size() * d; }
   const TYPE* getPointer(int d = 0) const { return d_p.data() + PAD + d_box.size() * d; }
   TYPE& operator()(const hier::Index& i, int d) { return d_p[PAD + at(i, d)]; }
   const TYPE& operator()(const hier::Index& i, int d) const { return d_p[PAD + at(i, d)]; }
   void fillAll(const TYPE& t) { for (size_t i = 0; i < d_n; i++) d_p[PAD + i] = t; }
   void fillAll(const TYPE& t, const hier::Box& b) { for (int d = 0; d < d_depth; d++) fill(t, b, d); }
   void fill(const TYPE& t, int d = 0) { for (size_t i = 0; i < d_box.size(); i++) getPointer(d)[i] = t; }
   void fill(const TYPE& t, const hier::Box& b, int d = 0) { hier::Box c(b * d_box); if (c.empty()) return; for (auto& i : c) (*this)(i, d) = t; }
   void copy(const ArrayData& s, const hier::Box& b)
   {
      hier::Box c(b * d_box * s.d_box);
      if (c.empty()) return;
      for (int d = 0; d < d_depth; d++) for (auto& i : c) (*this)(i, d) = s(i, d);
   }
   // true when nobody wrote next to the storage
   bool intact() const
   {
      for (int k = 0; k < PAD; k++) {
         for (const TYPE* q : {&d_p[k], &d_p[d_p.size() - 1 - k]}) {
            const unsigned char* c = (const unsigned char*)q;
            for (size_t j = 0; j < sizeof(TYPE); j++) if (c[j] != 0xA5) return false;
         }
      }
      return true;
   }
 private:
   enum { PAD = 64 };
   size_t at(const hier::Index& i, int d) const
   {
      if (!d_box.contains(i) || d < 0 || d >= d_depth) ::verif_stop("array index out of range", "model", 0);
      return d_box.offset(i) + d * d_box.size();
   }
   hier::Box d_box; int d_depth; size_t d_n;
   std::vector<TYPE> d_p;
};
class CellOverlap : public hier::BoxOverlap
{
 public:
   explicit CellOverlap(const hier::BoxContainer& b) : d_b(b) {}
   const hier::BoxContainer& getDestinationBoxContainer() const { return d_b; }
   bool isOverlapEmpty() const { return d_b.empty(); }
 private:
   hier::BoxContainer d_b;
};
class CellIterator
{
 public:
   CellIterator(const hier::Box& b, bool begin) : i(begin ? b.begin() : b.end()), c(*i) {}
   const CellIndex& operator*() const { return c; }
   const CellIndex* operator->() const { return &c; }
   CellIterator& operator++() { ++i; c = CellIndex(*i); return *this; }
   CellIterator operator++(int) { CellIterator r(*this); ++*this; return r; }
   bool operator==(const CellIterator& o) const { return i == o.i; }
   bool operator!=(const CellIterator& o) const { return i != o.i; }
 private:
   hier::Box::iterator i; CellIndex c;
};
class CellGeometry { public: static CellIterator begin(const hier::Box& b) { return CellIterator(b, true); } static CellIterator end(const hier::Box& b) { return CellIterator(b, false); } };
class SideIterator
{
 public:
   SideIterator(const hier::Box& b, int a, bool begin) : ax(a), i(begin ? g(b, a).begin() : g(b, a).end()), c(*i, a, 0) {}
   const SideIndex& operator*() const { return c; }
   SideIterator& operator++() { ++i; c = SideIndex(*i, ax, 0); return *this; }
   SideIterator operator++(int) { SideIterator r(*this); ++*this; return r; }
   bool operator==(const SideIterator& o) const { return i == o.i; }
   bool operator!=(const SideIterator& o) const { return i != o.i; }
 private:
   static hier::Box g(const hier::Box& b, int a) { hier::Box r(b); r.growUpper(a, 1); return r; }
   int ax; hier::Box::iterator i; SideIndex c;
};
class SideGeometry
{
 public:
   static SideIterator begin(const hier::Box& b, int a) { return SideIterator(b, a, true); }
   static SideIterator end(const hier::Box& b, int a) { return SideIterator(b, a, false); }
   static hier::Box toSideBox(const hier::Box& b, int a) { hier::Box r(b); if (!r.empty()) r.growUpper(a, 1); return r; }
};

template <class TYPE> class CellData : public hier::PatchData
{
 public:
   CellData(const hier::Box& b, int depth, const hier::IntVector& g, const char* nm = "cell data") : hier::PatchData(b, g), d_a(getGhostBox(), depth, nm) {}
   int getDepth() const { return d_a.getDepth(); }
   TYPE* getPointer(int d = 0) { chk(d); return d_a.getPointer(d); }
   const TYPE* getPointer(int d = 0) const { chk(d); return d_a.getPointer(d); }
   TYPE& operator()(const CellIndex& i, int d = 0) { return d_a(i, d); }
   const TYPE& operator()(const CellIndex& i, int d = 0) const { return d_a(i, d); }
   ArrayData<TYPE>& getArrayData() { return d_a; }
   const ArrayData<TYPE>& getArrayData() const { return d_a; }
   void fillAll(const TYPE& t) { d_a.fillAll(t); }
   void fillAll(const TYPE& t, const hier::Box& b) { d_a.fillAll(t, b); }
   void fill(const TYPE& t, int d = 0) { d_a.fill(t, d); }
   void fill(const TYPE& t, const hier::Box& b, int d = 0) { d_a.fill(t, b, d); }
   void copy(const hier::PatchData& s) override { copyOnBox(s, s.getGhostBox()); }
   void copy2(hier::PatchData& d) const override { d.copy(*this); }
   void copyDepth(int dd, const CellData& s, int sd) { hier::Box c(getGhostBox() * s.getGhostBox()); for (auto& i : c) d_a(i, dd) = s.d_a(i, sd); }
   void copyOnBox(const hier::PatchData& s, const hier::Box& b) override
   {
      const CellData* q = dynamic_cast<const CellData*>(&s);
      if (!q) ::verif_stop("copy between different kinds of data", "model", 0);
      if (q->getDepth() != getDepth()) ::verif_stop("copy between different depths", "model", 0);
      d_a.copy(q->d_a, b);
   }
   void print(const hier::Box&, std::ostream& = std::cout, int = 12) const {}
 private:
   void chk(int d) const { if (d < 0 || d >= getDepth()) ::verif_stop("depth out of range", "model", 0); }
   ArrayData<TYPE> d_a;
};
template <class TYPE> class NodeData : public CellData<TYPE> { public: using CellData<TYPE>::CellData; };
template <class TYPE> class SideData : public hier::PatchData
{
 public:
   SideData(const hier::Box& b, int depth, const hier::IntVector& g, const char* nm = "side data") : hier::PatchData(b, g), d_depth(depth)
   {
      for (int a = 0; a < NDIM; a++) d_a[a].reset(new ArrayData<TYPE>(SideGeometry::toSideBox(getGhostBox(), a), depth, nm));
   }
   int getDepth() const { return d_depth; }
   const hier::IntVector& getDirectionVector() const { return hier::IntVector::getOne(tbox::Dimension(NDIM)); }
   TYPE* getPointer(int a, int d = 0) { chk(a, d); return d_a[a]->getPointer(d); }
   const TYPE* getPointer(int a, int d = 0) const { chk(a, d); return d_a[a]->getPointer(d); }
   TYPE& operator()(const SideIndex& i, int d = 0) { return (*d_a[i.getAxis()])(i, d); }
   const TYPE& operator()(const SideIndex& i, int d = 0) const { return (*d_a[i.getAxis()])(i, d); }
   ArrayData<TYPE>& getArrayData(int a) { chk(a, 0); return *d_a[a]; }
   const ArrayData<TYPE>& getArrayData(int a) const { chk(a, 0); return *d_a[a]; }
   void fillAll(const TYPE& t) { for (int a = 0; a < NDIM; a++) d_a[a]->fillAll(t); }
   void fillAll(const TYPE& t, const hier::Box& b) { for (int a = 0; a < NDIM; a++) d_a[a]->fillAll(t, SideGeometry::toSideBox(b, a)); }
   void fill(const TYPE& t, int d = 0) { for (int a = 0; a < NDIM; a++) d_a[a]->fill(t, d); }
   void fill(const TYPE& t, const hier::Box& b, int d = 0) { for (int a = 0; a < NDIM; a++) d_a[a]->fill(t, SideGeometry::toSideBox(b, a), d); }
   void copy(const hier::PatchData& s) override { copyOnBox(s, s.getGhostBox()); }
   void copyDepth(int dd, const SideData& s, int sd) { for (int a = 0; a < NDIM; a++) { hier::Box c(d_a[a]->getBox() * s.d_a[a]->getBox()); for (auto& i : c) (*d_a[a])(i, dd) = (*s.d_a[a])(i, sd); } }
   void copyOnBox(const hier::PatchData& s, const hier::Box& b) override
   {
      const SideData* q = dynamic_cast<const SideData*>(&s);
      if (!q) ::verif_stop("copy between different kinds of data", "model", 0);
      if (q->getDepth() != getDepth()) ::verif_stop("copy between different depths", "model", 0);
      for (int a = 0; a < NDIM; a++) d_a[a]->copy(*q->d_a[a], SideGeometry::toSideBox(b, a));
   }
   void print(const hier::Box&, std::ostream& = std::cout, int = 12) const {}
 private:
   void chk(int a, int d) const { if (a < 0 || a >= NDIM || d < 0 || d >= d_depth) ::verif_stop("side direction or depth out of range", "model", 0); }
   int d_depth;
   std::unique_ptr<ArrayData<TYPE> > d_a[3];
};
template <class TYPE> class OutersideData : public hier::PatchData
{
 public:
   OutersideData(const hier::Box& b, int depth, const hier::IntVector& = hier::IntVector(tbox::Dimension(NDIM), 0)) : hier::PatchData(b, hier::IntVector(tbox::Dimension(NDIM), 0)), d_depth(depth)
   {
      for (int a = 0; a < NDIM; a++) {
         hier::Box l(b); l.setUpper(a, l.lower(a));
         hier::Box h(b); h.setLower(a, b.upper(a) + 1); h.setUpper(a, b.upper(a) + 1);
         d_a[a][0].reset(new ArrayData<TYPE>(l, depth)); d_a[a][1].reset(new ArrayData<TYPE>(h, depth));
      }
   }
   int getDepth() const { return d_depth; }
   TYPE* getPointer(int a, int s, int d = 0) { return d_a[a][s]->getPointer(d); }
   const TYPE* getPointer(int a, int s, int d = 0) const { return d_a[a][s]->getPointer(d); }
   ArrayData<TYPE>& getArrayData(int a, int s) { return *d_a[a][s]; }
   const ArrayData<TYPE>& getArrayData(int a, int s) const { return *d_a[a][s]; }
   TYPE& operator()(const SideIndex& i, int s, int d = 0) { return (*d_a[i.getAxis()][s])(i, d); }
   void fillAll(const TYPE& t) { for (int a = 0; a < NDIM; a++) for (int s = 0; s < 2; s++) d_a[a][s]->fillAll(t); }
   void copy(const hier::PatchData& s) override
   {
      const SideData<TYPE>* q = dynamic_cast<const SideData<TYPE>*>(&s);
      if (!q) ::verif_stop("copy between different kinds of data", "model", 0);
      for (int a = 0; a < NDIM; a++) for (int k = 0; k < 2; k++) d_a[a][k]->copy(q->getArrayData(a), d_a[a][k]->getBox());
   }
 private:
   int d_depth;
   std::unique_ptr<ArrayData<TYPE> > d_a[3][2];
};
#define VERIF_VAR(KIND) \
   template <class TYPE> class KIND##Variable : public hier::Variable \
   { \
    public: \
      KIND##Variable(const tbox::Dimension&, const std::string& n, int depth = 1, bool = true) : hier::Variable(n, depth) {} \
      KIND##Variable(const tbox::Dimension&, const std::string& n, const hier::IntVector&, int depth) : hier::Variable(n, depth) {} \
      std::shared_ptr<hier::PatchData> make(const hier::Box& b, const hier::IntVector& g) const override { return std::make_shared<KIND##Data<TYPE> >(b, d_depth, g); } \
   };
VERIF_VAR(Cell)
VERIF_VAR(Side)
VERIF_VAR(Node)
VERIF_VAR(Outerside)
template <class TYPE, class OP> class ArrayDataOperationUtilities
{
 public:
   static void doArrayDataOperationOnBox(ArrayData<TYPE>& dst, const ArrayData<TYPE>& src, const hier::Box& opbox, const hier::IntVector& src_shift, unsigned int dst_depth, unsigned int src_depth, unsigned int num_depth, const OP& op)
   {
      for (unsigned int d = 0; d < num_depth; d++) for (auto& i : opbox) op(dst(i, dst_depth + d), src(i - src_shift, src_depth + d));
   }
};
}  // namespace pdat

namespace geom
{
class CartesianPatchGeometry : public hier::PatchGeometry
{
 public:
   CartesianPatchGeometry(const std::vector<double>& dx, const std::vector<double>& lo, const std::vector<double>& hi) : d_dx(dx), d_lo(lo), d_hi(hi) {}
   const double* getDx() const { return d_dx.data(); }
   const double* getXLower() const { return d_lo.data(); }
   const double* getXUpper() const { return d_hi.data(); }
 private:
   std::vector<double> d_dx, d_lo, d_hi;
};
// SAMRAI's CONSERVATIVE_COARSEN: averages of the fine cells (fine sides) that make up a coarse cell (side)
class ConservativeCoarsen : public hier::CoarsenOperator
{
 public:
   ConservativeCoarsen() : hier::CoarsenOperator("CONSERVATIVE_COARSEN") {}
   bool sides() const { return true; }
   void coarsen(hier::Patch& c, const hier::Patch& f, const int dst, const int src, const hier::Box& cb, const hier::IntVector& r) const
   {
      auto cc = std::dynamic_pointer_cast<pdat::CellData<double> >(c.getPatchData(dst));
      auto fc = std::dynamic_pointer_cast<pdat::CellData<double> >(f.getPatchData(src));
      auto cs = std::dynamic_pointer_cast<pdat::SideData<double> >(c.getPatchData(dst));
      auto fs = std::dynamic_pointer_cast<pdat::SideData<double> >(f.getPatchData(src));
      if (cc && fc) avg(cc->getArrayData(), fc->getArrayData(), cb * c.getBox(), r, -1);
      else if (cs && fs) for (int a = 0; a < NDIM; a++) avg(cs->getArrayData(a), fs->getArrayData(a), pdat::SideGeometry::toSideBox(cb, a) * pdat::SideGeometry::toSideBox(c.getBox(), a), r, a);
      else if (auto fo = std::dynamic_pointer_cast<pdat::OutersideData<double> >(f.getPatchData(src))) {
         if (!cs) ::verif_stop("unmodelled coarsening", "model", 0);
         for (int a = 0; a < NDIM; a++)
            for (int s = 0; s < 2; s++) {
               hier::Box b(pdat::SideGeometry::toSideBox(cb, a) * pdat::SideGeometry::toSideBox(c.getBox(), a));
               const int at = fo->getArrayData(a, s).getBox().lower(a) / r[a];      // (multiples of the ratio)
               b.setLower(a, std::max(b.lower(a), at));
               b.setUpper(a, std::min(b.upper(a), at));
               if (!b.empty()) avg(cs->getArrayData(a), fo->getArrayData(a, s), b, r, a);
            }
      }
      else ::verif_stop("unmodelled coarsening", "model", 0);
   }
 private:
   template <class A> static void avg(A& c, const A& f, const hier::Box& b, const hier::IntVector& r, int axis)
   {
      for (auto& i : b) for (int k = 0; k < c.getDepth(); k++) {
         hier::Index lo(i), hi(i);
         double w = 1.;
         for (int a = 0; a < NDIM; a++) { lo[a] = i[a] * r[a]; hi[a] = a == axis ? lo[a] : lo[a] + r[a] - 1; w = w * double(hi[a] - lo[a] + 1); }
         double t = 0.;
         for (auto& j : hier::Box(lo, hi)) t = t + f(j, k);
         c(i, k) = t / w;
      }
   }
};
class CartesianGridGeometry : public hier::BaseGridGeometry
{
 public:
   template <class D> CartesianGridGeometry(const tbox::Dimension&, const char*, const std::shared_ptr<D>&) { ::verif_stop("unmodelled geometry from a database", "model", 0); }
   CartesianGridGeometry(const std::vector<double>& dx, const std::vector<double>& lo, const std::vector<double>& hi) : d_dx(dx), d_lo(lo), d_hi(hi) {}
   const double* getDx() const { return d_dx.data(); }
   void getDx(const hier::IntVector& r, double* d) const { for (int a = 0; a < NDIM; a++) d[a] = d_dx[a] / double(r[a]); }
   const double* getXLower() const { return d_lo.data(); }
   const double* getXUpper() const { return d_hi.data(); }
   hier::BoxContainer domain;
   const hier::BoxContainer& getPhysicalDomain() const { return domain; }
   std::map<std::string, std::shared_ptr<hier::RefineOperator> > rops;
   std::map<std::string, std::shared_ptr<hier::CoarsenOperator> > cops;
   std::shared_ptr<hier::RefineOperator> lookupRefineOperator(const std::shared_ptr<hier::Variable>&, const std::string& n) { auto& r = rops[n]; if (!r) r = std::make_shared<hier::RefineOperator>(n); return r; }
   std::shared_ptr<hier::CoarsenOperator> lookupCoarsenOperator(const std::shared_ptr<hier::Variable>&, const std::string& n)
   {
      auto& r = cops[n];
      if (!r) r = n == "CONSERVATIVE_COARSEN" ? std::make_shared<ConservativeCoarsen>() : std::make_shared<hier::CoarsenOperator>(n);
      return r;
   }
   template <class T> void addRefineOperator(const char*, const T& op) { rops[op->getOperatorName()] = op; }
   template <class T> void addCoarsenOperator(const char*, const T& op) { cops[op->getOperatorName()] = op; }
   int getDomainIsSingleBox() const { return 1; }
 private:
   std::vector<double> d_dx, d_lo, d_hi;
};
}  // namespace geom

namespace math
{
template <class T> struct ArrOps
{
   static hier::Box cl(const pdat::ArrayData<T>& a, const hier::Box& b) { return a.getBox() * b; }
};
#define VERIF_EACH(A, B, C) { hier::Box verif_b((A).getBox() * (B)); if (!verif_b.empty()) for (int d = 0; d < (A).getDepth(); d++) for (auto& i : verif_b) { C; } }
// element-wise operations on one array
template <class T> struct AOps
{
   typedef pdat::ArrayData<T> A;
   static void setToScalar(A& x, const T& v, const hier::Box& b) { VERIF_EACH(x, b, x(i, d) = v) }
   static void scale(A& r, const T& s, const A& x, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = s * x(i, d)) }
   static void addScalar(A& r, const A& x, const T& s, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = x(i, d) + s) }
   static void add(A& r, const A& x, const A& y, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = x(i, d) + y(i, d)) }
   static void subtract(A& r, const A& x, const A& y, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = x(i, d) - y(i, d)) }
   static void multiply(A& r, const A& x, const A& y, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = x(i, d) * y(i, d)) }
   static void divide(A& r, const A& x, const A& y, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = x(i, d) / y(i, d)) }
   static void reciprocal(A& r, const A& x, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = T(1) / x(i, d)) }
   static void linearSum(A& r, const T& s, const A& x, const T& t, const A& y, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = s * x(i, d) + t * y(i, d)) }
   static void axpy(A& r, const T& s, const A& x, const A& y, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = s * x(i, d) + y(i, d)) }
   static void axmy(A& r, const T& s, const A& x, const A& y, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = s * x(i, d) - y(i, d)) }
   static void copy(A& r, const A& x, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = x(i, d)) }
   static void abs(A& r, const A& x, const hier::Box& b) { VERIF_EACH(r, b, r(i, d) = verif::vabs(x(i, d))) }
   static T mx(const A& x, const hier::Box& b) { T r = T(-1e300); VERIF_EACH(x, b, r = verif::vmax(r, x(i, d))) return r; }
   static T mn(const A& x, const hier::Box& b) { T r = T(1e300); VERIF_EACH(x, b, r = verif::vmin(r, x(i, d))) return r; }
   static T maxNorm(const A& x, const hier::Box& b) { T r = T(0); VERIF_EACH(x, b, r = verif::vmax(r, verif::vabs(x(i, d)))) return r; }
   static T sumabs(const A& x, const hier::Box& b, const A* w) { T r = T(0); VERIF_EACH(x, b, r = r + (w ? verif::vabs(x(i, d)) * (*w)(i, 0) : verif::vabs(x(i, d)))) return r; }
   static T sumsq(const A& x, const hier::Box& b, const A* w) { T r = T(0); VERIF_EACH(x, b, r = r + (w ? x(i, d) * x(i, d) * (*w)(i, 0) : x(i, d) * x(i, d))) return r; }
   static T dot(const A& x, const A& y, const hier::Box& b, const A* w) { T r = T(0); VERIF_EACH(x, b, r = r + (w ? x(i, d) * y(i, d) * (*w)(i, 0) : x(i, d) * y(i, d))) return r; }
   static T integral(const A& x, const hier::Box& b, const A& w) { T r = T(0); VERIF_EACH(x, b, r = r + x(i, d) * w(i, 0)) return r; }
   static T sum(const A& x, const hier::Box& b) { T r = T(0); VERIF_EACH(x, b, r = r + x(i, d)) return r; }
   static T weightedsumsq(const A& x, const A& y, const hier::Box& b, const A* w) { T r = T(0); VERIF_EACH(x, b, r = r + (w ? x(i, d) * y(i, d) * x(i, d) * y(i, d) * (*w)(i, 0) : x(i, d) * y(i, d) * x(i, d) * y(i, d))) return r; }
};
template <class T> class ArrayDataNormOpsReal
{
 public:
   typedef pdat::ArrayData<T> A;
   T maxNorm(const A& x, const hier::Box& b) const { return AOps<T>::maxNorm(x, b); }
   T L1Norm(const A& x, const hier::Box& b) const { return AOps<T>::sumabs(x, b, nullptr); }
   T L2Norm(const A& x, const hier::Box& b) const { return sqrt(AOps<T>::sumsq(x, b, nullptr)); }
   T dot(const A& x, const A& y, const hier::Box& b) const { return AOps<T>::dot(x, y, b, nullptr); }
   T min(const A& x, const hier::Box& b) const { return AOps<T>::mn(x, b); }
   T max(const A& x, const hier::Box& b) const { return AOps<T>::mx(x, b); }
};
template <class T> class ArrayDataBasicOps : public AOps<T> { public: T min(const pdat::ArrayData<T>& x, const hier::Box& b) const { return AOps<T>::mn(x, b); } T max(const pdat::ArrayData<T>& x, const hier::Box& b) const { return AOps<T>::mx(x, b); } };
template <class D> struct Arrays {};
template <class T> struct Arrays<pdat::CellData<T> >
{
   static int n() { return 1; }
   static pdat::ArrayData<T>& a(pdat::CellData<T>& d, int) { return d.getArrayData(); }
   static const pdat::ArrayData<T>& a(const pdat::CellData<T>& d, int) { return d.getArrayData(); }
   static hier::Box box(const hier::Box& b, int) { return b; }
};
template <class T> struct Arrays<pdat::SideData<T> >
{
   static int n() { return NDIM; }
   static pdat::ArrayData<T>& a(pdat::SideData<T>& d, int k) { return d.getArrayData(k); }
   static const pdat::ArrayData<T>& a(const pdat::SideData<T>& d, int k) { return d.getArrayData(k); }
   static hier::Box box(const hier::Box& b, int k) { return pdat::SideGeometry::toSideBox(b, k); }
};
#define VERIF_DIRS(S) for (int k = 0; k < X::n(); k++) { hier::Box bb(X::box(b, k)); S; }
template <class T, class DATA> class PatchOps
{
 public:
   typedef std::shared_ptr<DATA> P;
   typedef std::shared_ptr<const DATA> CP;
   typedef Arrays<DATA> X;
   void setToScalar(const P& r, const T& v, const hier::Box& b) const { VERIF_DIRS(AOps<T>::setToScalar(X::a(*r, k), v, bb)) }
   void scale(const P& r, const T& s, const CP& x, const hier::Box& b) const { VERIF_DIRS(AOps<T>::scale(X::a(*r, k), s, X::a(*x, k), bb)) }
   void addScalar(const P& r, const CP& x, const T& s, const hier::Box& b) const { VERIF_DIRS(AOps<T>::addScalar(X::a(*r, k), X::a(*x, k), s, bb)) }
   void add(const P& r, const CP& x, const CP& y, const hier::Box& b) const { VERIF_DIRS(AOps<T>::add(X::a(*r, k), X::a(*x, k), X::a(*y, k), bb)) }
   void subtract(const P& r, const CP& x, const CP& y, const hier::Box& b) const { VERIF_DIRS(AOps<T>::subtract(X::a(*r, k), X::a(*x, k), X::a(*y, k), bb)) }
   void multiply(const P& r, const CP& x, const CP& y, const hier::Box& b) const { VERIF_DIRS(AOps<T>::multiply(X::a(*r, k), X::a(*x, k), X::a(*y, k), bb)) }
   void divide(const P& r, const CP& x, const CP& y, const hier::Box& b) const { VERIF_DIRS(AOps<T>::divide(X::a(*r, k), X::a(*x, k), X::a(*y, k), bb)) }
   void linearSum(const P& r, const T& s, const CP& x, const T& t, const CP& y, const hier::Box& b) const { VERIF_DIRS(AOps<T>::linearSum(X::a(*r, k), s, X::a(*x, k), t, X::a(*y, k), bb)) }
   void axpy(const P& r, const T& s, const CP& x, const CP& y, const hier::Box& b) const { VERIF_DIRS(AOps<T>::axpy(X::a(*r, k), s, X::a(*x, k), X::a(*y, k), bb)) }
   void copyData(const P& r, const CP& x, const hier::Box& b) const { VERIF_DIRS(AOps<T>::copy(X::a(*r, k), X::a(*x, k), bb)) }
   T max(const CP& x, const hier::Box& b) const { T r = T(-1e300); VERIF_DIRS(r = verif::vmax(r, AOps<T>::mx(X::a(*x, k), bb))) return r; }
   T min(const CP& x, const hier::Box& b) const { T r = T(1e300); VERIF_DIRS(r = verif::vmin(r, AOps<T>::mn(X::a(*x, k), bb))) return r; }
   T maxNorm(const CP& x, const hier::Box& b) const { T r = T(0); VERIF_DIRS(r = verif::vmax(r, AOps<T>::maxNorm(X::a(*x, k), bb))) return r; }
   T L1Norm(const CP& x, const hier::Box& b, const CP& w = CP()) const { T r = T(0); VERIF_DIRS(r = r + AOps<T>::sumabs(X::a(*x, k), bb, w ? &X::a(*w, k) : nullptr)) return r; }
   T L2Norm(const CP& x, const hier::Box& b, const CP& w = CP()) const { T r = T(0); VERIF_DIRS(r = r + AOps<T>::sumsq(X::a(*x, k), bb, w ? &X::a(*w, k) : nullptr)) return sqrt(r); }
   T dot(const CP& x, const CP& y, const hier::Box& b, const CP& w = CP()) const { T r = T(0); VERIF_DIRS(r = r + AOps<T>::dot(X::a(*x, k), X::a(*y, k), bb, w ? &X::a(*w, k) : nullptr)) return r; }
   T integral(const CP& x, const hier::Box& b, const CP& w) const { T r = T(0); VERIF_DIRS(r = r + AOps<T>::integral(X::a(*x, k), bb, X::a(*w, k))) return r; }
};
template <class T> class PatchCellDataOpsReal : public PatchOps<T, pdat::CellData<T> > {};
template <class T> class PatchCellDataBasicOps : public PatchOps<T, pdat::CellData<T> > {};
template <class T> class PatchCellDataNormOpsReal : public PatchOps<T, pdat::CellData<T> > {};
template <class T> class PatchSideDataOpsReal : public PatchOps<T, pdat::SideData<T> > {};
template <class T> class PatchSideDataBasicOps : public PatchOps<T, pdat::SideData<T> > {};
template <class T> class PatchSideDataNormOpsReal : public PatchOps<T, pdat::SideData<T> > {};
template <class T> class HierarchyDataOpsReal
{
 public:
   virtual ~HierarchyDataOpsReal() {}
   virtual void resetLevels(int, int) = 0;
   virtual void copyData(int, int, bool = true) const = 0;
   virtual void setToScalar(int, const T&, bool = true) const = 0;
   virtual void scale(int, const T&, int, bool = true) const = 0;
   virtual void add(int, int, int, bool = true) const = 0;
   virtual void subtract(int, int, int, bool = true) const = 0;
   virtual void multiply(int, int, int, bool = true) const = 0;
   virtual void divide(int, int, int, bool = true) const = 0;
   virtual void linearSum(int, const T&, int, const T&, int, bool = true) const = 0;
   virtual void axpy(int, const T&, int, int, bool = true) const = 0;
   virtual T max(int, bool = true) const = 0;
   virtual T min(int, bool = true) const = 0;
   virtual T L1Norm(int, int = -1, bool = false) const = 0;
   virtual T L2Norm(int, int = -1, bool = false) const = 0;
   virtual T maxNorm(int, int = -1, bool = false) const = 0;
   virtual T dot(int, int, int = -1, bool = false) const = 0;
   virtual T integral(int, int) const = 0;
};
template <class T, class DATA> class HierOps : public HierarchyDataOpsReal<T>
{
 public:
   typedef Arrays<DATA> X;
   explicit HierOps(const std::shared_ptr<hier::PatchHierarchy>& hh, int c = -1, int f = -1) : h(hh), lc(c), lf(f) { if (c < 0 && hh) { lc = 0; lf = hh->getFinestLevelNumber(); } }
   void setPatchHierarchy(const std::shared_ptr<hier::PatchHierarchy>& hh) { h = hh; }
   void resetLevels(int c, int f) override { lc = c; lf = f; }
#define VERIF_HIER(S) for (int ln = lc; ln <= lf; ln++) { auto lev = h->getPatchLevel(ln); for (auto pp = lev->begin(); pp != lev->end(); ++pp) { auto& p = **pp; S; } }
#define VERIF_BOX(X_) hier::Box b(interior_only ? p.getBox() : (X_)->getGhostBox());
   void copyData(int r, int x, bool interior_only = true) const override { VERIF_HIER(auto R = g(p, r); auto A = g(p, x); VERIF_BOX(R) VERIF_DIRS(AOps<T>::copy(X::a(*R, k), X::a(*A, k), bb * X::a(*A, k).getBox()))) }
   void setToScalar(int r, const T& v, bool interior_only = true) const override { VERIF_HIER(auto R = g(p, r); VERIF_BOX(R) VERIF_DIRS(AOps<T>::setToScalar(X::a(*R, k), v, bb))) }
   void scale(int r, const T& s, int x, bool interior_only = true) const override { VERIF_HIER(auto R = g(p, r); auto A = g(p, x); VERIF_BOX(R) VERIF_DIRS(AOps<T>::scale(X::a(*R, k), s, X::a(*A, k), bb * X::a(*A, k).getBox()))) }
   void addScalar(int r, int x, const T& s, bool interior_only = true) const { VERIF_HIER(auto R = g(p, r); auto A = g(p, x); VERIF_BOX(R) VERIF_DIRS(AOps<T>::addScalar(X::a(*R, k), X::a(*A, k), s, bb * X::a(*A, k).getBox()))) }
#define VERIF_BIN(F) void F(int r, int x, int y, bool interior_only = true) const override { VERIF_HIER(auto R = g(p, r); auto A = g(p, x); auto B = g(p, y); VERIF_BOX(R) VERIF_DIRS(AOps<T>::F(X::a(*R, k), X::a(*A, k), X::a(*B, k), bb * X::a(*A, k).getBox() * X::a(*B, k).getBox()))) }
   VERIF_BIN(add) VERIF_BIN(subtract) VERIF_BIN(multiply) VERIF_BIN(divide)
   void linearSum(int r, const T& s, int x, const T& t, int y, bool interior_only = true) const override { VERIF_HIER(auto R = g(p, r); auto A = g(p, x); auto B = g(p, y); VERIF_BOX(R) VERIF_DIRS(AOps<T>::linearSum(X::a(*R, k), s, X::a(*A, k), t, X::a(*B, k), bb * X::a(*A, k).getBox() * X::a(*B, k).getBox()))) }
   void axpy(int r, const T& s, int x, int y, bool interior_only = true) const override { VERIF_HIER(auto R = g(p, r); auto A = g(p, x); auto B = g(p, y); VERIF_BOX(R) VERIF_DIRS(AOps<T>::axpy(X::a(*R, k), s, X::a(*A, k), X::a(*B, k), bb * X::a(*A, k).getBox() * X::a(*B, k).getBox()))) }
   T max(int x, bool interior_only = true) const override { T r = T(-1e300); VERIF_HIER(auto A = g(p, x); VERIF_BOX(A) VERIF_DIRS(r = verif::vmax(r, AOps<T>::mx(X::a(*A, k), bb)))) return r; }
   T min(int x, bool interior_only = true) const override { T r = T(1e300); VERIF_HIER(auto A = g(p, x); VERIF_BOX(A) VERIF_DIRS(r = verif::vmin(r, AOps<T>::mn(X::a(*A, k), bb)))) return r; }
   T maxNorm(int x, int vol = -1, bool = false) const override { T r = T(0); VERIF_HIER(auto A = g(p, x); hier::Box b(p.getBox()); VERIF_DIRS(r = verif::vmax(r, AOps<T>::maxNorm(X::a(*A, k), bb)))) return r; }
   T L1Norm(int x, int vol = -1, bool = false) const override { T r = T(0); VERIF_HIER(auto A = g(p, x); auto W = vol >= 0 ? g(p, vol) : nullptr; hier::Box b(p.getBox()); VERIF_DIRS(r = r + AOps<T>::sumabs(X::a(*A, k), bb, W ? &X::a(*W, k) : nullptr))) return r; }
   T L2Norm(int x, int vol = -1, bool = false) const override { T r = T(0); VERIF_HIER(auto A = g(p, x); auto W = vol >= 0 ? g(p, vol) : nullptr; hier::Box b(p.getBox()); VERIF_DIRS(r = r + AOps<T>::sumsq(X::a(*A, k), bb, W ? &X::a(*W, k) : nullptr))) return sqrt(r); }
   T weightedL2Norm(int x, int y, int vol = -1) const { T r = T(0); VERIF_HIER(auto A = g(p, x); auto Y = g(p, y); auto W = vol >= 0 ? g(p, vol) : nullptr; hier::Box b(p.getBox()); VERIF_DIRS(r = r + AOps<T>::weightedsumsq(X::a(*A, k), X::a(*Y, k), bb, W ? &X::a(*W, k) : nullptr))) return sqrt(r); }
   T dot(int x, int y, int vol = -1, bool = false) const override { T r = T(0); VERIF_HIER(auto A = g(p, x); auto Y = g(p, y); auto W = vol >= 0 ? g(p, vol) : nullptr; hier::Box b(p.getBox()); VERIF_DIRS(r = r + AOps<T>::dot(X::a(*A, k), X::a(*Y, k), bb, W ? &X::a(*W, k) : nullptr))) return r; }
   T integral(int x, int vol) const override { T r = T(0); VERIF_HIER(auto A = g(p, x); auto W = g(p, vol); hier::Box b(p.getBox()); VERIF_DIRS(r = r + AOps<T>::integral(X::a(*A, k), bb, X::a(*W, k)))) return r; }
   T sumControlVolumes(int x, int vol) const { T r = T(0); VERIF_HIER(auto W = g(p, vol); hier::Box b(p.getBox()); VERIF_DIRS(r = r + AOps<T>::sum(X::a(*W, k), bb))) return r; }
   int numberOfEntries(int x, bool = true) const { int n = 0; VERIF_HIER(n += (int)p.getBox().size()) return n; }
   void swapData(int, int) const {}
   void printData(int, std::ostream&, bool = true) const {}
   void copyLevelsFrom(const HierOps& o) { lc = o.lc; lf = o.lf; }
 private:
   static std::shared_ptr<DATA> g(hier::Patch& p, int i) { auto r = std::dynamic_pointer_cast<DATA>(p.getPatchData(i)); if (!r) ::verif_stop("patch data of another kind", "model", 0); return r; }
   std::shared_ptr<hier::PatchHierarchy> h; int lc, lf;
};
template <class T> class HierarchyCellDataOpsReal : public HierOps<T, pdat::CellData<T> > { public: using HierOps<T, pdat::CellData<T> >::HierOps; };
template <class T> class HierarchySideDataOpsReal : public HierOps<T, pdat::SideData<T> > { public: using HierOps<T, pdat::SideData<T> >::HierOps; };
class HierarchyDataOpsManager
{
 public:
   static HierarchyDataOpsManager* getManager() { static HierarchyDataOpsManager m; return &m; }
   std::shared_ptr<HierarchyDataOpsReal<double> > getOperationsDouble(const std::shared_ptr<hier::Variable>& v, const std::shared_ptr<hier::PatchHierarchy>& h, bool = false)
   {
      if (std::dynamic_pointer_cast<pdat::SideVariable<double> >(v)) return std::make_shared<HierarchySideDataOpsReal<double> >(h);
      return std::make_shared<HierarchyCellDataOpsReal<double> >(h);
   }
};
}  // namespace math
}  // namespace SAMRAI
#include "samrai2.h"
#endif
