// model of the HYPRE interfaces used: a solver returns an arbitrary vector; the systems it was given are kept
#ifndef VERIF_HYPRE_IMPL_H
#define VERIF_HYPRE_IMPL_H
#include "hypre_model.h"
#include "fixture.h"
namespace hyp {
using fx::R;
typedef std::vector<int> Ix;
inline Ix ix(const int* p) { return Ix(p, p + NDIM); }
inline Ix ix(const hier::Index& i) { Ix r(NDIM); for (int a = 0; a < NDIM; a++) r[a] = i[a]; return r; }
struct Grid {
   std::vector<std::pair<Ix, Ix> > b;
   bool done = false;
   bool has(const Ix& i) const { for (auto& x : b) { bool in = true; for (int a = 0; a < NDIM; a++) in = in && i[a] >= x.first[a] && i[a] <= x.second[a]; if (in) return true; } return false; }
};
struct Stencil { std::vector<Ix> off; };
struct Graph { Grid* g; Stencil* s; };
struct Mat { Grid* g; Stencil* s; bool sym = false, done = false; std::map<Ix, std::map<int, R> > e; };
struct Vec { Grid* g; bool done = false; std::map<Ix, R> v; };
struct Solver { std::string kind; Mat* A = nullptr; R tol = 0.; };
struct System { Mat A; Vec b, x0, x; };
inline std::vector<System>& systems() { static std::vector<System> s; return s; }
inline void need(bool c, const char* what) { ::verif::prove(::verif::B(c), std::string("HYPRE: ") + what); }
template <class F> void each(const int* lo, const int* hi, F f)
{
   hier::Index l(tbox::Dimension(NDIM), 0), h(l);
   for (int a = 0; a < NDIM; a++) { l[a] = lo[a]; h[a] = hi[a]; }
   size_t n = 0;
   for (auto& i : hier::Box(l, h)) f(ix(i), n++);
}
inline void entries(Mat* m, const int* lo, const int* hi, int n, const int* idx, const double* v)
{
   each(lo, hi, [&](const Ix& i, size_t c) {
      need(m->g->has(i), "matrix entries set outside of the grid");
      for (int k = 0; k < n; k++) {
         need(idx[k] >= 0 && idx[k] < int(m->s->off.size()), "no such stencil entry");
         m->e[i][idx[k]] = v[c * n + k];
      }
   });
}
inline void put(Vec* x, const int* lo, const int* hi, const double* v) { each(lo, hi, [&](const Ix& i, size_t c) { need(x->g->has(i), "vector entries set outside of the grid"); x->v[i] = v[c]; }); }
inline void get(Vec* x, const int* lo, const int* hi, double* v) { each(lo, hi, [&](const Ix& i, size_t c) { v[c] = x->v.at(i); }); }
inline int solve(Solver* s, Mat* A, Vec* b, Vec* x)
{
   need(s->A == A, "solver set up for another matrix");
   need(A->done && b->done && x->done, "objects not assembled");
   System y{*A, *b, *x, *x};
   const int n = systems().size();
   for (auto& i : x->g->b) each(i.first.data(), i.second.data(), [&](const Ix& j, size_t) {
      std::string l = "x" + std::to_string(n) + "[";
      for (int a = 0; a < NDIM; a++) l += (a ? "," : "") + std::to_string(j[a]);
      x->v[j] = ::verif::real(l + "]");
   });
   y.x = *x;
   systems().push_back(y);
   return 0;
}
// row i of the system: A x - b
inline R row(const System& s, const Ix& i)
{
   R r = -s.b.v.at(i);
   auto& off = s.A.s->off;
   auto& e = s.A.e.at(i);
   for (size_t k = 0; k < off.size(); k++) {
      need(e.count(k), "matrix entry not set");
      Ix j(i), o(i);
      bool centre = true;
      for (int a = 0; a < NDIM; a++) { j[a] += off[k][a]; o[a] -= off[k][a]; centre = centre && off[k][a] == 0; }
      if (s.A.g->has(j)) r = r + e.at(k) * s.x.v.at(j);
      if (s.A.sym && !centre && s.A.g->has(o)) r = r + s.A.e.at(o).at(k) * s.x.v.at(o);
   }
   return r;
}
}
extern "C" {
#define H_(t, p) reinterpret_cast<hyp::t*>(p)
int HYPRE_StructGridCreate(int, int d, HYPRE_StructGrid* g) { hyp::need(d == NDIM, "dimension"); *g = reinterpret_cast<HYPRE_StructGrid>(new hyp::Grid); return 0; }
int HYPRE_StructGridDestroy(HYPRE_StructGrid) { return 0; }
int HYPRE_StructGridSetExtents(HYPRE_StructGrid g, int* l, int* u) { H_(Grid, g)->b.push_back({hyp::ix(l), hyp::ix(u)}); return 0; }
int HYPRE_StructGridSetPeriodic(HYPRE_StructGrid, int* p) { for (int a = 0; a < NDIM; a++) if (p[a]) ::verif_stop("unmodelled periodic grid", "hypre", 0); return 0; }
int HYPRE_StructGridAssemble(HYPRE_StructGrid g) { H_(Grid, g)->done = true; return 0; }
int HYPRE_StructStencilCreate(int d, int n, HYPRE_StructStencil* s) { hyp::need(d == NDIM, "dimension"); auto x = new hyp::Stencil; x->off.resize(n); *s = reinterpret_cast<HYPRE_StructStencil>(x); return 0; }
int HYPRE_StructStencilDestroy(HYPRE_StructStencil) { return 0; }
int HYPRE_StructStencilSetElement(HYPRE_StructStencil s, int k, int* o) { H_(Stencil, s)->off.at(k) = hyp::ix(o); return 0; }
int HYPRE_StructMatrixCreate(int, HYPRE_StructGrid g, HYPRE_StructStencil s, HYPRE_StructMatrix* m) { auto x = new hyp::Mat; x->g = H_(Grid, g); x->s = H_(Stencil, s); *m = reinterpret_cast<HYPRE_StructMatrix>(x); return 0; }
int HYPRE_StructMatrixDestroy(HYPRE_StructMatrix) { return 0; }
int HYPRE_StructMatrixSetNumGhost(HYPRE_StructMatrix, int*) { return 0; }
int HYPRE_StructMatrixSetSymmetric(HYPRE_StructMatrix m, int s) { H_(Mat, m)->sym = s; return 0; }
int HYPRE_StructMatrixInitialize(HYPRE_StructMatrix m) { H_(Mat, m)->e.clear(); return 0; }
int HYPRE_StructMatrixAssemble(HYPRE_StructMatrix m) { H_(Mat, m)->done = true; return 0; }
int HYPRE_StructMatrixPrint(const char*, HYPRE_StructMatrix, int) { return 0; }
int HYPRE_StructMatrixSetBoxValues(HYPRE_StructMatrix m, int* l, int* u, int n, int* k, double* v) { hyp::entries(H_(Mat, m), l, u, n, k, v); return 0; }
int HYPRE_StructVectorCreate(int, HYPRE_StructGrid g, HYPRE_StructVector* v) { auto x = new hyp::Vec; x->g = H_(Grid, g); *v = reinterpret_cast<HYPRE_StructVector>(x); return 0; }
int HYPRE_StructVectorDestroy(HYPRE_StructVector) { return 0; }
int HYPRE_StructVectorSetNumGhost(HYPRE_StructVector, int*) { return 0; }
int HYPRE_StructVectorInitialize(HYPRE_StructVector) { return 0; }
int HYPRE_StructVectorAssemble(HYPRE_StructVector v) { H_(Vec, v)->done = true; return 0; }
int HYPRE_StructVectorPrint(const char*, HYPRE_StructVector, int) { return 0; }
int HYPRE_StructVectorSetBoxValues(HYPRE_StructVector x, int* l, int* u, double* v) { hyp::put(H_(Vec, x), l, u, v); return 0; }
int HYPRE_StructVectorGetBoxValues(HYPRE_StructVector x, int* l, int* u, double* v) { hyp::get(H_(Vec, x), l, u, v); return 0; }
int HYPRE_StructVectorSetConstantValues(HYPRE_StructVector x, double v) { auto y = H_(Vec, x); for (auto& b : y->g->b) hyp::each(b.first.data(), b.second.data(), [&](const hyp::Ix& i, size_t) { y->v[i] = v; }); return 0; }
#define H_SOLVER(K) \
int HYPRE_Struct##K##Create(int, HYPRE_StructSolver* s) { auto x = new hyp::Solver; x->kind = #K; *s = reinterpret_cast<HYPRE_StructSolver>(x); return 0; } \
int HYPRE_Struct##K##Destroy(HYPRE_StructSolver) { return 0; } \
int HYPRE_Struct##K##Setup(HYPRE_StructSolver s, HYPRE_StructMatrix A, HYPRE_StructVector, HYPRE_StructVector) { hyp::need(H_(Solver, s)->kind == #K, "solver of another kind"); H_(Solver, s)->A = H_(Mat, A); return 0; } \
int HYPRE_Struct##K##Solve(HYPRE_StructSolver s, HYPRE_StructMatrix A, HYPRE_StructVector b, HYPRE_StructVector x) { hyp::need(H_(Solver, s)->kind == #K, "solver of another kind"); return hyp::solve(H_(Solver, s), H_(Mat, A), H_(Vec, b), H_(Vec, x)); } \
int HYPRE_Struct##K##SetLogging(HYPRE_StructSolver, int) { return 0; } \
int HYPRE_Struct##K##SetPrintLevel(HYPRE_StructSolver, int) { return 0; } \
int HYPRE_Struct##K##SetMaxIter(HYPRE_StructSolver, int) { return 0; } \
int HYPRE_Struct##K##SetNumPreRelax(HYPRE_StructSolver, int) { return 0; } \
int HYPRE_Struct##K##SetNumPostRelax(HYPRE_StructSolver, int) { return 0; } \
int HYPRE_Struct##K##SetMemoryUse(HYPRE_StructSolver, int) { return 0; } \
int HYPRE_Struct##K##SetTol(HYPRE_StructSolver s, double t) { H_(Solver, s)->tol = t; return 0; } \
int HYPRE_Struct##K##SetZeroGuess(HYPRE_StructSolver) { return 0; } \
int HYPRE_Struct##K##GetNumIterations(HYPRE_StructSolver, int* n) { *n = 3; return 0; } \
int HYPRE_Struct##K##GetFinalRelativeResidualNorm(HYPRE_StructSolver, double* r) { static const char* nm = "hypre residual norm"; *r = ::verif::cfg("norm") ? ::verif::real(nm + std::to_string(hyp::systems().size()), 0., 1.) : fx::R(0.); return 0; }
H_SOLVER(PCG)
H_SOLVER(PFMG)
H_SOLVER(SMG)
H_SOLVER(CycRed)
int HYPRE_StructPCGSetPrecond(HYPRE_StructSolver, int (*)(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector), int (*)(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector), HYPRE_StructSolver) { return 0; }
int HYPRE_SStructGridCreate(int, int d, int parts, HYPRE_SStructGrid* g) { hyp::need(d == NDIM && parts == 1, "dimension and parts"); *g = reinterpret_cast<HYPRE_SStructGrid>(new hyp::Grid); return 0; }
int HYPRE_SStructGridDestroy(HYPRE_SStructGrid) { return 0; }
int HYPRE_SStructGridSetExtents(HYPRE_SStructGrid g, int, int* l, int* u) { H_(Grid, g)->b.push_back({hyp::ix(l), hyp::ix(u)}); return 0; }
int HYPRE_SStructGridSetPeriodic(HYPRE_SStructGrid, int, int* p) { for (int a = 0; a < NDIM; a++) if (p[a]) ::verif_stop("unmodelled periodic grid", "hypre", 0); return 0; }
int HYPRE_SStructGridSetVariables(HYPRE_SStructGrid, int, int n, HYPRE_SStructVariable* t) { hyp::need(n == 1 && t[0] == HYPRE_SSTRUCT_VARIABLE_CELL, "one cell variable"); return 0; }
int HYPRE_SStructGridAssemble(HYPRE_SStructGrid g) { H_(Grid, g)->done = true; return 0; }
int HYPRE_SStructStencilCreate(int d, int n, HYPRE_SStructStencil* s) { hyp::need(d == NDIM, "dimension"); auto x = new hyp::Stencil; x->off.resize(n); *s = reinterpret_cast<HYPRE_SStructStencil>(x); return 0; }
int HYPRE_SStructStencilDestroy(HYPRE_SStructStencil) { return 0; }
int HYPRE_SStructStencilSetEntry(HYPRE_SStructStencil s, int k, int* o, int) { H_(Stencil, s)->off.at(k) = hyp::ix(o); return 0; }
int HYPRE_SStructGraphCreate(int, HYPRE_SStructGrid g, HYPRE_SStructGraph* r) { *r = reinterpret_cast<HYPRE_SStructGraph>(new hyp::Graph{H_(Grid, g), nullptr}); return 0; }
int HYPRE_SStructGraphDestroy(HYPRE_SStructGraph) { return 0; }
int HYPRE_SStructGraphSetObjectType(HYPRE_SStructGraph, int) { return 0; }
int HYPRE_SStructGraphSetStencil(HYPRE_SStructGraph r, int, int, HYPRE_SStructStencil s) { H_(Graph, r)->s = H_(Stencil, s); return 0; }
int HYPRE_SStructGraphAssemble(HYPRE_SStructGraph) { return 0; }
int HYPRE_SStructMatrixCreate(int, HYPRE_SStructGraph r, HYPRE_SStructMatrix* m) { auto x = new hyp::Mat; x->g = H_(Graph, r)->g; x->s = H_(Graph, r)->s; *m = reinterpret_cast<HYPRE_SStructMatrix>(x); return 0; }
int HYPRE_SStructMatrixDestroy(HYPRE_SStructMatrix) { return 0; }
int HYPRE_SStructMatrixSetSymmetric(HYPRE_SStructMatrix m, int, int, int, int s) { H_(Mat, m)->sym = s; return 0; }
int HYPRE_SStructMatrixSetObjectType(HYPRE_SStructMatrix, int) { return 0; }
int HYPRE_SStructMatrixInitialize(HYPRE_SStructMatrix m) { H_(Mat, m)->e.clear(); return 0; }
int HYPRE_SStructMatrixAssemble(HYPRE_SStructMatrix m) { H_(Mat, m)->done = true; return 0; }
int HYPRE_SStructMatrixPrint(const char*, HYPRE_SStructMatrix, int) { return 0; }
int HYPRE_SStructMatrixGetObject(HYPRE_SStructMatrix m, void** o) { *o = m; return 0; }
int HYPRE_SStructMatrixSetBoxValues(HYPRE_SStructMatrix m, int, int* l, int* u, int, int n, int* k, double* v) { hyp::entries(H_(Mat, m), l, u, n, k, v); return 0; }
int HYPRE_SStructVectorCreate(int, HYPRE_SStructGrid g, HYPRE_SStructVector* v) { auto x = new hyp::Vec; x->g = H_(Grid, g); *v = reinterpret_cast<HYPRE_SStructVector>(x); return 0; }
int HYPRE_SStructVectorDestroy(HYPRE_SStructVector) { return 0; }
int HYPRE_SStructVectorSetObjectType(HYPRE_SStructVector, int) { return 0; }
int HYPRE_SStructVectorInitialize(HYPRE_SStructVector) { return 0; }
int HYPRE_SStructVectorAssemble(HYPRE_SStructVector v) { H_(Vec, v)->done = true; return 0; }
int HYPRE_SStructVectorPrint(const char*, HYPRE_SStructVector, int) { return 0; }
int HYPRE_SStructVectorGetObject(HYPRE_SStructVector v, void** o) { *o = v; return 0; }
int HYPRE_SStructVectorGather(HYPRE_SStructVector) { return 0; }
int HYPRE_SStructVectorSetBoxValues(HYPRE_SStructVector x, int, int* l, int* u, int, double* v) { hyp::put(H_(Vec, x), l, u, v); return 0; }
int HYPRE_SStructVectorGetBoxValues(HYPRE_SStructVector x, int, int* l, int* u, int, double* v) { hyp::get(H_(Vec, x), l, u, v); return 0; }
int HYPRE_BoomerAMGCreate(...) { ::verif_stop("unmodelled AMG solver", "hypre", 0); }
#define H_NO(n) int HYPRE_##n(...) { ::verif_stop("unmodelled AMG solver", "hypre", 0); }
H_NO(BoomerAMGDestroy) H_NO(BoomerAMGGetFinalRelativeResidualNorm) H_NO(BoomerAMGGetNumIterations) H_NO(BoomerAMGSetCoarsenType) H_NO(BoomerAMGSetMaxIter) H_NO(BoomerAMGSetPrintFileName) H_NO(BoomerAMGSetPrintLevel) H_NO(BoomerAMGSetStrongThreshold)
H_NO(BoomerAMGSetTol) H_NO(BoomerAMGSetup) H_NO(BoomerAMGSolve) H_NO(PCGGetFinalRelativeResidualNorm) H_NO(PCGGetNumIterations) H_NO(PCGSetLogging) H_NO(PCGSetMaxIter) H_NO(PCGSetPrintLevel) H_NO(PCGSetTol) H_NO(ParCSRPCGCreate) H_NO(ParCSRPCGDestroy)
H_NO(ParCSRPCGSetPrecond) H_NO(ParCSRPCGSetup) H_NO(ParCSRPCGSolve)
}
#endif
