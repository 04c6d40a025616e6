// declarations only; nothing here is run
#ifndef VERIF_CVODE_H
#define VERIF_CVODE_H
extern "C++" {
#include <functional>
#include "samrai.h"
#include "verif.h"
typedef double realtype;
typedef int booleantype;
typedef long sunindextype;
struct _generic_N_Vector;
typedef _generic_N_Vector* N_Vector;
struct _generic_N_Vector_Ops {
   void* nvgetvectorid; N_Vector (*nvclone)(N_Vector); N_Vector (*nvcloneempty)(N_Vector); void (*nvdestroy)(N_Vector); void* nvspace; void* nvgetarraypointer; void* nvsetarraypointer;
   void (*nvlinearsum)(realtype, N_Vector, realtype, N_Vector, N_Vector); void (*nvconst)(realtype, N_Vector); void (*nvprod)(N_Vector, N_Vector, N_Vector); void (*nvdiv)(N_Vector, N_Vector, N_Vector);
   void (*nvscale)(realtype, N_Vector, N_Vector); void (*nvabs)(N_Vector, N_Vector); void (*nvinv)(N_Vector, N_Vector); void (*nvaddconst)(N_Vector, realtype, N_Vector); realtype (*nvdotprod)(N_Vector, N_Vector);
   realtype (*nvmaxnorm)(N_Vector); realtype (*nvwrmsnorm)(N_Vector, N_Vector); void* nvwrmsnormmask; realtype (*nvmin)(N_Vector); realtype (*nvwl2norm)(N_Vector, N_Vector); realtype (*nvl1norm)(N_Vector);
   void (*nvcompare)(realtype, N_Vector, N_Vector); booleantype (*nvinvtest)(N_Vector, N_Vector); void* nvconstrmask; void* nvminquotient; sunindextype (*nvgetlength)(N_Vector);
};
struct _generic_N_Vector { void* content; _generic_N_Vector_Ops* ops; };
typedef _generic_N_Vector_Ops* N_Vector_Ops;
typedef void* SUNLinearSolver;
typedef void* SUNContext;
#define CV_ADAMS 1
#define CV_BDF 2
#define CV_NORMAL 1
#define CV_ONE_STEP 2
#define CV_SUCCESS 0
#define CV_FUNCTIONAL 1
#define CV_NEWTON 2
#define PREC_NONE 0
#define PREC_LEFT 1
#define PREC_RIGHT 2
#define PREC_BOTH 3
#define MODIFIED_GS 1
#define CLASSICAL_GS 2
#define SUN_PREC_NONE 0
#define SUN_PREC_LEFT 1
typedef int (*CVRhsFn)(realtype, N_Vector, N_Vector, void*);
typedef int (*CVProjFn)(realtype, N_Vector, N_Vector, realtype, N_Vector, void*);
typedef int (*CVSpilsPrecSetupFn)(realtype, N_Vector, N_Vector, booleantype, booleantype*, realtype, void*);
typedef int (*CVSpilsPrecSolveFn)(realtype, N_Vector, N_Vector, N_Vector, N_Vector, realtype, realtype, int, void*);
// what the integrator was told
struct CVodeModel {
   int lmm = 0, maxl = -1, prec = -1, lsetup = -1, ord = -1, hnil = -1, itask = -1, setup = 0; long steps = -1;
   bool init = false, has_init = false, has_max = false, has_min = false, freed = false, ls_freed = false;
   CVRhsFn rhs = nullptr, jtimes = nullptr; CVProjFn proj = nullptr; CVSpilsPrecSetupFn pset = nullptr; CVSpilsPrecSolveFn psolve = nullptr;
   realtype t0, rtol, atol, hinit, hmax, hmin, tout; N_Vector y0 = nullptr, y = nullptr, like = nullptr; void* user = nullptr; void* ls = nullptr; bool attached = false;
};
inline CVodeModel*& cvode_now() { static CVodeModel* p = nullptr; return p; }
#define VERIF_CV ((CVodeModel*)mem)
inline void* CVodeCreate(int lmm) { auto p = new CVodeModel; p->lmm = lmm; cvode_now() = p; return p; }
inline int CVodeInit(void* mem, CVRhsFn f, realtype t0, N_Vector y0) { VERIF_CV->rhs = f; VERIF_CV->t0 = t0; VERIF_CV->y0 = y0; VERIF_CV->init = true; return 0; }
inline int CVodeReInit(void* mem, realtype t0, N_Vector y0) { VERIF_CV->t0 = t0; VERIF_CV->y0 = y0; return 0; }
inline int CVodeSetUserData(void* mem, void* u) { VERIF_CV->user = u; return 0; }
inline int CVodeSStolerances(void* mem, realtype r, realtype a) { VERIF_CV->rtol = r; VERIF_CV->atol = a; return 0; }
inline SUNLinearSolver SUNSPGMR(N_Vector y, int prec, int maxl) { auto p = cvode_now(); p->like = y; p->prec = prec; p->maxl = maxl; p->ls = &p->maxl; return p->ls; }
inline int CVSpilsSetLinearSolver(void* mem, SUNLinearSolver s) { VERIF_CV->attached = s == VERIF_CV->ls; return 0; }
inline int SUNLinSolFree(SUNLinearSolver) { if (cvode_now()) cvode_now()->ls_freed = true; return 0; }
inline int CVodeSetLSetupFrequency(void* mem, long n) { VERIF_CV->lsetup = n; return 0; }
inline int CVodeSetMaxOrd(void* mem, int n) { VERIF_CV->ord = n; return 0; }
inline int CVSpilsSetPreconditioner(void* mem, CVSpilsPrecSetupFn a, CVSpilsPrecSolveFn b) { VERIF_CV->pset = a; VERIF_CV->psolve = b; return 0; }
inline int CVodeSetMaxNumSteps(void* mem, long n) { VERIF_CV->steps = n; return 0; }
inline int CVodeSetMaxHnilWarns(void* mem, int n) { VERIF_CV->hnil = n; return 0; }
inline int CVodeSetInitStep(void* mem, realtype h) { VERIF_CV->hinit = h; VERIF_CV->has_init = true; return 0; }
inline int CVodeSetMaxStep(void* mem, realtype h) { VERIF_CV->hmax = h; VERIF_CV->has_max = true; return 0; }
inline int CVodeSetMinStep(void* mem, realtype h) { VERIF_CV->hmin = h; VERIF_CV->has_min = true; return 0; }
inline int CVodeSetProjFn(void* mem, CVProjFn f) { VERIF_CV->proj = f; return 0; }
inline int CVodeSetJacTimesRhsFn(void* mem, CVRhsFn f) { VERIF_CV->jtimes = f; return 0; }
inline int CVodeSetLSNormFactor(void*, realtype) { return 0; }
inline void CVodeFree(void** mem) { if (*mem) ((CVodeModel*)*mem)->freed = true; *mem = nullptr; }
inline std::function<int(N_Vector)>& cvode_step() { static std::function<int(N_Vector)> f; return f; }
inline int CVode(void* mem, realtype tout, N_Vector y, realtype* t, int itask) { VERIF_CV->tout = tout; VERIF_CV->y = y; VERIF_CV->itask = itask; *t = verif::real("time reached"); return cvode_step() ? cvode_step()(y) : 0; }
#define VERIF_STAT(f, n) inline int f(void*, long* r) { *r = n; return 0; }
#define VERIF_STATI(f, n) inline int f(void*, int* r) { *r = n; return 0; }
#define VERIF_STATR(f, n) inline int f(void*, realtype* r) { *r = verif::real(n); return 0; }
VERIF_STAT(CVodeGetNumSteps, 101) VERIF_STAT(CVodeGetNumRhsEvals, 102) VERIF_STAT(CVodeGetNumLinSolvSetups, 103) VERIF_STAT(CVodeGetNumNonlinSolvIters, 104) VERIF_STAT(CVodeGetNumNonlinSolvConvFails, 105)
VERIF_STAT(CVodeGetNumErrTestFails, 106) VERIF_STATI(CVodeGetLastOrder, 107) VERIF_STATI(CVodeGetCurrentOrder, 108) VERIF_STAT(CVSpilsGetNumPrecEvals, 109) VERIF_STAT(CVSpilsGetNumLinIters, 110)
VERIF_STAT(CVSpilsGetNumPrecSolves, 111) VERIF_STAT(CVSpilsGetNumConvFails, 112) VERIF_STAT(CVSpilsGetNumRhsEvals, 113)
VERIF_STATR(CVodeGetLastStep, "last step") VERIF_STATR(CVodeGetCurrentStep, "current step") VERIF_STATR(CVodeGetCurrentTime, "current time") VERIF_STATR(CVodeGetActualInitStep, "first step") VERIF_STATR(CVodeGetTolScaleFactor, "tolerance factor")
inline int CVodeGetWorkSpace(void*, long* a, long* b) { *a = 114; *b = 115; return 0; }
inline int CVSpilsGetWorkSpace(void*, long* a, long* b) { *a = 116; *b = 117; return 0; }
inline int CVodeGetDky(void*, realtype, int, N_Vector) { return 0; }
}
#endif
