// opaque HYPRE types (HYPRE is not installed here)
#ifndef VERIF_HYPRE_H
#define VERIF_HYPRE_H
extern "C" {
typedef struct verif_HYPRE_StructGrid* HYPRE_StructGrid;
typedef struct verif_HYPRE_StructMatrix* HYPRE_StructMatrix;
typedef struct verif_HYPRE_StructVector* HYPRE_StructVector;
typedef struct verif_HYPRE_StructSolver* HYPRE_StructSolver;
typedef struct verif_HYPRE_StructStencil* HYPRE_StructStencil;
typedef struct verif_HYPRE_SStructGrid* HYPRE_SStructGrid;
typedef struct verif_HYPRE_SStructGraph* HYPRE_SStructGraph;
typedef struct verif_HYPRE_SStructMatrix* HYPRE_SStructMatrix;
typedef struct verif_HYPRE_SStructVector* HYPRE_SStructVector;
typedef struct verif_HYPRE_SStructStencil* HYPRE_SStructStencil;
typedef struct verif_HYPRE_ParCSRMatrix* HYPRE_ParCSRMatrix;
typedef struct verif_HYPRE_ParVector* HYPRE_ParVector;
typedef struct verif_HYPRE_Solver* HYPRE_Solver;
#define HYPRE_STRUCT 3333
#define HYPRE_PARCSR 5555
typedef int HYPRE_SStructVariable;
typedef int HYPRE_Int;
#define HYPRE_SSTRUCT_VARIABLE_CELL 0
int HYPRE_BoomerAMGCreate(...);
int HYPRE_BoomerAMGDestroy(...);
int HYPRE_BoomerAMGGetFinalRelativeResidualNorm(...);
int HYPRE_BoomerAMGGetNumIterations(...);
int HYPRE_BoomerAMGSetCoarsenType(...);
int HYPRE_BoomerAMGSetMaxIter(...);
int HYPRE_BoomerAMGSetPrintFileName(...);
int HYPRE_BoomerAMGSetPrintLevel(...);
int HYPRE_BoomerAMGSetStrongThreshold(...);
int HYPRE_BoomerAMGSetTol(...);
int HYPRE_BoomerAMGSetup(...);
int HYPRE_BoomerAMGSolve(...);
int HYPRE_PCGGetFinalRelativeResidualNorm(...);
int HYPRE_PCGGetNumIterations(...);
int HYPRE_PCGSetLogging(...);
int HYPRE_PCGSetMaxIter(...);
int HYPRE_PCGSetPrintLevel(...);
int HYPRE_PCGSetTol(...);
int HYPRE_ParCSRPCGCreate(...);
int HYPRE_ParCSRPCGDestroy(...);
int HYPRE_ParCSRPCGSetPrecond(...);
int HYPRE_ParCSRPCGSetup(...);
int HYPRE_ParCSRPCGSolve(...);
int HYPRE_SStructGraphAssemble(HYPRE_SStructGraph);
int HYPRE_SStructGraphCreate(int, HYPRE_SStructGrid, HYPRE_SStructGraph*);
int HYPRE_SStructGraphDestroy(HYPRE_SStructGraph);
int HYPRE_SStructGraphSetObjectType(HYPRE_SStructGraph, int);
int HYPRE_SStructGraphSetStencil(HYPRE_SStructGraph, int, int, HYPRE_SStructStencil);
int HYPRE_SStructGridAssemble(HYPRE_SStructGrid);
int HYPRE_SStructGridCreate(int, int, int, HYPRE_SStructGrid*);
int HYPRE_SStructGridDestroy(HYPRE_SStructGrid);
int HYPRE_SStructGridSetExtents(HYPRE_SStructGrid, int, int*, int*);
int HYPRE_SStructGridSetPeriodic(HYPRE_SStructGrid, int, int*);
int HYPRE_SStructGridSetVariables(HYPRE_SStructGrid, int, int, HYPRE_SStructVariable*);
int HYPRE_SStructMatrixAssemble(HYPRE_SStructMatrix);
int HYPRE_SStructMatrixCreate(int, HYPRE_SStructGraph, HYPRE_SStructMatrix*);
int HYPRE_SStructMatrixDestroy(HYPRE_SStructMatrix);
int HYPRE_SStructMatrixGetObject(HYPRE_SStructMatrix, void**);
int HYPRE_SStructMatrixInitialize(HYPRE_SStructMatrix);
int HYPRE_SStructMatrixPrint(const char*, HYPRE_SStructMatrix, int);
int HYPRE_SStructMatrixSetBoxValues(HYPRE_SStructMatrix, int, int*, int*, int, int, int*, double*);
int HYPRE_SStructMatrixSetObjectType(HYPRE_SStructMatrix, int);
int HYPRE_SStructMatrixSetSymmetric(HYPRE_SStructMatrix, int, int, int, int);
int HYPRE_SStructStencilCreate(int, int, HYPRE_SStructStencil*);
int HYPRE_SStructStencilDestroy(HYPRE_SStructStencil);
int HYPRE_SStructStencilSetEntry(HYPRE_SStructStencil, int, int*, int);
int HYPRE_SStructVectorAssemble(HYPRE_SStructVector);
int HYPRE_SStructVectorCreate(int, HYPRE_SStructGrid, HYPRE_SStructVector*);
int HYPRE_SStructVectorDestroy(HYPRE_SStructVector);
int HYPRE_SStructVectorGather(HYPRE_SStructVector);
int HYPRE_SStructVectorGetBoxValues(HYPRE_SStructVector, int, int*, int*, int, double*);
int HYPRE_SStructVectorGetObject(HYPRE_SStructVector, void**);
int HYPRE_SStructVectorInitialize(HYPRE_SStructVector);
int HYPRE_SStructVectorPrint(const char*, HYPRE_SStructVector, int);
int HYPRE_SStructVectorSetBoxValues(HYPRE_SStructVector, int, int*, int*, int, double*);
int HYPRE_SStructVectorSetObjectType(HYPRE_SStructVector, int);
int HYPRE_StructCycRedCreate(int, HYPRE_StructSolver*);
int HYPRE_StructCycRedDestroy(HYPRE_StructSolver);
int HYPRE_StructCycRedSetup(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructCycRedSolve(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructGridAssemble(HYPRE_StructGrid);
int HYPRE_StructGridCreate(int, int, HYPRE_StructGrid*);
int HYPRE_StructGridDestroy(HYPRE_StructGrid);
int HYPRE_StructGridSetExtents(HYPRE_StructGrid, int*, int*);
int HYPRE_StructGridSetPeriodic(HYPRE_StructGrid, int*);
int HYPRE_StructMatrixAssemble(HYPRE_StructMatrix);
int HYPRE_StructMatrixCreate(int, HYPRE_StructGrid, HYPRE_StructStencil, HYPRE_StructMatrix*);
int HYPRE_StructMatrixDestroy(HYPRE_StructMatrix);
int HYPRE_StructMatrixInitialize(HYPRE_StructMatrix);
int HYPRE_StructMatrixPrint(const char*, HYPRE_StructMatrix, int);
int HYPRE_StructMatrixSetBoxValues(HYPRE_StructMatrix, int*, int*, int, int*, double*);
int HYPRE_StructMatrixSetNumGhost(HYPRE_StructMatrix, int*);
int HYPRE_StructMatrixSetSymmetric(HYPRE_StructMatrix, int);
int HYPRE_StructPCGCreate(int, HYPRE_StructSolver*);
int HYPRE_StructPCGDestroy(HYPRE_StructSolver);
int HYPRE_StructPCGGetFinalRelativeResidualNorm(HYPRE_StructSolver, double*);
int HYPRE_StructPCGGetNumIterations(HYPRE_StructSolver, int*);
int HYPRE_StructPCGSetLogging(HYPRE_StructSolver, int);
int HYPRE_StructPCGSetMaxIter(HYPRE_StructSolver, int);
int HYPRE_StructPCGSetPrecond(HYPRE_StructSolver, int (*)(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector), int (*)(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector), HYPRE_StructSolver);
int HYPRE_StructPCGSetPrintLevel(HYPRE_StructSolver, int);
int HYPRE_StructPCGSetTol(HYPRE_StructSolver, double);
int HYPRE_StructPCGSetup(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructPCGSolve(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructPFMGCreate(int, HYPRE_StructSolver*);
int HYPRE_StructPFMGDestroy(HYPRE_StructSolver);
int HYPRE_StructPFMGGetFinalRelativeResidualNorm(HYPRE_StructSolver, double*);
int HYPRE_StructPFMGGetNumIterations(HYPRE_StructSolver, int*);
int HYPRE_StructPFMGSetLogging(HYPRE_StructSolver, int);
int HYPRE_StructPFMGSetMaxIter(HYPRE_StructSolver, int);
int HYPRE_StructPFMGSetNumPostRelax(HYPRE_StructSolver, int);
int HYPRE_StructPFMGSetNumPreRelax(HYPRE_StructSolver, int);
int HYPRE_StructPFMGSetPrintLevel(HYPRE_StructSolver, int);
int HYPRE_StructPFMGSetTol(HYPRE_StructSolver, double);
int HYPRE_StructPFMGSetZeroGuess(HYPRE_StructSolver);
int HYPRE_StructPFMGSetup(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructPFMGSolve(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructSMGCreate(int, HYPRE_StructSolver*);
int HYPRE_StructSMGDestroy(HYPRE_StructSolver);
int HYPRE_StructSMGGetFinalRelativeResidualNorm(HYPRE_StructSolver, double*);
int HYPRE_StructSMGGetNumIterations(HYPRE_StructSolver, int*);
int HYPRE_StructSMGSetLogging(HYPRE_StructSolver, int);
int HYPRE_StructSMGSetMaxIter(HYPRE_StructSolver, int);
int HYPRE_StructSMGSetMemoryUse(HYPRE_StructSolver, int);
int HYPRE_StructSMGSetNumPostRelax(HYPRE_StructSolver, int);
int HYPRE_StructSMGSetNumPreRelax(HYPRE_StructSolver, int);
int HYPRE_StructSMGSetTol(HYPRE_StructSolver, double);
int HYPRE_StructSMGSetup(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructSMGSolve(HYPRE_StructSolver, HYPRE_StructMatrix, HYPRE_StructVector, HYPRE_StructVector);
int HYPRE_StructStencilCreate(int, int, HYPRE_StructStencil*);
int HYPRE_StructStencilDestroy(HYPRE_StructStencil);
int HYPRE_StructStencilSetElement(HYPRE_StructStencil, int, int*);
int HYPRE_StructVectorAssemble(HYPRE_StructVector);
int HYPRE_StructVectorCreate(int, HYPRE_StructGrid, HYPRE_StructVector*);
int HYPRE_StructVectorDestroy(HYPRE_StructVector);
int HYPRE_StructVectorGetBoxValues(HYPRE_StructVector, int*, int*, double*);
int HYPRE_StructVectorInitialize(HYPRE_StructVector);
int HYPRE_StructVectorPrint(const char*, HYPRE_StructVector, int);
int HYPRE_StructVectorSetBoxValues(HYPRE_StructVector, int*, int*, double*);
int HYPRE_StructVectorSetConstantValues(HYPRE_StructVector, double);
int HYPRE_StructVectorSetNumGhost(HYPRE_StructVector, int*);
}
#endif
