// single-process stand-in (no MPI here)
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
typedef int MPI_Comm;
typedef int MPI_Op;
typedef int MPI_Datatype;
typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG; };
#define MPI_COMM_WORLD 0
#define MPI_COMM_NULL -1
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LOR 4
#define MPI_LAND 5
#define MPI_INT 1
#define MPI_DOUBLE 2
#define MPI_CHAR 3
#define MPI_FLOAT 4
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
inline int MPI_Comm_size(MPI_Comm, int* r) { *r = 1; return 0; }
template <class T> inline int MPI_Allreduce(const T* a, T* b, int n, MPI_Datatype, MPI_Op, MPI_Comm) { for (int i = 0; i < n; i++) b[i] = a[i]; return 0; }
inline int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm) { return 0; }
inline int MPI_Barrier(MPI_Comm) { return 0; }
inline int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Finalize() { return 0; }
template <class T> inline int MPI_Allgather(const T* a, int n, MPI_Datatype, T* b, int, MPI_Datatype, MPI_Comm) { for (int i = 0; i < n; i++) b[i] = a[i]; return 0; }
template <class T> inline int MPI_Allgatherv(const T* a, int n, MPI_Datatype, T* b, const int*, const int*, MPI_Datatype, MPI_Comm) { for (int i = 0; i < n; i++) b[i] = a[i]; return 0; }
template <class T> inline int MPI_Reduce(const T* a, T* b, int n, MPI_Datatype, MPI_Op, int, MPI_Comm) { for (int i = 0; i < n; i++) b[i] = a[i]; return 0; }
inline int MPI_Abort(MPI_Comm, int) { return 0; }
#endif
