// declarations of the MPI functions the code uses: all of them unknown externals to the analyses
#ifndef VP_MPI_H
#define VP_MPI_H
typedef long MPI_Request; typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 91
#define MPI_BYTE 11
#define MPI_INT 12
#define MPI_DOUBLE 13
#define MPI_UNSIGNED_LONG 14
#define MPI_SUM 21
#define MPI_MIN 22
#define MPI_MAX 23
#define MPI_THREAD_FUNNELED 1
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
extern "C" {
  int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalize(); int MPI_Barrier(MPI_Comm);
  int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_rank(MPI_Comm, int*); int MPI_Get_version(int*, int*);
  int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
  int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
  int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*);
}
#endif
