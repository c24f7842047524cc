// Stand-in for an MPI library (none is installed): the subset of the interface that small two-process programs use.
// The functions are provided by the explorer, which plays the network.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Request;
typedef int MPI_Op;
typedef struct {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes;
} MPI_Status;
#define MPI_COMM_WORLD 1
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_REQUEST_NULL (-1)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_PROC_NULL (-3)
#define MPI_COMM_SELF 2
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LAND 4
#define MPI_LOR 5
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
// type codes: low byte = size
#define MPI_CHAR 0x0101
#define MPI_BYTE 0x0201
#define MPI_INT 0x0304
#define MPI_UNSIGNED 0x0404
#define MPI_FLOAT 0x0504
#define MPI_LONG 0x0608
#define MPI_UNSIGNED_LONG 0x0708
#define MPI_DOUBLE 0x0808
#define MPI_LONG_LONG 0x0908
#define MPI_UNSIGNED_LONG_LONG 0x0a08
#define MPI_UNSIGNED_CHAR 0x0b01
#define MPI_C_BOOL 0x0c01
#define MPI_CXX_BOOL 0x0c01
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Get_processor_name(char *, int *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Type_size(MPI_Datatype, int *);
double MPI_Wtime(void);
double MPI_Wtick(void);
#ifdef __cplusplus
}
#endif
