/* A stand-in for the parts of MPI that programs of one communicator use: the
   ranks are processes connected by sockets, see fakempi.cpp. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef long long MPI_Count;
typedef ptrdiff_t MPI_Aint;
typedef struct
{
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  long long bytes;
} MPI_Status;

#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 91
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_TAG (-1)
#define MPI_ANY_SOURCE (-2)
#define MPI_IN_PLACE ((void*)1)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

/* type = number * 256 + bytes */
#define MPI_BYTE 0x101
#define MPI_CHAR 0x201
#define MPI_UNSIGNED_CHAR 0x301
#define MPI_UINT8_T 0x401
#define MPI_UINT16_T 0x502
#define MPI_UNSIGNED_SHORT 0x602
#define MPI_INT 0x704
#define MPI_INT32_T 0x804
#define MPI_UNSIGNED 0x904
#define MPI_UINT32_T 0xa04
#define MPI_FLOAT 0xb04
#define MPI_LONG 0xc08
#define MPI_INT64_T 0xd08
#define MPI_UNSIGNED_LONG 0xe08
#define MPI_UINT64_T 0xf08
#define MPI_DOUBLE 0x1008
#define MPI_COUNT 0x1108
#define MPI_LONG_LONG 0x1208
#define MPI_UNSIGNED_LONG_LONG 0x1308

#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalize(void);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int,
               MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*,
                MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int,
                MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype,
                  MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*,
                   const int*, MPI_Datatype, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
#ifdef __cplusplus
}
#endif
