/* A stand-in for BigMPI, see mpi.h. */
#pragma once
#include "mpi.h"
#ifdef __cplusplus
extern "C" {
#endif
int MPIX_Send_x(const void*, MPI_Count, MPI_Datatype, int, int, MPI_Comm);
int MPIX_Recv_x(void*, MPI_Count, MPI_Datatype, int, int, MPI_Comm,
                MPI_Status*);
int MPIX_Bcast_x(void*, MPI_Count, MPI_Datatype, int, MPI_Comm);
#ifdef __cplusplus
}
#endif
