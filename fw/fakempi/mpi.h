// In-process MPI used by the model-checking harnesses.
// Ranks are fibers of one process; every MPI call is a scheduling point of a controlled,
// deterministic scheduler (fw/fakempi/fakempi.cpp). Only what dyablo uses is declared.
#pragma once
#define DYABLO_VERIF_FAKE_MPI 1
#include <cstdint>
#include <cstddef>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef long long MPI_Offset;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int count_bytes; };

enum { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2 };
enum { MPI_DATATYPE_NULL = 0, MPI_DOUBLE = 1, MPI_FLOAT, MPI_UINT64_T, MPI_UINT32_T, MPI_UINT16_T, MPI_UINT8_T,
       MPI_INT64_T, MPI_INT32_T, MPI_INT16_T, MPI_INT8_T, MPI_CHAR, MPI_CXX_BOOL, MPI_INT, MPI_UNSIGNED,
       MPI_LONG, MPI_UNSIGNED_LONG, MPI_BYTE, MPI_LONG_LONG, MPI_UNSIGNED_CHAR, MPI_C_BOOL };
enum { MPI_OP_NULL = 0, MPI_MIN = 1, MPI_MAX, MPI_SUM, MPI_LOR, MPI_LAND, MPI_PROD, MPI_BOR, MPI_BAND };
enum { MPI_REQUEST_NULL = -1 };
enum { MPI_INFO_NULL = 0 };
enum { MPI_SUCCESS = 0 };
enum { MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_PROC_NULL = -2 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_IN_PLACE ((void*)-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize();
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
double MPI_Wtime();
