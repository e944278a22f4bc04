// The part of MPI used by redGrapes; MPI_Testsome is defined by the harness.
#pragma once
typedef int MPI_Request;
#define MPI_REQUEST_NULL ((MPI_Request) 0x2c000000)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
typedef struct MPI_Status
{
    int count_lo;
    int count_hi_and_cancelled;
    int MPI_SOURCE;
    int MPI_TAG;
    int MPI_ERROR;
} MPI_Status;
extern "C" int MPI_Testsome(int incount, MPI_Request requests[], int* outcount, int indices[], MPI_Status statuses[]);
extern "C" int MPI_Testany(int count, MPI_Request requests[], int* index, int* flag, MPI_Status* status);
extern "C" int MPI_Test(MPI_Request* request, int* flag, MPI_Status* status);
