// Contracts of the MPI functions the library calls, seen from one process: its
// rank and the number of processes are any, and so is what the others send.
#pragma once
#include "vp.h"
#include <cstring>
#include <mpi.h>
#include <string>

namespace vmpi {
static size_t rank = 0, num_ranks = 1;
static MPI_Comm comm;
static int error = MPI_SUCCESS;  // what the next operation returns

// a process of a communicator that is not the world
static inline void some_process()
{
    num_ranks = any_u64("num_ranks", 1, 0x7FFFFFFF, 6);
    rank      = any_u64("rank", 0, 0x7FFFFFFE, 5);
    REQUIRES(rank < num_ranks);
    comm = MPI_COMM_SELF;
}

static inline size_t size_of(MPI_Datatype t)
{
    if (t == MPI_UNSIGNED_LONG || t == MPI_DOUBLE || t == MPI_LONG_LONG_INT || t == MPI_LONG) return 8;
    if (t == MPI_FLOAT || t == MPI_INT || t == MPI_UNSIGNED) return 4;
    if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_UNSIGNED_CHAR) return 1;
    return 0;
}
}  // namespace vmpi

extern "C" {
int MPI_Initialized(int* f)
{
    *f = 1;
    return MPI_SUCCESS;
}
int MPI_Finalized(int* f)
{
    *f = 1;
    return MPI_SUCCESS;
}
int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r)
{
    ENSURES(c == vmpi::comm, "the rank is that of the given communicator");
    *r = int(vmpi::rank);
    return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int* n)
{
    ENSURES(c == vmpi::comm, "the size is that of the given communicator");
    *n = int(vmpi::num_ranks);
    return MPI_SUCCESS;
}
}

// the text of a message is of no consequence
namespace exseis {
namespace utils {
std::string MPI_error_to_string(int, const MPI_Status*) { return std::string("error"); }
}
}
