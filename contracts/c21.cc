// C21: the collective helpers combine the values of all ranks of their communicator
#include "ExSeisDat/PIOL/CommunicatorMPI.hh"
#include "vfile.h"
#include "vmpi.h"
using namespace exseis::PIOL;
using namespace vmpi;

// what the last collective was asked
static size_t calls;
static MPI_Op op;
static size_t sent, result;
static const unsigned char* all;  // what all the ranks send, in the order of the ranks

extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    calls++;
    ENSURES(c == comm, "over the communicator of the object");
    ENSURES(n == 1 && t == MPI_UNSIGNED_LONG, "one size_t");
    op = o;
    memcpy(&sent, s, 8);
    if (vmpi::error == MPI_SUCCESS) memcpy(r, &result, 8);
    return vmpi::error;
}
extern "C" int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    calls++;
    ENSURES(c == comm, "over the communicator of the object");
    ENSURES(n == 1 && t == MPI_UNSIGNED_LONG, "one size_t");
    op = o;
    memcpy(&sent, s, 8);
    // the result is not defined on the first rank
    if (rank != 0) memcpy(r, &result, 8);
    else { size_t junk = any_u64("junk"); memcpy(r, &junk, 8); }
    return MPI_SUCCESS;
}
static MPI_Datatype gtype;
static int gcount;
static const unsigned char* gsent;
extern "C" int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    calls++;
    ENSURES(c == comm, "over the communicator of the object");
    ENSURES(sn == rn && st == rt && size_of(rt) != 0, "what is sent is what is received from each");
    gtype  = rt;
    gcount = rn;
    gsent  = static_cast<const unsigned char*>(s);
    if (vmpi::error == MPI_SUCCESS && rn != 0) memcpy(r, all, num_ranks * size_t(rn) * size_of(rt));
    return vmpi::error;
}
static size_t barriers;
extern "C" int MPI_Barrier(MPI_Comm c)
{
    ENSURES(c == comm, "over the communicator of the object");
    barriers++;
    return MPI_SUCCESS;
}

struct Env {
    vpf::FakePiol fp;
    CommunicatorMPI* c;
    Env()
    {
        some_process();
        calls = barriers = 0;
        sent   = 0;
        result = any_u64("result");
        error  = any_u32("error") == 0 ? MPI_SUCCESS : MPI_ERR_OTHER;
        CommunicatorMPI::Opt o;
        o.comm = comm;
        c      = new CommunicatorMPI(fp.get()->log.get(), o);
        ENSURES(c->getRank() == rank && c->getNumRank() == num_ranks && c->getComm() == comm, "the object knows its communicator");
    }
};

VP_CONTRACT(reductions)
{
    Env e;
    const size_t v = any_u64("v"), which = any_u64("which", 0, 2, 2);
    REACHABLE("pre");
    const size_t r = which == 0 ? e.c->sum(v) : which == 1 ? e.c->max(v) : e.c->min(v);
    ENSURES(calls == 1 && sent == v, "the value of this rank takes part once");
    ENSURES(op == (which == 0 ? MPI_SUM : which == 1 ? MPI_MAX : MPI_MIN), "with the operation asked for");
    if (error == MPI_SUCCESS) ENSURES(r == result, "the result is that of the collective");
    else ENSURES(vpf::log_errors == 1, "a failure is logged");
    if (error == MPI_SUCCESS) ENSURES(vpf::log_errors == 0, "nothing is logged otherwise");
}

VP_CONTRACT(prefix)
{
    Env e;
    const size_t v = any_u64("v");
    REACHABLE("pre");
    const size_t r = e.c->offset(v);
    ENSURES(calls == 1 && sent == v && op == MPI_SUM, "the value of this rank takes part once in a sum");
    ENSURES(r == (rank == 0 ? 0 : result), "the offset is the sum over the lower ranks, none for the first");
    e.c->barrier();
    ENSURES(barriers == 1, "a barrier is a barrier");
}

template<class T> static void gathers(MPI_Datatype t)
{
    Env e;
    const size_t n = any_u64("n", 0, 1 << 20, 9);
    REQUIRES(n * num_ranks <= uint64_t(1) << 40);
    const size_t b          = num_ranks * n * sizeof(T);
    const unsigned char* an = any_ints<unsigned char>("all", b);
    all                     = an;
    const T* mine           = any_ints<T>("mine", n);
    std::vector<T> in(n);
    for (size_t j = 0; j < n; j++) in[j] = mine[j];
    REACHABLE("pre");
    const std::vector<T> out = static_cast<const CommunicatorInterface*>(e.c)->gather(in);
    ENSURES(calls == 1 && gtype == t && size_t(gcount) == n, "the values of this rank take part once, with their type");
    ENSURES(gsent == reinterpret_cast<const unsigned char*>(in.data()), "what is sent are the given values");
    ENSURES(out.size() == n * num_ranks, "there are values of all the ranks");
    if (error == MPI_SUCCESS) {
        const unsigned char* o = reinterpret_cast<const unsigned char*>(out.data());
        FORALL(j, b) ENSURES(o[j] == an[j], "in the order of the ranks");
    }
    else ENSURES(vpf::log_errors == 1, "a failure is logged");
}
VP_CONTRACT(gather_u64) { gathers<size_t>(MPI_UNSIGNED_LONG); }
VP_CONTRACT(gather_i64) { gathers<long long>(MPI_LONG_LONG_INT); }
VP_CONTRACT(gather_f32) { gathers<float>(MPI_FLOAT); }
VP_CONTRACT(gather_f64) { gathers<double>(MPI_DOUBLE); }
