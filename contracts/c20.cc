// C20: the distributed vector. The memory of all the ranks together is G; rank k
// exposes the part of it that the block decomposition (C01) gives it.
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include "vmpi.h"
using namespace exseis::utils;
using namespace vmpi;

static unsigned char* G;
static size_t N, TS;
static size_t wins, locked;  // windows open; 1 + the rank whose window is locked
static int lock_type;

static size_t start_of(size_t k) { return N / num_ranks * k + (k < N % num_ranks ? k : N % num_ranks); }
static size_t count_of(size_t k) { return N / num_ranks + (k < N % num_ranks ? 1 : 0); }

extern "C" {
int MPI_Win_allocate(MPI_Aint size, int disp, MPI_Info, MPI_Comm c, void* base, MPI_Win* w)
{
    ENSURES(c == comm, "a window of the communicator");
    ENSURES(size_t(size) == count_of(rank) * TS && size_t(disp) == TS, "the window holds the elements of this rank");
    *static_cast<void**>(base) = G + start_of(rank) * TS;
    *w = MPI_WIN_NULL;
    wins++;
    return MPI_SUCCESS;
}
int MPI_Win_free(MPI_Win*)
{
    ENSURES(wins == 1 && locked == 0, "an open window is freed");
    wins--;
    return MPI_SUCCESS;
}
int MPI_Win_lock(int type, int r, int, MPI_Win)
{
    ENSURES(wins == 1 && locked == 0, "one lock at a time on an open window");
    ENSURES(r >= 0 && size_t(r) < num_ranks, "the window of an existing rank");
    lock_type = type;
    locked    = size_t(r) + 1;
    return MPI_SUCCESS;
}
int MPI_Win_unlock(int r, MPI_Win)
{
    ENSURES(locked == size_t(r) + 1, "the lock that is held is released");
    locked = 0;
    return MPI_SUCCESS;
}
int MPI_Put(const void* o, int on, MPI_Datatype ot, int r, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win)
{
    ENSURES(locked == size_t(r) + 1 && lock_type == MPI_LOCK_EXCLUSIVE, "only this rank writes meanwhile");
    ENSURES(on == tn && ot == tt && size_t(on) * vmpi::size_of(ot) == TS, "one element");
    ENSURES(disp >= 0 && size_t(disp) < count_of(size_t(r)), "inside the window");
    memcpy(G + (start_of(size_t(r)) + size_t(disp)) * TS, o, TS);
    return MPI_SUCCESS;
}
int MPI_Get(void* o, int on, MPI_Datatype ot, int r, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win)
{
    ENSURES(locked == size_t(r) + 1, "nobody writes meanwhile");
    ENSURES(on == tn && ot == tt && size_t(on) * vmpi::size_of(ot) == TS, "one element");
    ENSURES(disp >= 0 && size_t(disp) < count_of(size_t(r)), "inside the window");
    memcpy(o, G + (start_of(size_t(r)) + size_t(disp)) * TS, TS);
    return MPI_SUCCESS;
}
}

struct Rec {
    uint64_t a;
    uint32_t b, c;
};
// of a size that is no multiple of anything
struct Odd {
    unsigned char c[13];
};

template<class T> struct Env {
    Distributed_vector<T>* v;
    const unsigned char* G0;
    Env()
    {
        some_process();
        N  = any_u64("N", 0, uint64_t(1) << 40, 30);
        TS = sizeof(T);
        wins = locked = 0;
        unsigned char* g = any_ints<unsigned char>("G", N * TS);
        unsigned char* h = any_ints<unsigned char>("H", N * TS);
        for (size_t j = 0; j < N * TS; j++) h[j] = g[j];
        G  = g;
        G0 = h;
        v  = new MPI_Distributed_vector<T>(N, comm);
        ENSURES(wins == 1, "one window");
        ENSURES(v->size() == N, "the size is the global size");
    }
};

template<class T> static void sets()
{
    Env<T> e;
    const size_t i = any_u64("i", 0, VP_MAX64, 32);
    T x;
    unsigned char* xb = any_ints<unsigned char>("x", sizeof(T));
    memcpy(&x, xb, sizeof(T));
    REACHABLE("pre");
    e.v->set(i, x);
    ENSURES(locked == 0, "no lock is kept");
    FORALL(j, N * sizeof(T))
    {
        if (i < N && j >= i * sizeof(T) && j < i * sizeof(T) + sizeof(T)) ENSURES(G[j] == xb[j - i * sizeof(T)], "the element has the value");
        else ENSURES(G[j] == e.G0[j], "the other elements keep theirs");
    }
    delete e.v;
    ENSURES(wins == 0, "the window is freed");
}

template<class T> static void gets()
{
    Env<T> e;
    const size_t i = any_u64("i", 0, VP_MAX64, 32);
    REACHABLE("pre");
    const T x = e.v->get(i);
    ENSURES(locked == 0, "no lock is kept");
    unsigned char xb[sizeof(T)];
    memcpy(xb, &x, sizeof(T));
    FORALL(j, sizeof(T)) ENSURES(xb[j] == (i < N ? e.G0[i * sizeof(T) + j] : 0), "the value is that of the element");
    FORALL(j, N * sizeof(T)) ENSURES(G[j] == e.G0[j], "no element changes");
}
VP_CONTRACT(set_double) { sets<double>(); }
VP_CONTRACT(set_record) { sets<Rec>(); }
VP_CONTRACT(set_odd) { sets<Odd>(); }
VP_CONTRACT(get_odd) { gets<Odd>(); }
VP_CONTRACT(get_double) { gets<double>(); }
VP_CONTRACT(get_record) { gets<Rec>(); }
