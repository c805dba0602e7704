// C03: the data layer moves the bytes of a request, whatever its size, in
// operations of limited size, and in step with the other ranks.
// MPI-IO is replaced by its contract over a file in memory.
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "vfile.h"
#include "vmpi.h"
using namespace exseis::PIOL;
using namespace vmpi;
using vpf::u128;

// the file, and a second one for the expected state after a write
static unsigned char* F;
static size_t fsz;
static size_t limit;        // the largest operation
static bool coll;
static size_t ops, views;   // operations, changes of view
static size_t failed;       // operations that failed
static size_t types;        // datatypes not freed
static size_t M, am;        // the most any rank asks for; the rank that does
static size_t own;          // what this rank asks for
static bool top;            // the next gather is that of the whole request
static bool fails;          // the operations fail
static bool moves;          // the operations move data
static int tick;            // what handles point to

enum Kind { Contiguous, Strided, Listed };
struct Type {
    Kind kind;
    size_t count, block, stride;
    const MPI_Aint* at;
    bool committed;
};
static Type ty;
struct View {
    Kind kind;
    size_t disp, count, block, stride;
    const MPI_Aint* at;
};
static View vw;

extern "C" {
int MPI_Info_create(MPI_Info* i) { *i = reinterpret_cast<MPI_Info>(&tick); return MPI_SUCCESS; }
int MPI_Info_dup(MPI_Info, MPI_Info* i) { *i = reinterpret_cast<MPI_Info>(&tick); return MPI_SUCCESS; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint* lb, MPI_Aint* e) { *lb = 0; *e = 1; return MPI_SUCCESS; }
int MPI_File_open(MPI_Comm c, const char*, int, MPI_Info, MPI_File* f)
{
    ENSURES(c == comm, "the file is opened by the ranks of the given communicator");
    *f = reinterpret_cast<MPI_File>(&tick);
    return MPI_SUCCESS;
}
int MPI_File_close(MPI_File* f) { *f = MPI_FILE_NULL; return MPI_SUCCESS; }
int MPI_File_get_size(MPI_File, MPI_Offset* n) { *n = MPI_Offset(fsz); return MPI_SUCCESS; }
int MPI_File_set_size(MPI_File, MPI_Offset n) { fsz = size_t(n); return MPI_SUCCESS; }

int MPI_Type_create_hvector(int count, int block, MPI_Aint stride, MPI_Datatype t, MPI_Datatype* r)
{
    ENSURES(size_of(t) == 1 && count >= 0 && block >= 0, "a vector of bytes");
    ty.kind = Strided;
    ty.count = size_t(count); ty.block = size_t(block); ty.stride = size_t(stride);
    ty.committed = false;
    *r = reinterpret_cast<MPI_Datatype>(&ty);
    types++;
    return MPI_SUCCESS;
}
int MPI_Type_create_hindexed(int count, const int* len, const MPI_Aint* at, MPI_Datatype t, MPI_Datatype* r)
{
    ENSURES(size_of(t) == 1 && count >= 0, "a list of blocks of bytes");
    const size_t n = size_t(count);
    ty.kind  = Listed;
    ty.count = n;
    ty.block = n == 0 ? 0 : size_t(len[0]);
    FORALL(i, n) ENSURES(size_t(len[i]) == ty.block, "blocks of one size");
    ty.at = at;
    ty.committed = false;
    *r = reinterpret_cast<MPI_Datatype>(&ty);
    types++;
    return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t)
{
    ENSURES(*t == reinterpret_cast<MPI_Datatype>(&ty), "the type that was made");
    ty.committed = true;
    return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* t)
{
    ENSURES(*t == reinterpret_cast<MPI_Datatype>(&ty) && types == 1, "the type that was made");
    types--;
    ty = Type();
    return MPI_SUCCESS;
}
int MPI_File_set_view(MPI_File f, MPI_Offset disp, MPI_Datatype e, MPI_Datatype t, const char*, MPI_Info)
{
    ENSURES(f == reinterpret_cast<MPI_File>(&tick) && size_of(e) == 1 && disp >= 0, "a view of bytes on the file");
    vw.disp = size_t(disp);
    views++;
    if (size_of(t) == 1) {
        const size_t at = vw.disp;
        vw      = View();
        vw.disp = at;
        vw.kind = Contiguous;
        return MPI_SUCCESS;
    }
    ENSURES(t == reinterpret_cast<MPI_Datatype>(&ty) && types == 1 && ty.committed, "a committed type");
    vw.kind  = ty.kind;
    vw.count = ty.count; vw.block = ty.block; vw.stride = ty.stride;
    vw.at    = ty.at;
    return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    ENSURES(c == comm && sn == 1 && rn == 1 && st == MPI_UNSIGNED_LONG && rt == MPI_UNSIGNED_LONG, "one size_t of each rank");
    size_t v;
    memcpy(&v, s, 8);
    // the parts of a request: none of it is left to do, or at least one block
    const size_t hi = top ? M : vw.block == 0 ? 0 : limit;
    ENSURES(!top || v == own, "the ranks tell each other how much they ask for");
    size_t* z = any_ints<size_t>("sizes", num_ranks, 0, int64_t(hi));
    z[am]     = top ? M : vw.block == 0 ? 0 : any_u64("part", 1, limit, limit);
    z[rank]   = v;
    memcpy(r, z, 8 * num_ranks);
    top = false;
    return MPI_SUCCESS;
}
}

// the blocks asked for: of block bytes, in the buffer one behind the other, in
// the file at start + i*stride or list[i]; and which of them were moved
static unsigned char *buffer, *done;
static const size_t* list;
static size_t blocks, block, start, stride;
static bool writes;

// one operation of n bytes at off in the view
static int transfer(bool write, bool all, MPI_File f, MPI_Offset off, void* b, int count, MPI_Datatype t, MPI_Status*)
{
    ENSURES(f == reinterpret_cast<MPI_File>(&tick) && size_of(t) == 1 && count >= 0 && off >= 0, "bytes of the file");
    ENSURES(all == coll, "collective operations in the collective mode only");
    const size_t n = size_t(count);
    ENSURES(n <= limit, "no operation is larger than the limit");
    ops++;
    if (vmpi::error != MPI_SUCCESS) {
        failed++;
        return vmpi::error;
    }
    unsigned char* d = static_cast<unsigned char*>(b);
    if (n == 0 || !moves) return MPI_SUCCESS;
    if (vw.kind == Contiguous) {
        if (write) memcpy(F + (vw.disp + size_t(off)), d, n);
        else memcpy(d, F + (vw.disp + size_t(off)), n);
        return MPI_SUCCESS;
    }
    ENSURES(off == 0 && n == vw.count * vw.block, "all the blocks of the view");
    // moves the block at d + q*block from or to the q-th block of the view, for all q
    const size_t i0 = size_t(d - buffer) / vw.block, c = vw.count;
    ENSURES(vw.block == block && d == buffer + i0 * block && i0 <= blocks && c <= blocks - i0, "whole blocks of the buffer");
    ENSURES(write == writes, "the data moves in the right direction");
    if (vw.kind == Listed) {
        ENSURES(vw.disp == 0, "offsets in the file");
        FORALL(q, c) ENSURES(size_t(vw.at[q]) == list[i0 + q], "a block of the buffer is moved from or to its own place");
    }
    else {
        ENSURES(vw.disp == start + i0 * stride, "a block of the buffer is moved from or to its own place");
        ENSURES(c <= 1 || vw.stride == stride, "the next block of the buffer as well");
    }
    FORALL(q, c) ENSURES(!done[i0 + q], "no block is moved twice");
    memset(done + i0, 1, c);
    return MPI_SUCCESS;
}
extern "C" {
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* d, int n, MPI_Datatype t, MPI_Status* s) { return transfer(false, false, f, o, d, n, t, s); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* d, int n, MPI_Datatype t, MPI_Status* s) { return transfer(false, true, f, o, d, n, t, s); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* d, int n, MPI_Datatype t, MPI_Status* s) { return transfer(true, false, f, o, const_cast<void*>(d), n, t, s); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* d, int n, MPI_Datatype t, MPI_Status* s) { return transfer(true, true, f, o, const_cast<void*>(d), n, t, s); }
}

struct Env {
    vpf::FakePiol fp;
    std::shared_ptr<ExSeisPIOL> piol;
    DataMPIIO* io;
    Env(bool steps)
    {
        some_process();
        vmpi::error = MPI_SUCCESS;
        ops = views = types = failed = 0;
        coll  = !steps || any_u32("coll") != 0;
        moves = !steps;
        limit = any_u64("limit", 1, 0x7FFFF000, 40);
        fsz   = any_u64("fsz", 0, uint64_t(1) << 48, 400);
        F     = any_ints<unsigned char>("F", fsz);
        CommunicatorMPI::Opt co;
        co.comm = comm;
        auto* p = fp.get();
        new (&p->comm) std::unique_ptr<CommunicatorMPI>(new CommunicatorMPI(p->log.get(), co));
        piol = vpf::ref(p);
        DataMPIIO::Opt o;
        o.coll    = coll;
        o.maxSize = limit;
        o.fcomm   = comm;
        io = new DataMPIIO(piol, "f", o, FileMode::Test);
        ENSURES(vw.kind == Contiguous && vw.disp == 0, "the whole file is in view");
        views = 0;
        vmpi::error = fails ? MPI_ERR_IO : MPI_SUCCESS;
        am = any_u64("am", 0, 0x7FFFFFFE, 5);
        REQUIRES(am < num_ranks);
        vp_hint(am);
        vp_hint(rank);
    }
    // this rank asks for sz, the most any rank asks for is M
    void asks(size_t sz)
    {
        own = sz;
        top = true;
        REQUIRES(sz <= M && (am != rank || sz == M));
    }
    void after()
    {
        ENSURES(types == 0 && vw.kind == Contiguous && vw.disp == 0, "the view is that of the whole file again");
        if (vmpi::error == MPI_SUCCESS) ENSURES(vpf::log_errors == 0, "nothing is logged");
        ENSURES(vpf::log_errors >= failed, "every operation that fails is reported");
    }
    // another rank, that asks for nothing
    size_t ops1, views1;
    void other()
    {
        after();
        ops1 = ops;
        views1 = views;
        ops = views = 0;
        rank = any_u64("rank2", 0, 0x7FFFFFFE, 5);
        REQUIRES(rank < num_ranks && (am != rank || M == 0));
        vp_hint(rank);
        asks(0);
    }
    void same() { ENSURES(ops == ops1 && views == views1, "a rank with nothing to do takes part in every operation"); }
    size_t offset() { return any_u64("off", 0, uint64_t(1) << 48, 100); }
    size_t number(const char* n, unsigned max) { return any_u64(n, 0, uint64_t(1) << 48, max); }
};

// contiguous ------------------------------------------------------------------
static void read_contiguous(bool steps)
{
    Env e(steps);
    const size_t off = e.offset(), sz = e.number("sz", 300);
    REQUIRES(off <= fsz && sz <= fsz - off);
    M = e.number("M", 300);
    unsigned char* d = any_ints<unsigned char>("d", sz);
    e.asks(sz);
    REACHABLE("pre");
    e.io->read(off, sz, d);
    if (!steps) FORALL(j, sz) ENSURES(d[j] == F[off + j], "the bytes read are those of the file");
    if (!steps) return e.after();
    e.other();
    e.io->read(off, 0, d);
    e.same();
}
VP_CONTRACT(read_contiguous) { fails = false; read_contiguous(false); }
VP_CONTRACT(read_contiguous_steps) { fails = false; read_contiguous(true); }
VP_CONTRACT(read_contiguous_fails) { fails = true; read_contiguous(true); }

static void write_contiguous(bool steps)
{
    Env e(steps);
    const size_t off = e.offset(), sz = e.number("sz", 300);
    REQUIRES(off <= fsz && sz <= fsz - off);
    M = e.number("M", 300);
    unsigned char* d = any_ints<unsigned char>("d", sz);
    unsigned char* old = new unsigned char[fsz];
    memcpy(old, F, fsz);
    e.asks(sz);
    REACHABLE("pre");
    e.io->write(off, sz, d);
    if (!steps) {
        FORALL(q, off) ENSURES(F[q] == old[q], "the bytes before are kept");
        FORALL(q, sz) ENSURES(F[off + q] == d[q], "the bytes of the request are written");
        FORALL(q, fsz - off - sz) ENSURES(F[off + sz + q] == old[off + sz + q], "the bytes behind are kept");
    }
    if (!steps) return e.after();
    e.other();
    e.io->write(off, 0, d);
    e.same();
}
VP_CONTRACT(write_contiguous) { fails = false; write_contiguous(false); }
VP_CONTRACT(write_contiguous_steps) { fails = false; write_contiguous(true); }
VP_CONTRACT(write_contiguous_fails) { fails = true; write_contiguous(true); }

// blocks ----------------------------------------------------------------------
static void request(unsigned char* d, size_t n, size_t bsz, bool write)
{
    buffer = d;
    blocks = n;
    block  = bsz;
    writes = write;
    done   = new unsigned char[n];
    memset(done, 0, n);
}
static void all_done() { FORALL(i, blocks) ENSURES(done[i] == 1, "every block is moved"); }

// strided ---------------------------------------------------------------------
struct Blocks : Env {
    size_t off, bsz, osz, nb;
    unsigned char* d;
    Blocks(bool steps, bool write) : Env(steps)
    {
        off = offset();
        osz = any_u64("osz", 1, 0x7FFFF000, 12);
        bsz = any_u64("bsz", 1, 0x7FFFF000, 12);
        nb  = number("nb", 30);
        REQUIRES(osz <= limit && bsz <= osz);
        REQUIRES(u128(off) + u128(nb) * osz <= fsz);
        M = number("M", 30);
        d = any_ints<unsigned char>("d", nb * bsz);
        asks(nb);
        request(d, nb, bsz, write);
        start  = off;
        stride = osz;
    }
};
static void strided(bool steps, bool write)
{
    Blocks e(steps, write);
    REACHABLE("pre");
    if (write) e.io->write(e.off, e.bsz, e.osz, e.nb, e.d);
    else e.io->read(e.off, e.bsz, e.osz, e.nb, e.d);
    if (!steps) {
        all_done();
        return e.after();
    }
    e.other();
    if (write) e.io->write(0, e.bsz, e.osz, 0, e.d);
    else e.io->read(0, e.bsz, e.osz, 0, e.d);
    e.same();
}
VP_CONTRACT(read_strided) { fails = false; strided(false, false); }
VP_CONTRACT(read_strided_steps) { fails = false; strided(true, false); }
VP_CONTRACT(read_strided_fails) { fails = true; strided(true, false); }
VP_CONTRACT(write_strided) { fails = false; strided(false, true); }
VP_CONTRACT(write_strided_steps) { fails = false; strided(true, true); }
VP_CONTRACT(write_strided_fails) { fails = true; strided(true, true); }

// listed ----------------------------------------------------------------------
struct List : Env {
    size_t bsz, n;
    unsigned char* d;
    size_t* at;
    List(bool steps, bool write) : Env(steps)
    {
        bsz = any_u64("bsz", 1, 0x3FFFF800, 12);
        n   = any_u64("n", 0, uint64_t(1) << 40, 30);
        REQUIRES(2 * bsz <= limit && bsz <= fsz);
        REQUIRES(u128(n) * bsz <= uint64_t(1) << 60);
        M  = number("M", 30);
        d  = any_ints<unsigned char>("d", n * bsz);
        at = any_ints<size_t>("at", n, 0, int64_t(fsz - bsz));
        asks(n);
        request(d, n, bsz, write);
        list = at;
    }
};
static void in_list(bool steps, bool write)
{
    List e(steps, write);
    REACHABLE("pre");
    if (write) e.io->write(e.bsz, e.n, e.at, e.d);
    else e.io->read(e.bsz, e.n, e.at, e.d);
    if (!steps) {
        all_done();
        return e.after();
    }
    e.other();
    if (write) e.io->write(e.bsz, 0, e.at, e.d);
    else e.io->read(e.bsz, 0, e.at, e.d);
    e.same();
}
VP_CONTRACT(read_listed) { fails = false; in_list(false, false); }
VP_CONTRACT(read_listed_steps) { fails = false; in_list(true, false); }
VP_CONTRACT(read_listed_fails) { fails = true; in_list(true, false); }
VP_CONTRACT(write_listed) { fails = false; in_list(false, true); }
VP_CONTRACT(write_listed_steps) { fails = false; in_list(true, true); }
VP_CONTRACT(write_listed_fails) { fails = true; in_list(true, true); }
