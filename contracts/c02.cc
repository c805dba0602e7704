// C02: SEG-Y geometry. Every access of the object layer touches exactly its bytes.
#include "ExSeisDat/PIOL/ObjectSEGY.hh"
#include "ExSeisDat/PIOL/segy_utils.hh"
#include "vfile.h"
using namespace exseis::PIOL;
using vpf::u128;

// header size, trace header size, bytes per sample of the SEG-Y format
static const size_t HO = 3600, MD = 240, SS = 4;

struct Env {
    vpf::FakePiol fp;
    size_t nt, ns, fsz;
    unsigned char *F;
    vpf::VFile* f;
    ObjectSEGY* o;
    Env()
    {
        ns = any_u64("ns", 0, uint64_t(1) << 61, 12);
        nt = any_u64("nt", 0, uint64_t(1) << 61, 20);
        const u128 tot = u128(HO) + u128(nt) * (u128(MD) + u128(SS) * ns);
        REQUIRES(tot <= (u128(1) << 62));
        fsz = size_t(tot);
        F = any_ints<unsigned char>("F", fsz);
        auto p = vpf::ref(fp.get());
        f = new vpf::VFile(p, F, fsz, fsz);
        o = new ObjectSEGY(p, "", vpf::ref<DataInterface>(f), FileMode::Test);
    }
    size_t rec() const { return MD + SS * ns; }
    size_t at(size_t i) const { return HO + i * rec(); }
};

VP_CONTRACT(read_header)
{
    Env e;
    unsigned char* d = any_ints<unsigned char>("d", HO);
    e.o->readHO(d);
    FORALL(j, HO) ENSURES(d[j] == e.F[j], "the header bytes are the first 3600");
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(read_whole)
{
    Env e;
    const size_t off = any_u64("off", 0, VP_MAX64, 20), sz = any_u64("sz", 0, VP_MAX64, 20);
    REQUIRES(off <= e.nt && sz <= e.nt - off);
    unsigned char* d = any_ints<unsigned char>("d", sz * e.rec());
    REACHABLE("pre");
    e.o->readDO(off, e.ns, sz, d);
    FORALL(i, sz) FORALL(b, e.rec())
        ENSURES(d[i * e.rec() + b] == e.F[e.at(off + i) + b], "whole traces come from their records");
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(read_md)
{
    Env e;
    const size_t off = any_u64("off", 0, VP_MAX64, 20), sz = any_u64("sz", 0, VP_MAX64, 20);
    REQUIRES(off <= e.nt && sz <= e.nt - off);
    unsigned char* d = any_ints<unsigned char>("d", sz * MD);
    REACHABLE("pre");
    e.o->readDOMD(off, e.ns, sz, d);
    FORALL(i, sz) FORALL(b, MD)
        ENSURES(d[i * MD + b] == e.F[e.at(off + i) + b], "trace headers come from their records");
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(read_df)
{
    Env e;
    const size_t off = any_u64("off", 0, VP_MAX64, 20), sz = any_u64("sz", 0, VP_MAX64, 20);
    REQUIRES(off <= e.nt && sz <= e.nt - off);
    unsigned char* d = any_ints<unsigned char>("d", sz * SS * e.ns);
    REACHABLE("pre");
    e.o->readDODF(off, e.ns, sz, d);
    FORALL(i, sz) FORALL(b, SS * e.ns)
        ENSURES(d[i * SS * e.ns + b] == e.F[e.at(off + i) + MD + b], "samples come from their records");
    ENSURES(e.f->calls == 1, "one transfer");
}

// lists of trace numbers ---------------------------------------------------
static size_t* list_of(Env& e, size_t sz)
{
    size_t* l = any_ints<size_t>("list", sz, 0, int64_t(e.nt) - 1);
    return l;
}

VP_CONTRACT(read_whole_list)
{
    Env e;
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 50, 12);
    REQUIRES(e.nt > 0 && u128(sz) * e.rec() <= (u128(1) << 62));
    size_t* l = list_of(e, sz);
    unsigned char* d = any_ints<unsigned char>("d", sz * e.rec());
    REACHABLE("pre");
    e.o->readDO(l, e.ns, sz, d);
    FORALL(i, sz) FORALL(b, e.rec())
        ENSURES(d[i * e.rec() + b] == e.F[e.at(l[i]) + b], "the i-th whole trace comes from the i-th listed record");
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(read_md_list)
{
    Env e;
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 50, 12);
    REQUIRES(e.nt > 0);
    size_t* l = list_of(e, sz);
    unsigned char* d = any_ints<unsigned char>("d", sz * MD);
    REACHABLE("pre");
    e.o->readDOMD(l, e.ns, sz, d);
    FORALL(i, sz) FORALL(b, MD)
        ENSURES(d[i * MD + b] == e.F[e.at(l[i]) + b], "the i-th trace header comes from the i-th listed record");
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(read_df_list)
{
    Env e;
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 50, 12);
    REQUIRES(e.nt > 0 && u128(sz) * e.rec() <= (u128(1) << 62));
    size_t* l = list_of(e, sz);
    unsigned char* d = any_ints<unsigned char>("d", sz * SS * e.ns);
    REACHABLE("pre");
    e.o->readDODF(l, e.ns, sz, d);
    FORALL(i, sz) FORALL(b, SS * e.ns)
        ENSURES(d[i * SS * e.ns + b] == e.F[e.at(l[i]) + MD + b], "the i-th samples come from the i-th listed record");
}

// writing ------------------------------------------------------------------
VP_CONTRACT(write_header)
{
    Env e;
    unsigned char* d = any_ints<unsigned char>("d", HO);
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    e.o->writeHO(d);
    FORALL(j, HO) ENSURES(e.F[j] == d[j], "the first 3600 bytes are the header");
    FORALL(q, e.fsz) if (q >= HO) ENSURES(e.F[q] == old[q], "no other byte changes");
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(write_no_header)
{
    Env e;
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    e.o->writeHO(nullptr);
    FORALL(q, e.fsz) ENSURES(e.F[q] == old[q], "no byte changes");
    ENSURES(e.f->calls == 1, "one transfer, so that the process takes part in a collective one");
}

VP_CONTRACT(write_whole)
{
    Env e;
    const size_t off = any_u64("off", 0, VP_MAX64, 20), sz = any_u64("sz", 0, VP_MAX64, 20);
    REQUIRES(off <= e.nt && sz <= e.nt - off);
    unsigned char* d = any_ints<unsigned char>("d", sz * e.rec());
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    REACHABLE("pre");
    e.o->writeDO(off, e.ns, sz, d);
    FORALL(q, e.fsz)
    {
        const bool in = q >= e.at(off) && q < e.at(off) + sz * e.rec();
        ENSURES(e.F[q] == (in ? d[q - e.at(off)] : old[q]), "exactly the records of the traces are written");
    }
    ENSURES(e.f->calls == 1, "one transfer");
}

// the record q lies in and the position inside it, for bytes behind the header
VP_CONTRACT(write_md)
{
    Env e;
    const size_t off = any_u64("off", 0, VP_MAX64, 20), sz = any_u64("sz", 0, VP_MAX64, 20);
    REQUIRES(off <= e.nt && sz <= e.nt - off);
    unsigned char* d = any_ints<unsigned char>("d", sz * MD);
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    REACHABLE("pre");
    e.o->writeDOMD(off, e.ns, sz, d);
    FORALL(q, HO) ENSURES(e.F[q] == old[q], "the file header is kept");
    FORALL(i, e.nt) FORALL(b, e.rec())
    {
        const bool in = i >= off && i - off < sz && b < MD;
        ENSURES(e.F[e.at(i) + b] == (in ? d[(i - off) * MD + b] : old[e.at(i) + b]), "exactly the headers of the traces are written");
    }
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(write_df)
{
    Env e;
    const size_t off = any_u64("off", 0, VP_MAX64, 20), sz = any_u64("sz", 0, VP_MAX64, 20);
    REQUIRES(off <= e.nt && sz <= e.nt - off);
    unsigned char* d = any_ints<unsigned char>("d", sz * SS * e.ns);
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    REACHABLE("pre");
    e.o->writeDODF(off, e.ns, sz, d);
    FORALL(q, HO) ENSURES(e.F[q] == old[q], "the file header is kept");
    FORALL(i, e.nt) FORALL(b, e.rec())
    {
        const bool in = i >= off && i - off < sz && b >= MD;
        ENSURES(e.F[e.at(i) + b] == (in ? d[(i - off) * SS * e.ns + b - MD] : old[e.at(i) + b]), "exactly the samples of the traces are written");
    }
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(write_whole_list)
{
    Env e;
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 50, 12);
    REQUIRES(e.nt > 0 && sz <= e.nt);
    size_t* l = any_distinct("list", sz, 0, int64_t(e.nt) - 1);
    unsigned char* d = any_ints<unsigned char>("d", sz * e.rec());
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    REACHABLE("pre");
    e.o->writeDO(l, e.ns, sz, d);
    FORALL(q, HO) ENSURES(e.F[q] == old[q], "the file header is kept");
    FORALL(i, e.nt) FORALL(b, e.rec())
    {
        const size_t j = index_of(l, i);
        if (j < sz && l[j] == i) ENSURES(e.F[e.at(i) + b] == d[j * e.rec() + b], "a listed trace is written from its place");
        else ENSURES(e.F[e.at(i) + b] == old[e.at(i) + b], "a trace that is not listed is kept");
    }
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(write_md_list)
{
    Env e;
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 50, 12);
    REQUIRES(e.nt > 0 && sz <= e.nt);
    size_t* l = any_distinct("list", sz, 0, int64_t(e.nt) - 1);
    unsigned char* d = any_ints<unsigned char>("d", sz * MD);
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    REACHABLE("pre");
    e.o->writeDOMD(l, e.ns, sz, d);
    FORALL(q, HO) ENSURES(e.F[q] == old[q], "the file header is kept");
    FORALL(i, e.nt) FORALL(b, e.rec())
    {
        const size_t j = index_of(l, i);
        if (j < sz && l[j] == i && b < MD) ENSURES(e.F[e.at(i) + b] == d[j * MD + b], "a listed trace header is written from its place");
        else ENSURES(e.F[e.at(i) + b] == old[e.at(i) + b], "every other byte is kept");
    }
    ENSURES(e.f->calls == 1, "one transfer");
}

VP_CONTRACT(write_df_list)
{
    Env e;
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 50, 12);
    REQUIRES(e.nt > 0 && sz <= e.nt);
    size_t* l = any_distinct("list", sz, 0, int64_t(e.nt) - 1);
    unsigned char* d = any_ints<unsigned char>("d", sz * SS * e.ns);
    unsigned char* old = new unsigned char[e.fsz];
    memcpy(old, e.F, e.fsz);
    REACHABLE("pre");
    e.o->writeDODF(l, e.ns, sz, d);
    FORALL(q, HO) ENSURES(e.F[q] == old[q], "the file header is kept");
    FORALL(i, e.nt) FORALL(b, e.rec())
    {
        const size_t j = index_of(l, i);
        if (j < sz && l[j] == i && b >= MD) ENSURES(e.F[e.at(i) + b] == d[j * SS * e.ns + (b - MD)], "listed samples are written from their place");
        else ENSURES(e.F[e.at(i) + b] == old[e.at(i) + b], "every other byte is kept");
    }
}

// file size and trace count are inverse ------------------------------------
VP_CONTRACT(file_size)
{
    const size_t ns = any_u64("ns", 0, uint64_t(1) << 60, 12), nt = any_u64("nt", 0, uint64_t(1) << 61, 20);
    const u128 tot = u128(HO) + u128(nt) * (u128(MD) + u128(SS) * ns);
    REQUIRES(tot < (u128(1) << 63));
    REACHABLE("pre");
    ENSURES(SEGY_utils::getFileSz(nt, ns) == size_t(tot), "the file holds the header and nt records");
    ENSURES(SEGY_utils::getNt(SEGY_utils::getFileSz(nt, ns), ns) == nt, "the trace count inverts the file size");
    const size_t x = any_u64("x", HO, uint64_t(1) << 62, 20000);
    const size_t n = SEGY_utils::getNt(x, ns);
    ENSURES(u128(HO) + u128(n) * (u128(MD) + u128(SS) * ns) <= x && u128(HO) + (u128(n) + 1) * (u128(MD) + u128(SS) * ns) > x,
        "as many traces as fit in the file");
}
