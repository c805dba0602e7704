// C10: reading a SEG-Y file gives its traces
#include "ExSeisDat/utils/encoding/number_encoding.hh"
#include "vstack.h"
using namespace exseis::PIOL;
using namespace vpf;

struct Env : SegyFile {
    ReadSEGY* r;
    Env(SEGYNumberFormat fmt)
    {
        // opened as a file of fewer than 3600 bytes, so that the header is not parsed; then any geometry
        f->sz = 0;
        r     = new ReadSEGY(piol, "", obj);
        f->sz = fsz;
        r->ns = ns;
        r->nt = nt;
        r->number_format = fmt;
    }
    // the sample k of trace i, as the bits of a float
    uint32_t sample(size_t i, size_t k) const { return be32(F + (at(i) + MD + SS * k)); }
    uint32_t sample_ibm(size_t i, size_t k) const
    {
        const unsigned char* p = F + (at(i) + MD + SS * k);
        return bits(exseis::utils::from_IBM_to_float({{p[0], p[1], p[2], p[3]}}, true));
    }
    size_t left(size_t off, size_t sz) const { return off >= nt ? 0 : (sz < nt - off ? sz : nt - off); }
};

VP_CONTRACT(trace_ieee)
{
    Env e(SEGYNumberFormat::IEEE);
    const size_t off = any_u64("off", 0, uint64_t(1) << 45, 24), sz = any_u64("sz", 0, uint64_t(1) << 44, 20);
    const size_t n = e.left(off, sz);
    float* t = any_floats<float>("t", sz * e.ns);
    float* g = any_floats<float>("t", sz * e.ns);
    for (size_t j = 0; j < sz * e.ns; j++) g[j] = t[j];
    REACHABLE("pre");
    e.r->readTrace(off, sz, t);
    FORALL(i, n) FORALL(k, e.ns)
        ENSURES(bits(t[i * e.ns + k]) == e.sample(off + i, k), "the samples are the file's, in the byte order of the host");
    FORALL(j, (sz - n) * e.ns)
        ENSURES(bits(t[n * e.ns + j]) == bits(g[n * e.ns + j]), "traces beyond the end are not touched");
}

VP_CONTRACT(trace_ibm)
{
    Env e(SEGYNumberFormat::IBM);
    const size_t off = any_u64("off", 0, uint64_t(1) << 45, 24), sz = any_u64("sz", 0, uint64_t(1) << 44, 20);
    const size_t n = e.left(off, sz);
    float* t = any_floats<float>("t", sz * e.ns);
    REACHABLE("pre");
    e.r->readTrace(off, sz, t);
    FORALL(i, n) FORALL(k, e.ns)
        ENSURES(bits(t[i * e.ns + k]) == e.sample_ibm(off + i, k), "the samples are the values of the file's IBM numbers");
}

VP_CONTRACT(list_ieee)
{
    Env e(SEGYNumberFormat::IEEE);
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 44, 20);
    REQUIRES(e.nt > 0);
    size_t* l = any_ints<size_t>("list", sz, 0, int64_t(e.nt) - 1);
    float* t = any_floats<float>("t", sz * e.ns);
    REACHABLE("pre");
    e.r->readTraceNonContiguous(sz, l, t);
    FORALL(i, sz) FORALL(k, e.ns)
        ENSURES(bits(t[i * e.ns + k]) == e.sample(l[i], k), "the i-th trace is the i-th listed one");
}

VP_CONTRACT(list_ibm)
{
    Env e(SEGYNumberFormat::IBM);
    const size_t sz = any_u64("sz", 0, uint64_t(1) << 44, 20);
    REQUIRES(e.nt > 0);
    size_t* l = any_ints<size_t>("list", sz, 0, int64_t(e.nt) - 1);
    float* t = any_floats<float>("t", sz * e.ns);
    REACHABLE("pre");
    e.r->readTraceNonContiguous(sz, l, t);
    FORALL(i, sz) FORALL(k, e.ns)
        ENSURES(bits(t[i * e.ns + k]) == e.sample_ibm(l[i], k), "the i-th trace is the i-th listed one");
}

// opening: the geometry is that of the binary header
VP_CONTRACT(open)
{
    FakePiol fp;
    auto piol = ref(fp.get());
    const size_t fsz = any_u64("fsz", 0, uint64_t(1) << 60, 12000);
    unsigned char* F = any_ints<unsigned char>("F", fsz);
    VFile* f = new VFile(piol, F, fsz, fsz);
    auto obj = std::shared_ptr<ObjectInterface>(std::make_shared<ObjectSEGY>(piol, "", ref<DataInterface>(f), FileMode::Test));
    const uint32_t rns = fsz >= HO ? uint32_t(F[3220]) << 8 | F[3221] : 0;
    REQUIRES(rns < 0x8000);
    REACHABLE("pre");
    ReadSEGY r(piol, "", obj);
    if (fsz < HO) {
        ENSURES(r.readNs() == 0 && r.readNt() == 0, "a file without a header has no traces");
    }
    else {
        ENSURES(r.readNs() == rns, "the number of samples is that of the header");
        const size_t nt = r.readNt(), rec = MD + SS * rns;
        ENSURES(HO + nt * rec <= fsz && fsz - (HO + nt * rec) < rec, "as many traces as there are whole records");
        ENSURES(r.number_format == SEGYNumberFormat(int16_t(uint16_t(F[3224]) << 8 | F[3225])), "the format is that of the header");
        ENSURES(r.incFactor == 1e-6 && same(r.readInc(), 1e-6 * double(int16_t(uint16_t(F[3216]) << 8 | F[3217]))), "the interval is that of the header, in seconds");
        ENSURES(r.readText().size() == 3200, "the text has 3200 characters");
    }
}
