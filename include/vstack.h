// The reading and writing stack over a file in memory: the real file and object
// layers, and the contract of the data layer (vfile.h).
#pragma once
#include "ExSeisDat/PIOL/ObjectSEGY.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/segy_utils.hh"
#include "vfile.h"

namespace vpf {
static const size_t HO = 3600, MD = 240, SS = 4;
using exseis::PIOL::SEGY_utils::SEGYNumberFormat;

// a SEG-Y file with any number of traces and samples, any contents
struct SegyFile {
    FakePiol fp;
    std::shared_ptr<exseis::PIOL::ExSeisPIOL> piol;
    size_t nt, ns, fsz;
    unsigned char* F;
    VFile* f;
    std::shared_ptr<exseis::PIOL::ObjectInterface> obj;
    SegyFile(size_t slack_records = 0)
    {
        // the number of samples is a 16 bit field
        ns = any_u64("ns", 0, 32767, 12);
        nt = any_u64("nt", 0, uint64_t(1) << 44, 20);
        fsz = HO + nt * rec();
        F = any_ints<unsigned char>("F", fsz + slack_records * rec());
        piol = ref(fp.get());
        f = new VFile(piol, F, fsz, fsz);
        obj = std::shared_ptr<exseis::PIOL::ObjectInterface>(
          std::make_shared<exseis::PIOL::ObjectSEGY>(piol, "", ref<exseis::PIOL::DataInterface>(f), exseis::PIOL::FileMode::Test));
    }
    size_t rec() const { return MD + SS * ns; }
    size_t at(size_t i) const { return HO + i * rec(); }
};

// bits of the big-endian number in four bytes
static inline uint32_t be32(const unsigned char* p)
{
    return uint32_t(p[0]) << 24 | uint32_t(p[1]) << 16 | uint32_t(p[2]) << 8 | p[3];
}
// the same value (the same bits)
static inline bool same(double a, double b)
{
    uint64_t x, y;
    memcpy(&x, &a, 8);
    memcpy(&y, &b, 8);
    return x == y;
}
static inline uint32_t bits(const float& f)
{
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}
}  // namespace vpf
