// A file held in memory behind the library's data interface: what the layers
// above see when the data layer moves exactly the requested bytes (the contract
// of C03).
#pragma once
#include "ExSeisDat/PIOL/DataInterface.hh"
#include "vp.h"
#include <cstring>
#include <string>
#include <memory>

namespace vpf {
typedef unsigned __int128 u128;

// non-owning shared pointer
template<class T> static inline std::shared_ptr<T> ref(T* p) { return std::shared_ptr<T>(std::shared_ptr<void>(), p); }

// what reaches the log
static size_t log_errors = 0, log_others = 0;
static bool unreported = false;  // something failed that is not in the log yet

// an ExSeisPIOL with a log and, unless one is put there, no communicator
struct FakePiol {
    alignas(16) unsigned char raw[sizeof(exseis::PIOL::ExSeisPIOL)];
    alignas(16) unsigned char lraw[sizeof(exseis::PIOL::Logger)];
    FakePiol()
    {
        for (size_t i = 0; i < sizeof raw; i++) raw[i] = 0;
        for (size_t i = 0; i < sizeof lraw; i++) lraw[i] = 0;
        reinterpret_cast<void**>(raw)[0] = lraw;
        log_errors = log_others = 0;
        unreported = false;
    }
    exseis::PIOL::ExSeisPIOL* get() { return reinterpret_cast<exseis::PIOL::ExSeisPIOL*>(raw); }
};

struct VFile : public exseis::PIOL::DataInterface {
    unsigned char* F;
    mutable size_t sz;
    size_t cap;
    mutable size_t calls = 0;
    VFile(std::shared_ptr<exseis::PIOL::ExSeisPIOL> p, unsigned char* f, size_t n, size_t c) :
        exseis::PIOL::DataInterface(p, ""), F(f), sz(n), cap(c) {}
    size_t getFileSz() const override { return sz; }
    void setFileSz(size_t n) const override { sz = n; }
    void read(size_t off, size_t n, unsigned char* d) const override
    {
        calls++;
        if (n != 0) memcpy(d, F + off, n);
    }
    void read(size_t off, size_t bsz, size_t osz, size_t nb, unsigned char* d) const override
    {
        calls++;
        if (bsz == 0) return;
        for (size_t b = 0; b < nb; b++) memcpy(d + b * bsz, F + (off + b * osz), bsz);
    }
    void read(size_t bsz, size_t nb, const size_t* off, unsigned char* d) const override
    {
        calls++;
        if (bsz == 0) return;
        for (size_t b = 0; b < nb; b++) memcpy(d + b * bsz, F + off[b], bsz);
    }
    void write(size_t off, size_t n, const unsigned char* d) const override
    {
        calls++;
        if (n != 0) memcpy(F + off, d, n);
    }
    void write(size_t off, size_t bsz, size_t osz, size_t nb, const unsigned char* d) const override
    {
        calls++;
        if (bsz == 0) return;
        for (size_t b = 0; b < nb; b++) memcpy(F + (off + b * osz), d + b * bsz, bsz);
    }
    void write(size_t bsz, size_t nb, const size_t* off, const unsigned char* d) const override
    {
        calls++;
        if (bsz == 0) return;
        for (size_t b = 0; b < nb; b++) memcpy(F + off[b], d + b * bsz, bsz);
    }
};
}  // namespace vpf

#ifndef VP_REAL_LOGGER
// contract of the logger (C22): an error is remembered
void exseis::PIOL::Logger::record(std::string, Layer, Status s, std::string, Verbosity)
{
    if (s == Status::Error) {
        vpf::log_errors++;
        vpf::unreported = false;
    }
    else vpf::log_others++;
}
bool exseis::PIOL::Logger::isErr() const { return vpf::log_errors != 0; }
#endif
