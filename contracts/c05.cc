// C05: IBM/360 single precision values convert to the exactly rounded IEEE value
#include <cstring>
#include "ExSeisDat/utils/encoding/number_encoding.hh"
#include "vp.h"
using namespace exseis::utils;

static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static bool isnan_bits(uint32_t u) { return (u & 0x7F800000u) == 0x7F800000u && (u & 0x007FFFFFu); }

// the number an IBM value encodes, exactly, as a double: (-1)^s * 0.frac * 16^(e-64)
static double ibm_value(uint32_t w)
{
    const uint64_t s = w >> 31, frac = w & 0xFFFFFF;
    const int64_t e  = int64_t((w >> 24) & 0x7F);
    uint64_t d       = s << 63;
    if (frac != 0) {
        uint64_t top = 23;
        while (((frac >> top) & 1) == 0) top--;
        // frac = 2^top * 1.xxx ; the value is frac * 2^(4(e-64)-24)
        d |= uint64_t(int64_t(top) + 4 * (e - 64) - 24 + 1023) << 52;
        d |= (frac << (52 - top)) & 0x000FFFFFFFFFFFFFull;
    }
    double v;
    memcpy(&v, &d, 8);
    return v;
}

static void decide(bool big)
{
    const uint8_t b0 = any_u8("b0"), b1 = any_u8("b1"), b2 = any_u8("b2"), b3 = any_u8("b3");
    const uint32_t w = uint32_t(b0) << 24 | uint32_t(b1) << 16 | uint32_t(b2) << 8 | b3;
    std::array<unsigned char, 4> a = {{b0, b1, b2, b3}};
    if (!big) a = {{b3, b2, b1, b0}};
    const float f = from_IBM_to_float(a, big);
    REACHABLE("pre");
    if ((w & 0xFFFFFF) == 0) ENSURES((bits(f) & 0x7FFFFFFFu) == 0, "zero converts to zero");
    else ENSURES(bits(f) == bits(float(ibm_value(w))), "the value is the nearest IEEE value, ties to even");
    ENSURES(!isnan_bits(bits(f)), "never NaN");
}

VP_CONTRACT(ibm_big_endian) { decide(true); }
VP_CONTRACT(ibm_little_endian) { decide(false); }
