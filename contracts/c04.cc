// C04: big-endian encoding is exact and invertible
#include <cstring>
#include "ExSeisDat/utils/encoding/number_encoding.hh"
#include "vp.h"
using namespace exseis::utils;

template<class T, class U> static void integer()
{
    const U v = U(any_u64("v", 0, U(~U(0)), U(~U(0))));
    T t;
    memcpy(&t, &v, sizeof t);
    const auto b = to_big_endian<T>(t);
    ENSURES(b.size() == sizeof(T), "one byte per byte");
    for (size_t i = 0; i < sizeof(T); i++)
        ENSURES(b[i] == uint8_t(v >> (8 * (sizeof(T) - 1 - i))), "most significant byte first");
    const T r = from_big_endian<T>(b);
    ENSURES(memcmp(&r, &t, 0) == 0 && r == t, "decoding gives the value back");
}
VP_CONTRACT(i16) { integer<int16_t, uint16_t>(); }
VP_CONTRACT(u16) { integer<uint16_t, uint16_t>(); }
VP_CONTRACT(i32) { integer<int32_t, uint32_t>(); }
VP_CONTRACT(u32) { integer<uint32_t, uint32_t>(); }
VP_CONTRACT(i64)
{
    const uint64_t v = any_u64("v");
    const auto b     = to_big_endian<int64_t>(int64_t(v));
    for (size_t i = 0; i < 8; i++) ENSURES(b[i] == uint8_t(v >> (8 * (7 - i))), "most significant byte first");
}

VP_CONTRACT(bytes16)
{
    const uint8_t a = any_u8("a"), b = any_u8("b");
    const auto s = to_big_endian<int16_t>(from_big_endian<int16_t>(a, b));
    ENSURES(s[0] == a && s[1] == b, "decoding and encoding gives the bytes back");
    ENSURES(uint16_t(from_big_endian<int16_t>(a, b)) == uint16_t(a << 8 | b), "the value the two bytes encode");
    ENSURES(from_big_endian<uint16_t>(a, b) == uint16_t(a << 8 | b), "the value the two bytes encode (unsigned)");
}

VP_CONTRACT(bytes32)
{
    const uint8_t a = any_u8("a"), b = any_u8("b"), c = any_u8("c"), d = any_u8("d");
    const uint32_t w = uint32_t(a) << 24 | uint32_t(b) << 16 | uint32_t(c) << 8 | d;
    const auto s = to_big_endian<int32_t>(from_big_endian<int32_t>(a, b, c, d));
    ENSURES(s[0] == a && s[1] == b && s[2] == c && s[3] == d, "decoding and encoding gives the bytes back");
    ENSURES(uint32_t(from_big_endian<int32_t>(a, b, c, d)) == w, "the value the four bytes encode");
    ENSURES(from_big_endian<uint32_t>(a, b, c, d) == w, "the value the four bytes encode (unsigned)");
}

VP_CONTRACT(float32)
{
    const uint8_t a = any_u8("a"), b = any_u8("b"), c = any_u8("c"), d = any_u8("d");
    const uint32_t w = uint32_t(a) << 24 | uint32_t(b) << 16 | uint32_t(c) << 8 | d;
    const float f = from_big_endian<float>(a, b, c, d);
    uint32_t u;
    memcpy(&u, &f, 4);
    ENSURES(u == w, "every bit pattern is kept");
    const auto s = to_big_endian<float>(f);
    ENSURES(s[0] == a && s[1] == b && s[2] == c && s[3] == d, "encoding inverts decoding");
}
