// C16: tapering scales the ends of the signal and nothing else
#include "ExSeisDat/utils/signal_processing/Taper_function.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include "vp.h"
#include <cmath>
#include <cstring>
using namespace exseis::utils;

// some taper function: a value for each position and width
extern "C" __attribute__((noinline)) float vp_weight(float p, float w) { return 0.25f + 0.5f * p / (w + 1.0f); }

static inline uint32_t bits(float f)
{
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}
// equal bits; in a native run equal up to rounding
static inline bool near(float a, float b) { return bits(a) == bits(b) || (!vp_symbolic() && std::fabs(a - b) <= 1e-5f); }

VP_CONTRACT(ends)
{
    const size_t n = any_u64("n", 1, uint64_t(1) << 48, 24), left = any_u64("left", 0, VP_MAX64, 12), right = any_u64("right", 0, VP_MAX64, 12);
    REQUIRES(left < n && right < n);
    // the first f samples are zero (of either sign), the next one, if any, is not
    const size_t f = any_u64("f", 0, uint64_t(1) << 48, 24);
    REQUIRES(f <= n);
    float* s     = any_floats<float>("s", n);
    float* g     = any_floats<float>("g", n);
    for (size_t j = 0; j < n; j++) g[j] = s[j];
    uint8_t* neg = any_ints<uint8_t>("neg", n, 0, 1);
    for (size_t j = 0; j < f; j++) {
        const float z = neg[j] != 0 ? -0.0f : 0.0f;
        s[j] = z;
        g[j] = z;
    }
    if (f < n) REQUIRES(s[f] != 0);
    vp_hint(f);
    vp_hint(f / 4);
    REACHABLE("pre");
    taper(n, s, vp_weight, left, right);
    const size_t m = n - f, l = left < m ? left : m, r = right < m ? right : m;
    FORALL(j, f) ENSURES(bits(s[j]) == bits(g[j]), "the muted start is not changed");
    FORALL(k, m)
    {
        float v = g[f + k];
        if (k < l) v *= vp_weight(k + 1, l);
        if (k >= m - r) v *= vp_weight(m - k, r);
        ENSURES(bits(s[f + k]) == bits(v), "a sample is scaled by the weights of the windows it lies in");
    }
}

VP_CONTRACT(linear)
{
    const float p = vp_f32("p"), w = vp_f32("w");
    REQUIRES(w >= 1 && w <= 1e9f && p >= 0 && p <= w);
    const float v = linear_taper(p, w);
    ENSURES(v >= 0 && v <= 1, "a weight is between 0 and 1");
    ENSURES(linear_taper(w, w) == 1, "the weight is 1 at the inner end of the window");
    ENSURES(linear_taper(w / 2, w) == 0.5f, "the weight is a half half way");
    ENSURES(linear_taper(0, w) == 0, "the weight is 0 at the edge");
    ENSURES(bits(exseis_linear_taper(p, w)) == bits(v), "the C function is the same");
}

VP_CONTRACT(cosine)
{
    const float p = vp_f32("p"), w = vp_f32("w");
    REQUIRES(w >= 1 && w <= 1e9f && p >= 0 && p <= w);
    const float pi = 3.14159265358979323846264338327950288;
    const float x = pi * (p - w) / w;
    ENSURES(x >= -4 && x <= 0, "lemma: the angle is in reach");
    const float c = std::cos(x);
    ENSURES(c >= -1 && c <= 1, "lemma: the cosine is");
    const float v = cosine_taper(p, w), q = cosine_square_taper(p, w);
    ENSURES(v >= 0, "a weight is at least 0");
    ENSURES(v <= 1, "a weight is at most 1");
    ENSURES(q >= 0, "a weight is at least 0");
    ENSURES(q <= 1, "a weight is at most 1");
    ENSURES(near(v, 0.5f + 0.5f * c), "the weight is that of the raised cosine");
    ENSURES(near(q, float(double(v) * double(v))), "the squared cosine is the square of the cosine");
    ENSURES(cosine_taper(w, w) == 1, "the weight is 1 at the inner end of the window");
    ENSURES(bits(exseis_cosine_taper(p, w)) == bits(v) && bits(exseis_cosine_square_taper(p, w)) == bits(q), "the C functions are the same");
}
