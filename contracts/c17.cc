// C17: automatic gain control scales each sample with the gain of its own window of the given signal
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "vp.h"
#include <cmath>
#include <cstring>
using namespace exseis::utils;

static inline uint32_t bits(float f)
{
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}

// some gain: a value for the first sample, the size and the centre of the window
extern "C" __attribute__((noinline)) float vp_gain(size_t at, size_t size, size_t centre, float target) { return target + 0.5f * at + 3 * size + 0.25f * centre; }

static const float *sig, *given;
static size_t num;
static float wanted;
static float gain(const float* s, size_t size, float target, size_t centre)
{
    const size_t at = s - sig;
    ENSURES(at <= num && size <= num - at, "the window lies in the signal");
    ENSURES(bits(target) == bits(wanted), "the amplitude is the one asked for");
    FORALL(q, size) ENSURES(bits(s[q]) == bits(given[at + q]), "the gain is that of the signal as it was given");
    return vp_gain(at, size, centre, target);
}

static void scaled(bool c)
{
    const size_t n = any_u64("n", 1, uint64_t(1) << 48, 40), w = any_u64("w", 0, uint64_t(1) << 48, 39);
    const size_t h = w / 2;
    REQUIRES(2 * h + 1 < n);
    float* s = any_floats<float>("s", n);
    float* g = any_floats<float>("g", n);
    for (size_t j = 0; j < n; j++) g[j] = s[j];
    sig    = s;
    given  = g;
    num    = n;
    wanted = vp_f32("target");
    REACHABLE("pre");
    if (c) exseis_AGC(n, s, gain, w, wanted);
    else AGC(n, s, gain, w, wanted);
    FORALL(j, h) ENSURES(bits(s[j]) == bits(g[j] * vp_gain(0, h + j + 1, j, wanted)), "the window of an early sample starts with the signal");
    FORALL(k, n - 2 * h) ENSURES(bits(s[h + k]) == bits(g[h + k] * vp_gain(k, 2 * h + 1, h, wanted)), "the window lies around the sample");
    FORALL(k, h) ENSURES(bits(s[n - h + k]) == bits(g[n - h + k] * vp_gain(n - 2 * h + k, 2 * h - k, h, wanted)), "the window of a late sample ends with the signal");
}
VP_CONTRACT(windows) { scaled(false); }
VP_CONTRACT(c_windows) { scaled(true); }
