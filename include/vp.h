// Contract language used by the files in /verif/contracts.
//
// A contract is a function  VP_CONTRACT(name) { ... }  that
//   - builds an arbitrary pre-state (vp_u64, vp_array, ...: any value at all),
//   - states the precondition     (REQUIRES),
//   - calls the real function from /repo,
//   - states the postcondition    (ENSURES, FORALL).
// The deductive verifier (vpv/) runs it for all values at once, with loops cut
// by inductive invariants.  The same file compiled with VP_NATIVE is linked
// with the real code to replay counterexamples and to search for failing
// inputs of an obligation that was not discharged.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
uint64_t vp_u64(const char* name, uint64_t lo, uint64_t hi, uint64_t native_hi);
int64_t vp_i64(const char* name, int64_t lo, int64_t hi);
bool vp_bool(const char* name);
float vp_f32(const char* name);
double vp_f64(const char* name);
void* vp_array(const char* name, size_t n, size_t elem, int kind);
void* vp_array_r(const char* name, size_t n, size_t elem, int64_t lo, int64_t hi);
void* vp_array_inj(const char* name, size_t n, size_t elem, int64_t lo, int64_t hi);
size_t vp_index_of(const void* a, size_t v);
void vp_assume(bool);
void vp_check(bool, const char* id);
void vp_cover(const char* id);
bool vp_symbolic(void);
size_t vp_pick(const char* name, size_t n);
size_t vp_case(const char* name, size_t n);
void vp_hint(size_t t);
size_t vp_fa_begin(const char* name, size_t n);
size_t vp_fa_end(size_t j, size_t n);
size_t vp_fa_next(size_t j, size_t n);
}

#define VP_CONTRACT(f) extern "C" void contract_##f()
#define REQUIRES(c) vp_assume(c)
#define ENSURES(c, id) vp_check(c, id)
#define FORALL(j, n) for (size_t j = vp_fa_begin(#j, n); j < vp_fa_end(j, n); j = vp_fa_next(j, n))
#define REACHABLE(id) vp_cover(id)

static const uint64_t VP_MAX64 = ~uint64_t(0);

// any value in [lo,hi]; the native search draws from [lo,native_hi]
static inline uint64_t any_u64(const char* n, uint64_t lo, uint64_t hi, uint64_t nat) { return vp_u64(n, lo, hi, nat < hi ? nat : hi); }
static inline uint64_t any_u64(const char* n) { return vp_u64(n, 0, VP_MAX64, VP_MAX64); }
static inline uint32_t any_u32(const char* n) { return uint32_t(vp_u64(n, 0, 0xFFFFFFFFu, 0xFFFFFFFFu)); }
static inline uint16_t any_u16(const char* n) { return uint16_t(vp_u64(n, 0, 0xFFFFu, 0xFFFFu)); }
static inline uint8_t any_u8(const char* n) { return uint8_t(vp_u64(n, 0, 0xFFu, 0xFFu)); }
template<class T> static inline T* any_ints(const char* nm, size_t n) { return static_cast<T*>(vp_array(nm, n, sizeof(T), 0)); }
template<class T> static inline T* any_ints(const char* nm, size_t n, int64_t lo, int64_t hi) { return static_cast<T*>(vp_array_r(nm, n, sizeof(T), lo, hi)); }
template<class T> static inline T* any_floats(const char* nm, size_t n) { return static_cast<T*>(vp_array(nm, n, sizeof(T), 1)); }
// pairwise different 64-bit values in [lo,hi]; index_of: the index of v in such an array, if it is there
static inline size_t* any_distinct(const char* nm, size_t n, int64_t lo, int64_t hi) { return static_cast<size_t*>(vp_array_inj(nm, n, sizeof(size_t), lo, hi)); }
static inline size_t index_of(const size_t* a, size_t v) { return vp_index_of(a, v); }
