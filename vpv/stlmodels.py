"""contracts of the compiled parts of libstdc++ that containers use (trusted)"""
from sx import *
import mem
from ir import I64, F32

FAST = (2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13)
PRIMES = (17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167,
          179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823,
          887, 953, 1031)


def install(x, model, rx):
    # std::unordered_map: the number of buckets (load factor 1, never changed by the code)
    def resize(st, p, v):
        mem.store(x, st, Ptr(p.obj, iadd(p.off, 8)), v, I64)

    def next_bkt(st, p, n):
        if n == 0:
            return 1
        r = FAST[n] if n < len(FAST) else next((q for q in PRIMES if q >= n), None)
        if r is None:
            raise Unsupported('unordered_map with more than 1031 buckets')
        resize(st, p, r)
        return r

    @model('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
    def _(x, st, a, ins):
        if not isinstance(a[1], int):
            raise Unsupported('unordered_map of symbolic size')
        return next_bkt(st, a[0], a[1])

    @model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
    def _(x, st, a, ins):
        bkt, elt, ins_ = a[1:4]
        nr = mem.load(x, st, Ptr(a[0].obj, iadd(a[0].off, 8)), I64)
        if not all(isinstance(v, int) for v in (bkt, elt, ins_, nr)):
            raise Unsupported('unordered_map of symbolic size')
        if elt + ins_ > nr:
            need = max(elt + ins_, 0 if nr else 11)
            if need >= bkt:
                return (1, next_bkt(st, a[0], max(need + 1, bkt * 2)))
            resize(st, a[0], bkt)
        return (0, 0)
