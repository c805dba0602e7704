// C01: block decomposition partitions [0,N)
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
#include "vp.h"
using namespace exseis::utils;

VP_CONTRACT(partition)
{
    const uint64_t N = any_u64("N", 0, VP_MAX64, 5000);
    const uint64_t P = any_u64("P", 1, VP_MAX64, 70);
    const uint64_t r = any_u64("r", 0, VP_MAX64, 70);
    REQUIRES(r < P);
    auto d = block_decomposition(N, P, r);
    REACHABLE("pre");
    ENSURES(d.global_offset <= N && d.local_size <= N - d.global_offset, "block inside the range");
    if (r == 0) ENSURES(d.global_offset == 0, "first block starts at 0");
    if (r + 1 == P) ENSURES(d.global_offset + d.local_size == N, "last block ends at N");
    else {
        auto e = block_decomposition(N, P, r + 1);
        ENSURES(e.global_offset == d.global_offset + d.local_size, "next block starts where this one ends");
    }
    ENSURES(d.local_size >= N / P && d.local_size <= N / P + (N % P != 0), "sizes differ by at most one");
}

VP_CONTRACT(order)
{
    const uint64_t N = any_u64("N", 0, VP_MAX64, 5000);
    const uint64_t P = any_u64("P", 1, VP_MAX64, 70);
    const uint64_t r = any_u64("r", 0, VP_MAX64, 70);
    const uint64_t q = any_u64("q", 0, VP_MAX64, 70);
    REQUIRES(r < P && q < P && r < q);
    auto d = block_decomposition(N, P, r);
    auto e = block_decomposition(N, P, q);
    ENSURES(d.local_size >= e.local_size, "larger blocks first");
    ENSURES(d.global_offset + d.local_size <= e.global_offset, "blocks are ordered and disjoint");
}

VP_CONTRACT(location)
{
    const uint64_t N = any_u64("N", 1, VP_MAX64 - 1, 5000);
    const uint64_t P = any_u64("P", 1, VP_MAX64, 70);
    const uint64_t g = any_u64("g", 0, VP_MAX64, 5000);
    REQUIRES(g < N);
    auto l = block_decomposition_location(N, P, g);
    REACHABLE("pre");
    ENSURES(l.rank < P, "owner is a rank");
    auto d = block_decomposition(N, P, l.rank);
    ENSURES(l.local_index < d.local_size, "local index inside the owner's block");
    ENSURES(d.global_offset + l.local_index == g, "location inverts the decomposition");
}
