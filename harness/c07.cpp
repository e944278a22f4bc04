// C07: blocks of an arena, any request sizes
#include "arena.h"
#ifndef NB
#    define NB 3
#endif
using rg::memory::Block;
static size_t largest_pow2(size_t x)
{
    size_t p = 1;
    while(p * 2 <= x)
        p *= 2;
    return p;
}
// one request of any size, chunks of any size around the size of a block
extern "C" void c07_limit()
{
    size_t chunk = AR_ADMIN + 256 + 8 * __sym_concrete(sym_range("delta", 4, 8)) - 48;
    Arena a(ChunkSource{}, chunk);
    size_t n = sym_u64("n");
    Block b = a.allocate(n);
    if(b)
    {
        ar_check_block(b, n);
    }
    else
        __sym_assert(n > largest_pow2(chunk - AR_ADMIN), "a request that fits into a chunk is not refused");
    __sym_cover(b, "allocated");
    __sym_cover(!b, "refused");
}
// NB requests of any sizes, all blocks stay live
extern "C" void c07_blocks()
{
    Arena a(ChunkSource{}, AR_CHUNK);
    Block b[NB];
    size_t n[NB];
    unsigned ok = 0;
    for(unsigned i = 0; i < NB; ++i)
    {
        n[i] = sym_u64("n");
        b[i] = a.allocate(n[i]);
        if(b[i])
        {
            ar_check_block(b[i], n[i]);
            ar_check_aligned(b[i], n[i]);
            for(unsigned j = 0; j < i; ++j)
                if(b[j])
                    ar_check_disjoint(b[i], b[j]);
            ++ok;
        }
        else
            __sym_assert(n[i] > largest_pow2(AR_USABLE), "a request that fits into a chunk is not refused");
    }
    for(unsigned i = 0; i < ar_n; ++i)
        __sym_assert(!ar_back[i], "no chunk is given back while its blocks are live");
    __sym_cover(ok == NB && ar_n > 1, "several chunks");
    __sym_cover(ok < NB, "refused");
}
// allocate, free some, allocate again: freed blocks do not disturb live ones
#ifndef NH
#    define NH 4
#endif
extern "C" void c07_history()
{
    Arena a(ChunkSource{}, AR_CHUNK);
    Block b[NH];
    bool live[NH] = {};
    size_t n[NH];
    for(unsigned i = 0; i < NH; ++i)
    {
        n[i] = sym_bool("large") ? 200 : 100;
        if(NH > 3)
            n[i] = __sym_concrete(n[i]);
        b[i] = a.allocate(n[i]);
        __sym_assert(b[i], "a request that fits into a chunk is not refused");
        ar_check_block(b[i], n[i]);
        for(unsigned j = 0; j < i; ++j)
            if(live[j])
                ar_check_disjoint(b[i], b[j]);
        live[i] = true;
        unsigned k = __sym_concrete(sym_range("free", 3, NH + 1));
        if(k < NH && live[k])
        {
            a.deallocate(b[k]);
            live[k] = false;
        }
        for(unsigned j = 0; j <= i; ++j)
            if(live[j])
                ar_check_block(b[j], n[j]);
    }
    __sym_cover(ar_back[0], "a chunk was given back");
    for(unsigned j = 0; j < NH; ++j)
        if(live[j])
            a.deallocate(b[j]);
    for(unsigned i = 0; i + 1 < ar_n; ++i)
        __sym_assert(ar_back[i], "an exhausted chunk without live blocks is given back");
}
// one or two blocks in each of several chunks, freed in any order: each chunk but the last one is given back as soon as
// its blocks are free
extern "C" void c07_return()
{
    Arena a(ChunkSource{}, AR_CHUNK);
    Block b[NH];
    unsigned chunk[NH];
    bool live[NH];
    for(unsigned i = 0; i < NH; ++i)
    {
        b[i] = a.allocate(__sym_concrete(sym_bool("large")) ? 200 : 100);
        __sym_assert(b[i], "a request that fits into a chunk is not refused");
        chunk[i] = ar_n - 1;
        live[i] = true;
    }
    for(unsigned i = 0; i < NH; ++i)
    {
        unsigned k = __sym_concrete(sym_range("free", 3, NH));
        __sym_assume(live[k]);
        a.deallocate(b[k]);
        live[k] = false;
        for(unsigned c = 0; c < ar_n; ++c)
        {
            bool used = c + 1 == ar_n;
            for(unsigned j = 0; j < NH; ++j)
                used = used || (live[j] && chunk[j] == c);
            __sym_assert(ar_back[c] == !used, "a chunk is given back when the last of its blocks is free");
        }
    }
    __sym_cover(ar_n >= NH, "several chunks");
}
// the allocator of a single chunk, at any place in memory
extern "C" void c07_bump()
{
    uintptr_t lower = sym_u64("lower"), upper = sym_u64("upper");
    __sym_assume(lower >= (1ul << 24) && lower < upper && upper < (1ul << 48) && upper - lower <= 4096);
    rg::memory::BumpAllocator a(lower, upper);
    __sym_assert(a.empty() && !a.full(), "a new chunk is empty");
    Block b[NB];
    size_t n[NB], total = 0;
    unsigned ok = 0;
    for(unsigned i = 0; i < NB; ++i)
    {
        n[i] = sym_u64("n");
        __sym_assume(n[i] > 0 && n[i] <= 4096);
        total += n[i];
        b[i] = a.allocate(n[i]);
        if(b[i])
        {
            ++ok;
            __sym_assert(b[i].len >= n[i], "a block is as large as requested");
            __sym_assert(b[i].ptr >= lower && b[i].ptr + n[i] <= upper, "a block lies inside of its chunk");
            __sym_assert(a.owns(b[i]), "a chunk owns its blocks");
            for(unsigned j = 0; j < i; ++j)
                if(b[j])
                    __sym_assert(b[i].ptr + n[i] <= b[j].ptr || b[j].ptr + n[j] <= b[i].ptr, "blocks are disjoint");
        }
        else
            __sym_assert(total > upper - lower, "a request that fits is not refused");
    }
    Block other{sym_u64("other"), 1};
    __sym_assert(a.owns(other) == (other.ptr >= lower && other.ptr < upper), "a chunk owns exactly what is inside of it");
    __sym_assert(a.empty() == (ok == 0), "a chunk is in use while it has blocks");
    for(unsigned i = 0; i < NB; ++i)
        if(b[i])
        {
            --ok;
            uint16_t before = a.deallocate(b[i]);
            __sym_assert(before == ok + 1, "the number of blocks");
            __sym_assert(a.empty() == (ok == 0), "a chunk is empty when all its blocks were given back");
        }
    __sym_cover(b[0] && b[NB - 1], "all");
    __sym_cover(!b[0] && !b[1], "refused");
}
