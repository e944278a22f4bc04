// An arena on top of a recording chunk source.
#pragma once
#include "rt.h"
static constexpr unsigned AR_MAX = 12;
static uintptr_t ar_base[AR_MAX]; // chunks handed to the arena
static size_t ar_len[AR_MAX];
static bool ar_back[AR_MAX]; // given back
static unsigned ar_n = 0;
#ifndef AR_LIMIT
#    define AR_LIMIT 8
#endif
struct ChunkSource
{
    rg::memory::Block allocate(size_t n) const
    {
        __sym_ghost_begin();
        __sym_assert(ar_n < AR_LIMIT, "the arena keeps requesting chunks for a request it cannot satisfy");
        uintptr_t p = (uintptr_t) malloc(n + 64);
        p = (p + 63) & ~uintptr_t(63); // the real source (hwloc) returns whole pages
        ar_base[ar_n] = p;
        ar_len[ar_n] = n;
        ++ar_n;
        __sym_ghost_end();
        return rg::memory::Block{p, n};
    }
    void deallocate(rg::memory::Block b) const
    {
        __sym_ghost_begin();
        bool found = false;
        for(unsigned i = 0; i < ar_n; ++i)
            if(ar_base[i] == b.ptr)
            {
                found = true;
                __sym_assert(!ar_back[i], "a chunk is given back once");
                __sym_assert(ar_len[i] == b.len, "a chunk is given back with the size it was requested with");
                ar_back[i] = true;
            }
        __sym_assert(found, "only chunks of the arena are given back");
        __sym_ghost_end();
    }
};
using Arena = rg::memory::ChunkedBumpAlloc<ChunkSource>;
static constexpr size_t AR_ADMIN = rg::memory::AtomicList<rg::memory::BumpAllocator, ChunkSource>::get_controlblock_size()
    + sizeof(rg::memory::BumpAllocator);
#ifndef AR_CHUNK
#    define AR_CHUNK 1024
#endif
// data bytes of one chunk
static constexpr size_t AR_USABLE
    = AR_CHUNK - rg::memory::AtomicList<rg::memory::BumpAllocator, ChunkSource>::get_controlblock_size()
    - sizeof(rg::memory::BumpAllocator);

// the block lies in a chunk that is still owned by the arena, outside of its administrative data
static inline void ar_check_block(rg::memory::Block b, size_t n)
{
    __sym_ghost_begin();
    __sym_assert(b.len >= n, "a block is at least as large as requested");
    bool in = false;
    for(unsigned i = 0; i < ar_n; ++i)
    {
        size_t off = rg::memory::AtomicList<rg::memory::BumpAllocator, ChunkSource>::get_controlblock_size()
            + sizeof(rg::memory::BumpAllocator);
        uintptr_t lo = ar_base[i] + off, hi = ar_base[i] + ar_len[i];
        in |= !ar_back[i] && b.ptr >= lo && b.ptr <= hi && b.len <= hi - b.ptr;
    }
    __sym_assert(in, "a block lies inside a chunk the arena owns");
    __sym_ghost_end();
}
static inline void ar_check_disjoint(rg::memory::Block a, rg::memory::Block b)
{
    __sym_assert(a.ptr + a.len <= b.ptr || b.ptr + b.len <= a.ptr, "live blocks do not overlap");
}
static inline void ar_check_aligned(rg::memory::Block b, size_t n)
{
    // objects of n bytes need at most the alignment of the largest power of two dividing n
    size_t align = alignof(std::max_align_t);
    for(; align > 1; align /= 2)
        __sym_assert(n % align || b.ptr % align == 0, "a block is aligned for objects of its size");
}
