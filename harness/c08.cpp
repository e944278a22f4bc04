// C08: an arena used by several threads at the same time
#define AR_LIMIT 12
#include "arena.h"
using rg::memory::Block;
#ifndef NSZ
#    define NSZ 3
#endif
static Arena* a;
static constexpr unsigned MAXB = 8;
static Block blk[MAXB];
static bool live[MAXB];
static size_t sz[MAXB];
// chunks hold two blocks of this size
static constexpr size_t HALF = AR_USABLE / 2 >= 128 ? 128 : 64;
static void check_live()
{
    __sym_ghost_begin();
    for(unsigned i = 0; i < MAXB; ++i)
        if(live[i])
            ar_check_block(blk[i], sz[i]);
    __sym_ghost_end();
}
static void alloc(unsigned i, size_t n)
{
    Block b = a->allocate(n);
    __sym_ghost_begin();
    __sym_assert(b, "a request that fits into a chunk is not refused");
    for(unsigned j = 0; j < MAXB; ++j)
        if(live[j])
            ar_check_disjoint(b, blk[j]);
    blk[i] = b, sz[i] = n, live[i] = true;
    __sym_ghost_end();
    check_live();
}
static void dealloc(unsigned i)
{
    check_live();
    __sym_ghost_begin();
    live[i] = false;
    __sym_ghost_end();
    a->deallocate(blk[i]);
    check_live();
}
static void final_check(bool unused_allowed)
{
    check_live();
    for(unsigned i = 0; i < MAXB; ++i)
        if(live[i])
            dealloc(i);
    // a further chunk: everything before it is exhausted
    size_t big = 1;
    while(big * 2 <= AR_USABLE)
        big *= 2;
    Block b = a->allocate(big), b2 = a->allocate(big), b3 = a->allocate(big);
    a->deallocate(b), a->deallocate(b2);
    __sym_assert(b && b2 && b3, "large blocks are allocated");
    unsigned owned = 0;
    for(unsigned i = 0; i < ar_n; ++i)
        owned += !ar_back[i];
    if(!unused_allowed)
        __sym_assert(owned <= 1, "exhausted chunks without live blocks are given back");
    __sym_cover(true, "end");
}
// any size class of blocks of which at least one fits into a chunk
static size_t any_size()
{
    static constexpr size_t sizes[] = {65, 200, 33, 1};
    return sizes[__sym_concrete(sym_range("size", 2, NSZ))];
}
static size_t s1, s2;
static void t_alloc1(void*) { alloc(4, s1); }
static void t_alloc2(void*) { alloc(5, s2); }
static void t_allocfree(void*) { alloc(4, s1); dealloc(4); }
static void t_free(void* p) { dealloc((unsigned long) p); }
static void t_alloc_two(void*) { alloc(4, s1); alloc(6, s2); }
// blocks of a quarter chunk; n0 are allocated before
static void start(unsigned n0)
{
    a = new Arena(ChunkSource{}, AR_CHUNK);
    s1 = any_size(), s2 = any_size();
    for(unsigned i = 0; i < n0; ++i)
        alloc(i, 65);
}
static unsigned which(unsigned n) // one of the first n blocks
{
    return __sym_concrete(sym_range("which", 2, n));
}
#ifndef N0
#    define N0 2
#endif
// N0 blocks of 128 bytes exist; AR_USABLE is 440: three of them fit into a chunk
static void two_frees()
{
    unsigned a = which(N0), b = which(N0);
    __sym_assume(a < b);
    __sym_thread(t_free, (void*) (unsigned long) a);
    __sym_thread(t_free, (void*) (unsigned long) b);
}
extern "C" void c08_alloc_alloc() { start(N0); __sym_thread(t_alloc1, 0); __sym_thread(t_alloc2, 0); __sym_join(); final_check(true); }
extern "C" void c08_alloc_free() { start(N0); __sym_thread(t_alloc1, 0); __sym_thread(t_free, (void*) (unsigned long) which(N0)); __sym_join(); final_check(false); }
extern "C" void c08_alloc2_free() { start(N0); __sym_thread(t_alloc_two, 0); __sym_thread(t_free, (void*) (unsigned long) which(N0)); __sym_join(); final_check(false); }
extern "C" void c08_free_free() { start(N0); two_frees(); __sym_join(); final_check(false); }
extern "C" void c08_allocfree_allocfree() { start(N0); __sym_thread(t_allocfree, 0); __sym_thread(t_alloc2, (void*) (unsigned long) which(N0)); __sym_join(); final_check(true); }
extern "C" void c08_allocfree_free() { start(N0); __sym_thread(t_allocfree, 0); __sym_thread(t_free, (void*) (unsigned long) which(N0)); __sym_join(); final_check(false); }
extern "C" void c08_alloc_free_free() { start(N0); __sym_thread(t_alloc1, 0); two_frees(); __sym_join(); final_check(false); }
extern "C" void c08_alloc_alloc_free() { start(N0); __sym_thread(t_alloc1, 0); __sym_thread(t_alloc2, 0); __sym_thread(t_free, (void*) (unsigned long) which(N0)); __sym_join(); final_check(true); }

// the last two blocks of a chunk which is not the newest one; at the end each such chunk was given back
static void old_chunk()
{
    start(2);
    alloc(2, 200);
    __sym_assert(ar_n == 2, "the third block is in a new chunk");
}
extern "C" void c08_free_free_old() { old_chunk(); two_frees(); __sym_join(); final_check(false); }
extern "C" void c08_free_free_alloc_old() { old_chunk(); two_frees(); __sym_thread(t_alloc1, 0); __sym_join(); final_check(false); }
extern "C" void c08_free_all_old() // two old chunks with one block each
{
    start(0);
    alloc(0, 200), alloc(1, 200), alloc(2, 200);
    two_frees();
    __sym_join();
    final_check(false);
}
