// C06: the worker bitmap, arbitrary contents and filters
#include "sym.h"
#include <redGrapes/redGrapes.hpp>
namespace rg = redGrapes;
#ifndef SZ
#    define SZ 130
#endif
#ifndef NREJ
#    define NREJ 2
#endif
static constexpr unsigned W = (SZ + 63) / 64;
static uint64_t before[W];
static rg::AtomicBitfield* field()
{
    auto* f = new rg::AtomicBitfield(SZ);
    __sym_assert(f->state.size() == W, "the bitmap has a bit for every worker");
    for(unsigned i = 0; i < W; ++i)
    {
        before[i] = sym_u64("word");
        f->state[i] = before[i]; // also the bits beyond the last worker are arbitrary
    }
    return f;
}
static bool bit(unsigned i)
{
    return (before[i / 64] >> (i % 64)) & 1;
}
extern "C" void c06_set()
{
    auto* f = field();
    unsigned idx = sym_range("idx", 32, SZ), other = sym_range("other", 32, SZ);
    bool v = sym_bool("v");
    bool old = f->set(idx, v);
    __sym_assert(old == bit(idx), "set returns the previous value");
    __sym_assert(f->get(idx) == v, "set changes the bit");
    __sym_assert(other == idx || f->get(other) == bit(other), "set changes no other bit");
    __sym_assert(f->size() == SZ, "size");
    __sym_cover(old && !v, "cleared");
}
// the worker pool's view: states of workers
extern "C" void c06_init()
{
    rg::AtomicBitfield f(SZ);
    unsigned idx = sym_range("idx", 32, SZ);
    __sym_assert(!f.get(idx), "initially all bits are clear");
}
static void search(bool accept_all, bool through_pool)
{
    auto* f = field();
    unsigned start_in_word = sym_range("start", 32, 64), w = sym_range("witness", 32, SZ);
    unsigned start_word = W == 1 ? 0 : __sym_concrete(sym_range("start_word", 3, W));
    unsigned start = start_word * 64 + start_in_word;
    __sym_assume(start < SZ);
    bool want = sym_bool("want"), excl = sym_bool("exclude");
    // the filter rejects up to NREJ arbitrary workers
    unsigned rej0 = accept_all ? SZ : sym_range("reject", 32, SZ + 1);
    unsigned rej1 = accept_all || NREJ < 2 ? SZ : sym_range("reject", 32, SZ + 1);
    unsigned calls = 0;
    auto filter = [&](unsigned idx) -> std::optional<unsigned>
    {
        calls++;
        __sym_assert(calls <= 2 * SZ + 2, "the search ends: no worker is tried again and again");
        __sym_assert(idx < SZ, "the filter is called only for existing workers");
        __sym_assert(bit(idx) == want, "the filter is called only for workers in the wanted state");
        __sym_assert(!(excl && idx == start), "the start position is left out when excluded");
        if(idx == rej0 || idx == rej1)
            return std::nullopt;
        return idx;
    };
    std::optional<unsigned> x;
    if(through_pool)
    {
        // only the bitmap of the pool is used
        static char mem[sizeof(rg::dispatch::thread::WorkerPool)];
        auto* pool = (rg::dispatch::thread::WorkerPool*) mem;
        new(&pool->worker_state) rg::AtomicBitfield(std::move(*f));
        x = pool->template probe_worker_by_state<unsigned>(std::move(filter), want, start, excl);
    }
    else
        x = f->template probe_by_value<unsigned>(filter, want, start, excl);
    bool w_ok = bit(w) == want && !(excl && w == start) && w != rej0 && w != rej1;
    if(x)
        __sym_assert(
            *x < SZ && bit(*x) == want && *x != rej0 && *x != rej1 && !(excl && *x == start),
            "the result is a worker that passed the filter");
    else
        __sym_assert(!w_ok, "a worker is found whenever one passes the filter");
    __sym_cover(!x, "nothing found");
    __sym_cover(x && *x < start, "found before the start");
    __sym_cover(x && *x == start, "found the start");
    __sym_cover(x && *x > start, "found after the start");
    if(!accept_all)
        __sym_cover(x && calls == NREJ + 1, "last candidate");
}
extern "C" void c06_find()
{
    search(true, false);
}
extern "C" void c06_find_filter()
{
    search(false, false);
}
extern "C" void c06_find_pool()
{
    search(true, true);
}
// a filter that accepts an arbitrary subset
extern "C" void c06_find_subset()
{
    auto* f = field();
    unsigned start = sym_range("start", 32, SZ), w = sym_range("witness", 32, SZ);
    bool want = sym_bool("want"), excl = sym_bool("exclude");
    uint64_t accept[W];
    for(unsigned i = 0; i < W; ++i)
        accept[i] = sym_u64("accept");
    auto x = f->template probe_by_value<unsigned>(
        [&](unsigned idx) -> std::optional<unsigned>
        {
            __sym_assert(idx < SZ, "the filter is called only for existing workers");
            __sym_assert(bit(idx) == want, "the filter is called only for workers in the wanted state");
            __sym_assert(!(excl && idx == start), "the start position is left out when excluded");
            if((accept[idx / 64] >> (idx % 64)) & 1)
                return idx;
            return std::nullopt;
        },
        want,
        start,
        excl);
    if(!x)
        __sym_assert(
            !(bit(w) == want && !(excl && w == start) && ((accept[w / 64] >> (w % 64)) & 1)),
            "a worker is found whenever one passes the filter");
    else
        __sym_assert((accept[*x / 64] >> (*x % 64)) & 1, "the result is a worker that passed the filter");
    __sym_cover(!x, "nothing found");
    __sym_cover(x.has_value(), "found");
}
// without the part inside one word: every start position is tried
extern "C" void c06_first_one()
{
    uint64_t v = sym_u64("v");
    __sym_assume(v != 0);
    unsigned k = rg::AtomicBitfield::first_one_idx(v);
    __sym_assert(k < 64 && ((v >> k) & 1), "the found bit is set");
    __sym_assert((v & ((uint64_t(1) << k) - 1)) == 0, "the found bit is the first one");
}
