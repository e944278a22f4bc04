// Interface between the harnesses and the symbolic executor (see engine/run.cpp). In a native replay the same
// functions read the recorded values and schedule (see engine/native_rt.cpp).
#pragma once
#include <cstdint>
extern "C"
{
    uint64_t __sym_var(char const* name, unsigned bits); // an arbitrary value of `bits` bits
    void __sym_assume(bool c);
    void __sym_assert(bool c, char const* msg);
    void __sym_cover(bool c, char const* label); // the check is only valid if some execution satisfies c here
    int __sym_thread(void (*fn)(void*), void* arg);
    void __sym_join(); // run all started threads, every interleaving
    int __sym_tid();
    void __sym_atomic_begin();
    void __sym_atomic_end();
    void __sym_ghost_begin(); // bookkeeping of the harness: no scheduling points
    void __sym_ghost_end();
    void __sym_sched_point();
    void __sym_fail(char const* msg);
    uint64_t __sym_concrete(uint64_t v); // split the execution over the feasible values of v
    int __sym_is_alive(void const* p);
    void* __sym_zalloc(uint64_t n);
    void __sym_print(char const* label, uint64_t v);
}
inline bool sym_bool(char const* n)
{
    return __sym_var(n, 1) != 0;
}
inline uint64_t sym_u64(char const* n)
{
    return __sym_var(n, 64);
}
inline unsigned sym_range(char const* n, unsigned bits, unsigned bound) // 0 .. bound-1
{
    uint64_t v = __sym_var(n, bits);
    __sym_assume(v < bound);
    return (unsigned) v;
}
