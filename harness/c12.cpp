// C12, C14: sibling tasks with arbitrary accesses on several workers, all orders of worker steps
#include "coarse.h"
#ifndef NT
#    define NT 3
#endif
#ifndef NR
#    define NR 1
#endif
#ifndef NW
#    define NW 2
#endif
#ifndef USES // which task uses which resource (bit task * NR + resource)
#    define USES ((1u << (NT * NR)) - 1)
#endif
#ifndef TWICE // which task declares a second access to resource 0
#    define TWICE 0
#endif
using rg::access::IOAccess;
static unsigned mode[NT][NR + 1];
static unsigned started[NT], finished[NT];
static bool uses(unsigned i, unsigned r)
{
    return r == NR ? (TWICE >> i) & 1 : (USES >> (i * NR + r)) & 1;
}
static bool modes_conflict(unsigned a, unsigned b)
{
    if(a == IOAccess::write || b == IOAccess::write)
        return true;
    return a != b;
}
static bool conflict(unsigned i, unsigned j)
{
    bool c = false;
    for(unsigned r = 0; r <= NR; ++r)
        for(unsigned q = 0; q <= NR; ++q)
            if(r % NR == q % NR && uses(i, r) && uses(j, q))
                c |= modes_conflict(mode[i][r], mode[j][q]);
    return c;
}
static void body(unsigned i)
{
    started[i]++;
    __sym_assert(started[i] == 1, "a task is executed at most once");
#ifdef ORDER
    for(unsigned j = 0; j < i; ++j)
        __sym_assert(!conflict(i, j) || finished[j] == 1, "an earlier conflicting task has finished before a task starts");
    for(unsigned j = i + 1; j < NT; ++j)
        __sym_assert(!conflict(i, j) || started[j] == 0, "a later conflicting task has not started");
#endif
    rt_step();
    finished[i]++;
}
static rg::Resource<IOAccess>* res[NR];
static void program(void*)
{
    __sym_atomic_begin();
    for(unsigned i = 0; i < NT; ++i)
    {
        auto b = rg::emplace_task([i] { body(i); });
        for(unsigned r = 0; r <= NR; ++r)
            if(uses(i, r))
                b.add_resource(res[r % NR]->make_access(IOAccess((IOAccess::Mode) mode[i][r])));
        b.submit();
        rt_step();
    }
    rt_coarse_wait_all();
    __sym_atomic_end();
}
extern "C" void c12_tasks()
{
    for(unsigned i = 0; i < NT; ++i)
        for(unsigned r = 0; r <= NR; ++r)
            if(uses(i, r))
                mode[i][r] = __sym_var("mode", 2);
    rg::init(NW);
    for(unsigned r = 0; r < NR; ++r)
        res[r] = new rg::Resource<IOAccess>();
    __sym_thread(program, nullptr);
    for(unsigned long w = 0; w < NW; ++w)
        __sym_thread(rt_coarse_worker, (void*) w);
    __sym_join();
    for(unsigned i = 0; i < NT; ++i)
        __sym_assert(finished[i] == 1, "every task is executed");
    __sym_cover(true, "end");
}
