// C12, C14, C15, C20: the real worker threads and the main thread (their loops, sleeping and waking, stealing, barrier and
// finalize) with larger programs than c15.cpp: a thread runs until it falls asleep, submits a task, or starts or ends the body of one.
#include "sym.h"
static void rt_join_wait();
#define RT_JOIN_WAIT rt_join_wait()
#include "coarse.h"
#include <redGrapes/task/future.hpp>
#ifndef NT
#    define NT 3
#endif
#ifndef NR
#    define NR 1
#endif
#ifndef NW
#    define NW 2
#endif
#ifndef USES // which task uses which resource (bit task * NR + resource)
#    define USES ((1u << (NT * NR)) - 1)
#endif
using rg::access::IOAccess;
static void rt_join_wait()
{
    rt_step();
}
static unsigned mode[NT][NR], started[NT], finished[NT], live, n_events;
static bool uses(unsigned i, unsigned r)
{
    return (USES >> (i * NR + r)) & 1;
}
static bool modes_conflict(unsigned a, unsigned b)
{
    if(a == IOAccess::write || b == IOAccess::write)
        return true;
    return a != b;
}
static bool conflict(unsigned i, unsigned j)
{
    bool c = false;
    for(unsigned r = 0; r < NR; ++r)
        if(uses(i, r) && uses(j, r))
            c |= modes_conflict(mode[i][r], mode[j][r]);
    return c;
}
struct Fun
{
    Fun()
    {
        ++live;
    }
    Fun(Fun const&)
    {
        ++live;
    }
    Fun(Fun&&)
    {
        ++live;
    }
    ~Fun()
    {
        --live;
    }
};
#ifndef PARENT // which task is the parent of task i (4 bits each, 15: none); earlier ones only
#    define PARENT 0xffffffff
#endif
#ifndef WAITS // which task waits for an event which task j reaches at its end (4 bits each, 15: none)
#    define WAITS 0xffffffff
#endif
static unsigned parent(unsigned i)
{
    return (PARENT >> (4 * i)) & 15;
}
static unsigned waits(unsigned i)
{
    return (WAITS >> (4 * i)) & 15;
}
static rg::Resource<IOAccess>* res[NR];
static std::optional<rg::scheduler::EventPtr> ev[NT];
static void submit(unsigned i);
static void check_order(unsigned i)
{
    for(unsigned j = 0; j < NT; ++j)
        if(j != i && parent(j) == parent(i))
        {
            if(j < i)
                __sym_assert(!conflict(i, j) || finished[j] == 1, "an earlier conflicting task has finished before a task starts");
            else
                __sym_assert(!conflict(i, j) || started[j] == 0, "a later conflicting task has not started");
        }
}
static bool tree_done(unsigned i)
{
    bool d = finished[i] == 1;
    for(unsigned j = i + 1; j < NT; ++j)
        if(parent(j) == i)
            d &= tree_done(j);
    return d;
}
static void body(unsigned i)
{
    rt_step();
    started[i]++;
    __sym_assert(started[i] == 1, "a task is executed once");
    check_order(i);
    for(unsigned j = 0; j < i; ++j)
        if(parent(j) == parent(i))
            __sym_assert(!conflict(i, j) || tree_done(j), "the sub-tasks of an earlier conflicting task have finished before a task starts");
    for(unsigned j = i + 1; j < NT; ++j)
        if(parent(j) == i)
        {
            submit(j);
            rt_step();
        }
    if(waits(i) < NT)
    {
        rg::yield(*ev[i]);
        __sym_assert(n_events >> waits(i) & 1, "a waiting task is resumed only after the event was reached");
    }
    rt_step();
    finished[i]++;
    for(unsigned j = 0; j < NT; ++j)
        if(waits(j) == i)
        {
            n_events |= 1u << i;
            ev[j]->notify();
            rt_step();
        }
}
static void submit(unsigned i)
{
    auto b = rg::emplace_task([f = Fun(), i] { body(i); });
    for(unsigned r = 0; r < NR; ++r)
        if(uses(i, r))
            b.add_resource(res[r]->make_access(IOAccess((IOAccess::Mode) mode[i][r])));
    if(waits(i) < NT)
        b.enable_stack_switching();
    b.submit();
}
static void worker(void* p)
{
    __sym_atomic_begin();
    rt_run_thread(p);
    __sym_atomic_end();
}
static void check_all()
{
    bool all = true;
    for(unsigned i = 0; i < NT; ++i)
        all &= finished[i] == 1;
    __sym_assert(all, "barrier() returns after all tasks were executed");
    __sym_assert(live == 0, "barrier() returns after all tasks were destroyed");
}
static void program(void*)
{
    __sym_atomic_begin();
    rg::SingletonContext::get().idle = [] { rg::SingletonContext::get().scheduler->idle(); };
    for(unsigned i = 0; i < NT; ++i)
        if(parent(i) == 15)
        {
            submit(i);
            rt_step();
        }
#ifdef BARRIER
    rg::barrier();
    check_all();
    rt_step();
#endif
    rg::finalize();
    check_all();
    for(unsigned i = 0; i < rt_n_threads; ++i)
        __sym_assert(rt_thread_done[i].load(), "after finalize() the workers have stopped");
    __sym_atomic_end();
}
extern "C" void c20c_program()
{
    for(unsigned i = 0; i < NT; ++i)
        for(unsigned r = 0; r < NR; ++r)
            if(uses(i, r))
                mode[i][r] = __sym_var("mode", 2);
    for(unsigned i = 0; i < NT; ++i) // a sub-task has no accesses which its parent does not have
        for(unsigned r = 0; r < NR; ++r)
            if(parent(i) < NT && uses(i, r))
            {
                unsigned p = parent(i);
                __sym_assume(uses(p, r) && (mode[p][r] == IOAccess::write || mode[p][r] == mode[i][r]));
            }
    rg::init(NW);
    for(unsigned i = 0; i < NW; ++i)
        rg::SingletonContext::get().worker_pool->get_worker(i).cv.timeout = 0;
    for(unsigned r = 0; r < NR; ++r)
        res[r] = new rg::Resource<IOAccess>();
    for(unsigned i = 0; i < NT; ++i)
        if(waits(i) < NT)
            ev[i] = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    for(unsigned long i = 0; i < rt_n_threads; ++i)
        __sym_thread(worker, (void*) i);
    __sym_thread(program, nullptr);
    __sym_join();
    __sym_assert(tree_done(0), "every task is executed");
    __sym_cover(true, "end");
}
