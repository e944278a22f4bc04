// C15 and C20 (-DC20): the real worker threads (their loop, sleeping and waking) and the main thread, all interleavings of single
// memory accesses: barrier() and finalize() return after everything was executed and destroyed, and they do return.
#include "fine.h"
#include <redGrapes/task/future.hpp>
using rg::access::IOAccess;
#ifndef NT
#    define NT 1
#endif
#ifndef NW
#    define NW 1
#endif
static unsigned executed[NT + 2], live;
struct Fun
{
    Fun()
    {
        count(1);
    }
    Fun(Fun const&)
    {
        count(1);
    }
    Fun(Fun&&)
    {
        count(1);
    }
    ~Fun()
    {
        count(-1);
    }
    static void count(int d)
    {
        __sym_ghost_begin();
        live += d;
        __sym_ghost_end();
    }
};
static void ran(unsigned i)
{
    __sym_ghost_begin();
    ++executed[i];
    __sym_assert(executed[i] == 1, "a task is executed once");
    __sym_ghost_end();
}
static void submit(unsigned i)
{
    rg::emplace_task([f = Fun(), i] { ran(i); }).submit();
}
static void check_all(unsigned n, char const* executed_msg, char const* destroyed_msg)
{
    __sym_ghost_begin();
    bool all = true;
    for(unsigned i = 0; i < NT + 2; ++i)
        all &= executed[i] == (i < n);
#ifndef C20
    __sym_assert(all, executed_msg);
    __sym_assert(live == 0, destroyed_msg);
#endif
    __sym_ghost_end();
}
static void stopped()
{
    for(unsigned i = 0; i < rt_n_threads; ++i)
#ifndef C20
        __sym_assert(rt_thread_done[i].load(), "after finalize() the workers have stopped");
#else
        ;
#endif
}
static void main_thread()
{
    rg::SingletonContext::get().idle = [] { rg::SingletonContext::get().scheduler->idle(); }; // as in the thread which called init()
}
#ifndef MAXT
#    define MAXT 1
#endif
static unsigned n_tasks = NT;
static void start()
{
    rg::init(NW);
    for(unsigned i = 0; i < NW; ++i) // any spin time before falling asleep
        rt_worker(i).cv.timeout = sym_range("timeout", 2, MAXT + 1);
    n_tasks = 1 + sym_range("tasks", 2, NT);
    for(unsigned long i = 0; i < rt_n_threads; ++i)
        __sym_thread(rt_run_thread, (void*) i);
}
static void t_barrier(void*) // tasks were submitted before the workers start
{
    main_thread();
    rg::barrier();
    check_all(n_tasks, "barrier() returns after all tasks were executed", "barrier() returns after all tasks were destroyed");
    rg::finalize();
    stopped();
}
static void t_finalize(void*)
{
    main_thread();
    rg::finalize();
    check_all(n_tasks, "finalize() returns after all tasks were executed", "finalize() returns after all tasks were destroyed");
    stopped();
}
static void t_submit(void*) // tasks are submitted to running workers
{
    main_thread();
    for(unsigned i = 0; i < NT; ++i)
        if(i < n_tasks)
            submit(i);
    rg::finalize();
    check_all(n_tasks, "finalize() returns after all tasks were executed", "finalize() returns after all tasks were destroyed");
    stopped();
}
static void go(void (*f)(void*), unsigned n = 0)
{
    if(n == 0)
        n = n_tasks;
    __sym_thread(f, 0);
    __sym_join();
    check_all(n, "every task is executed", "every task is destroyed");
    for(unsigned i = 0; i < NT + 2; ++i)
        __sym_assert(executed[i] == (i < n), "every task is executed by a worker");
    __sym_cover(true, "end");
}
extern "C" void c15_barrier()
{
    start();
    for(unsigned i = 0; i < NT; ++i)
        if(i < n_tasks)
            submit(i);
    go(t_barrier);
}
extern "C" void c15_finalize()
{
    start();
    for(unsigned i = 0; i < NT; ++i)
        if(i < n_tasks)
            submit(i);
    go(t_finalize);
}
extern "C" void c15_submit()
{
    start();
    go(t_submit);
}
// two conflicting tasks: the second one is activated when the first one finishes
static rg::Resource<IOAccess>* res;
static void submit_conflicting(unsigned i)
{
    auto mode = IOAccess::Mode(i == 0 ? IOAccess::write : __sym_var("mode", 2));
    rg::emplace_task([f = Fun(), i] { ran(i); }).add_resource(res->make_access(IOAccess(mode))).submit();
}
static void t_conflict(void*)
{
    main_thread();
    submit_conflicting(0);
    submit_conflicting(1);
    rg::barrier();
    check_all(2, "barrier() returns after all tasks were executed", "barrier() returns after all tasks were destroyed");
    rg::finalize();
    stopped();
}
extern "C" void c15_conflict()
{
    start();
    res = new rg::Resource<IOAccess>();
    go(t_conflict, 2);
}
// a task with a sub-task
static void t_child(void*)
{
    main_thread();
    rg::emplace_task(
        [f = Fun()]
        {
            rg::emplace_task([f = Fun()] { ran(1); }).submit();
            ran(0);
        })
        .submit();
    rg::barrier();
    check_all(2, "barrier() returns after all sub-tasks were executed", "barrier() returns after all sub-tasks were destroyed");
    rg::finalize();
    stopped();
}
extern "C" void c15_child()
{
    start();
    go(t_child, 2);
}
// a task which waits for an event that the main thread reaches
static std::optional<rg::scheduler::EventPtr> ev;
static void t_event(void*)
{
    main_thread();
    rg::emplace_task(
        [f = Fun()]
        {
            rg::yield(*ev);
            ran(0);
        })
        .enable_stack_switching()
        .submit();
    ev->notify();
    rg::barrier();
    check_all(1, "barrier() returns after all tasks were executed", "barrier() returns after all tasks were destroyed");
    rg::finalize();
    stopped();
}
extern "C" void c15_event()
{
    start();
    ev = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    go(t_event, 1);
}
// an event of a task which ends earlier
static bool made;
static void t_delayed(void*)
{
    main_thread();
    rg::emplace_task(
        [f = Fun()]
        {
            ev = *rg::create_event();
            made = true;
            __sym_sched_point();
            ran(0);
        })
        .submit();
    while(!*(bool volatile*) &made)
        ;
    __sym_ghost_begin();
    executed[1]++;
    __sym_ghost_end();
    ev->notify();
    rg::barrier();
    check_all(2, "barrier() returns after all events of tasks were reached", "barrier() returns after all tasks were destroyed");
    rg::finalize();
    stopped();
}
extern "C" void c15_delayed()
{
    start();
    go(t_delayed, 2);
}
// the main thread takes a result
static void t_future(void*)
{
    main_thread();
    {
        auto f = rg::emplace_task(
                     [f = Fun()]
                     {
                         ran(0);
                         return 7;
                     })
                     .submit();
        int v = f.get();
        __sym_assert(v == 7, "the result is delivered");
    }
    rg::barrier();
    check_all(1, "barrier() returns after all tasks were executed", "barrier() returns after all tasks were destroyed");
    rg::finalize();
    stopped();
}
extern "C" void c15_future()
{
    start();
    go(t_future, 1);
}
