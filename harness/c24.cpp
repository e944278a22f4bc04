// C24: any number of workers on any number of processing units; blocks of the arenas are objects of their own and record
// the arena they came from
#include "fine.h"
#include <redGrapes/task/future.hpp>
using rg::access::IOAccess;
#ifndef MAXW
#    define MAXW 4
#endif
#ifndef NT
#    define NT 3
#endif
static unsigned executed[NT], by[NT], child;
static unsigned n;
extern "C" void c24_workers()
{
    n = __sym_concrete(sym_range("workers", 3, MAXW + 1));
    unsigned pus = __sym_concrete(sym_range("pus", 3, MAXW + 1));
    __sym_assume(n > 0 && pus > 0);
    n = __sym_concrete(n);
    hwloc_stub_n_pus = __sym_concrete(pus);
    rg::init(n);
    auto& c = rg::SingletonContext::get();
    __sym_assert(c.worker_pool->size() == n, "as many workers as requested");
    __sym_assert(rt_n_threads == n, "every worker has its thread");
    for(unsigned i = 0; i < n; ++i)
    {
        __sym_assert(rt_worker(i).get_worker_id() == i, "workers have unique ids");
        for(unsigned j = 0; j < i; ++j)
            __sym_assert(&rt_worker(i) != &rt_worker(j), "workers are different objects");
    }
    {
        rg::Resource<IOAccess> res;
        for(unsigned i = 0; i < NT; ++i)
            rg::emplace_task(
                [i]
                {
                    executed[i]++;
                    by[i] = rg::SingletonContext::get().current_worker->get_worker_id();
                    if(i == 0)
                        rg::emplace_task([] { child++; }).submit();
                })
                .add_resource(res.make_access(IOAccess::write))
                .submit();
        auto f = rg::emplace_task([] { return 5; }).submit();
        // any worker may be the first to look for work
        unsigned first = __sym_concrete(sym_range("first", 3, MAXW));
        __sym_assume(first < n);
        first = __sym_concrete(first);
        for(unsigned k = 0; k < n; ++k)
        {
            unsigned w = (first + k) % n;
            rt_become_worker(w);
            while(rg::Task* t = rt_worker(w).gather_task())
                rt_exec(w, t);
        }
        rt_drain(n);
        __sym_assert(f.is_ready() && f.get() == 5, "a result is delivered");
    }
    for(unsigned i = 0; i < NT; ++i)
        __sym_assert(executed[i] == 1, "every task is executed once");
    __sym_assert(child == 1, "every sub-task is executed once");
    __sym_assert(c.root_space->empty(), "every task has finished");
    __sym_cover(n > pus, "more workers than processing units");
    __sym_cover(n < pus, "fewer workers than processing units");
}
// every worker executes a task which it finds in its own queue, and tasks which it steals
extern "C" void c24_every_worker()
{
    n = __sym_concrete(sym_range("workers", 3, MAXW + 1));
    hwloc_stub_n_pus = __sym_concrete(1 + __sym_var("pus", 1));
    __sym_assume(n > 0);
    n = __sym_concrete(n);
    rg::init(n);
    for(unsigned i = 0; i < NT; ++i)
        rg::emplace_task([i] { executed[i]++; }).submit();
    for(unsigned i = 0; i < NT; ++i)
    {
        unsigned w = i % n;
        rt_become_worker(w);
        rg::Task* t = rt_worker(w).gather_task();
        __sym_assert(t != nullptr, "a task is given to each worker in turn");
        rt_exec(w, t);
        __sym_assert(executed[i] == 1, "a worker executes the tasks given to it");
    }
    rt_leave_worker();
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(n == MAXW, "end");
}
// starting and stopping the real workers
static void t_main(void*)
{
    rg::SingletonContext::get().idle = [] { rg::SingletonContext::get().scheduler->idle(); };
    rg::finalize();
    for(unsigned i = 0; i < rt_n_threads; ++i)
        __sym_assert(rt_thread_done[i].load(), "finalize() stops every worker");
}
extern "C" void c24_stop()
{
    n = __sym_concrete(1 + __sym_var("workers", 1));
    hwloc_stub_n_pus = 1;
    hwloc_stub_bind_fails = sym_bool("bind fails");
    rg::init(n);
    for(unsigned long i = 0; i < rt_n_threads; ++i)
        __sym_thread(rt_run_thread, (void*) i);
    __sym_thread(t_main, 0);
    __sym_join();
    __sym_cover(n == 2, "end");
}
