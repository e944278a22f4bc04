// Whole-runtime scenarios explored at the granularity of single memory accesses: a few short operations of workers run
// in parallel, on a state prepared sequentially; afterwards everything left is executed sequentially.
#pragma once
#include "rt.h"
static void rt_become_worker(unsigned id)
{
    auto& c = rg::SingletonContext::get();
    auto& w = c.worker_pool->get_worker(id);
    c.current_worker = w.shared_from_this();
    c.current_waker_id = w.get_waker_id();
    c.current_arena = w.get_worker_id();
}
static void rt_leave_worker()
{
    rg::SingletonContext::get().current_worker.reset();
}
static rg::dispatch::thread::Worker& rt_worker(unsigned id)
{
    return rg::SingletonContext::get().worker_pool->get_worker(id);
}
// which workers are idle at the start: any of them
static void rt_any_worker_state(unsigned n_workers)
{
    for(unsigned id = 0; id < n_workers; ++id)
        rg::SingletonContext::get().worker_pool->set_worker_state(
            id,
            sym_bool("idle") ? rg::dispatch::thread::WorkerState::AVAILABLE : rg::dispatch::thread::WorkerState::BUSY);
}
static void rt_exec(unsigned id, rg::Task* t)
{
    auto& c = rg::SingletonContext::get();
    c.worker_pool->set_worker_state(id, rg::dispatch::thread::WorkerState::BUSY);
    c.execute_task(*t);
}
// all workers take turns until nobody finds work
static void rt_drain(unsigned n_workers)
{
    for(bool any = true; any;)
    {
        any = false;
        for(unsigned id = 0; id < n_workers; ++id)
        {
            rt_become_worker(id);
            while(rg::Task* t = rt_worker(id).gather_task())
            {
                any = true;
                rt_exec(id, t);
            }
        }
    }
    rt_leave_worker();
}
// initialises the next submitted task, as its worker would; it must be ready
static rg::Task* rt_init_ready(unsigned id)
{
    rg::Task* t = nullptr;
    rt_become_worker(id);
    __sym_assert(rt_worker(id).init_dependencies(t, true), "a submitted task waits for its initialisation");
    __sym_assert(t != nullptr, "a task which waits for nothing is ready");
    rt_leave_worker();
    return t;
}
