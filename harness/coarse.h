// Whole-runtime programs explored at the granularity of scheduler steps: between two steps (submission of a task,
// one gather_task()/initialisation of a worker, start and end of a task body) any other thread may run.
#pragma once
#include "rt.h"

static unsigned rt_stop = 0;

static inline void rt_step() // a point where other threads may run
{
    __sym_atomic_end();
    __sym_sched_point();
    __sym_atomic_begin();
}
static void rt_become_worker(unsigned id)
{
    auto& c = rg::SingletonContext::get();
    auto& w = c.worker_pool->get_worker(id);
    c.current_worker = w.shared_from_this();
    c.current_waker_id = w.get_waker_id();
    c.current_arena = w.get_worker_id();
}
static void rt_coarse_worker(void* p)
{
    __sym_atomic_begin();
    unsigned id = (unsigned long) p;
    rt_become_worker(id);
    auto& c = rg::SingletonContext::get();
    auto& w = c.worker_pool->get_worker(id);
    for(;;)
    {
        rt_step();
        if(rt_stop)
            break;
        if(rg::Task* t = w.gather_task())
        {
            c.worker_pool->set_worker_state(id, rg::dispatch::thread::WorkerState::BUSY);
            c.execute_task(*t);
        }
    }
    c.current_worker.reset();
    __sym_atomic_end();
}
static void rt_coarse_wait_all()
{
    while(!rg::SingletonContext::get().root_space->empty())
        rt_step();
    rt_stop = 1;
}
