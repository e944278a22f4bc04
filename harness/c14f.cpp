// C14: tasks are activated, taken and stolen by several workers at the same time, single memory accesses interleaved
#include "fine.h"
using rg::access::IOAccess;
static constexpr unsigned N = 4;
static unsigned ran[N], n_tasks;
static void body(unsigned i)
{
    __sym_ghost_begin();
    ran[i]++;
    __sym_assert(ran[i] == 1, "a task is executed at most once");
    __sym_ghost_end();
}
static rg::Task* create()
{
    unsigned i = n_tasks++;
    auto b = rg::emplace_task([i] { body(i); });
    rg::Task* t = b.task;
    b.submit();
    return t;
}
// a task which was initialised and is ready; it is in nobody's queue
static rg::Task* ready_task()
{
    unsigned i = n_tasks;
    create();
    return rt_init_ready(i % 2);
}
static void finish()
{
    __sym_join();
    rt_drain(2);
    for(unsigned i = 0; i < n_tasks; ++i)
        __sym_assert(ran[i] == 1, "every task is executed");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
static void t_gather(void* w)
{
    unsigned id = (unsigned long) w;
    rt_become_worker(id);
    if(rg::Task* t = rt_worker(id).gather_task())
        rt_exec(id, t);
    rt_leave_worker();
}
static void t_activate(void* t)
{
    rg::SingletonContext::get().scheduler->activate_task(*(rg::Task*) t);
}
static void t_exec0(void* t)
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) t);
    rt_leave_worker();
}
static void start(bool any_state)
{
    rg::init(2);
    if(any_state)
        rt_any_worker_state(2);
}
// worker 0 has a ready task; worker 1 looks for work while a task is activated by another thread
extern "C" void c14f_steal_activate()
{
    start(false);
    rg::Task* a = ready_task();
    rg::Task* b = ready_task();
    rt_worker(0).ready_queue.push(a);
    rt_any_worker_state(2);
    __sym_thread(t_gather, (void*) 1);
    __sym_thread(t_activate, b);
    finish();
}
// both workers have a ready task, and look for work at the same time
extern "C" void c14f_steal_each_other()
{
    start(false);
    rg::Task* a = ready_task();
    rg::Task* b = ready_task();
    rt_worker(0).ready_queue.push(a);
    if(__sym_concrete(sym_bool("where")))
        rt_worker(1).ready_queue.push(b);
    else
        rt_worker(0).ready_queue.push(b);
    rt_any_worker_state(2);
    __sym_thread(t_gather, (void*) 0);
    __sym_thread(t_gather, (void*) 1);
    finish();
}
// new tasks are taken from the worker they were given to, while that one takes them as well
extern "C" void c14f_new()
{
    start(false);
    create();
    create();
    create();
    rt_any_worker_state(2);
    __sym_thread(t_gather, (void*) 0);
    __sym_thread(t_gather, (void*) 1);
    finish();
}
// a new task is stolen while its predecessor finishes on the other worker
static rg::Resource<IOAccess>* res;
extern "C" void c14f_steal_follower()
{
    start(false);
    res = new rg::Resource<IOAccess>();
    for(unsigned k = 0; k < 3; ++k)
    {
        unsigned i = n_tasks++;
        auto b = rg::emplace_task([i] { body(i); });
        if(i != 1)
            b.add_resource(res->make_access(IOAccess::write));
        b.submit();
    }
    rg::Task* a = rt_init_ready(0);
    rg::Task* c = rt_init_ready(1);
    rt_any_worker_state(2);
    rt_worker(0).ready_queue.push(c);
    __sym_thread(t_exec0, a);
    __sym_thread(t_gather, (void*) 1);
    finish();
}
