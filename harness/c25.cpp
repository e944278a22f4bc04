// C25: scope depth and backtrace
#include "fine.h"
using rg::access::IOAccess;
#ifndef MAXD
#    define MAXD 3
#endif
#ifndef WIDTH
#    define WIDTH 2
#endif
static constexpr unsigned MAXN = 16;
static unsigned started[MAXN], finished[MAXN], n_nodes;
static rg::Task* task_of[MAXN];
static unsigned parent[MAXN], depth[MAXN]; // node 0: outside of tasks
static bool waits[MAXN];
static std::optional<rg::scheduler::EventPtr> ev;
static rg::Resource<IOAccess>* keep[MAXN];

static void outside()
{
    __sym_assert(rg::SingletonContext::get().current_task == nullptr, "no task is running");
    __sym_assert(rg::scope_depth() == 0, "outside of tasks the depth is zero");
    __sym_assert(rg::backtrace().empty(), "outside of tasks the backtrace is empty");
}
static void inside(unsigned i)
{
    __sym_assert(rg::scope_depth() == depth[i], "the depth in a task is one more than where it was created");
    auto bt = rg::backtrace();
    __sym_assert(bt.size() == depth[i], "the backtrace lists the task and its ancestors");
    unsigned k = i;
    for(rg::Task& t : bt)
    {
        __sym_assert(&t == task_of[k], "the backtrace lists the task and its ancestors in order");
        k = parent[k];
    }
    rg::Resource<IOAccess> r;
    __sym_assert(r.base->scope_level == depth[i], "resources carry the depth of the task which creates them");
}
static void create(unsigned from);
static void body(unsigned i)
{
    started[i]++;
    inside(i);
    bool before = depth[i] < MAXD && __sym_concrete(sym_bool("children before"));
    if(before)
        create(i);
    inside(i);
    if(waits[i])
    {
        rg::yield(*ev);
        inside(i);
    }
    if(!before && depth[i] < MAXD && __sym_concrete(sym_bool("children")))
        create(i);
    inside(i);
    finished[i]++;
}
static unsigned new_node(unsigned from)
{
    unsigned i = ++n_nodes;
    parent[i] = from;
    depth[i] = depth[from] + 1;
    return i;
}
static void create(unsigned from)
{
    for(unsigned k = 0; k < (from ? 1 : WIDTH); ++k)
    {
        unsigned i = new_node(from);
        bool own_stack = __sym_concrete(sym_bool("stack"));
        waits[i] = own_stack && __sym_concrete(sym_bool("waits"));
        auto b = rg::emplace_task([i] { body(i); });
        task_of[i] = b.task;
        if(own_stack)
            b.enable_stack_switching();
        b.submit();
    }
}
static void drain()
{
    for(bool any = true; any;)
    {
        any = false;
        for(unsigned w = 0; w < 2; ++w)
        {
            rt_become_worker(w);
            outside();
            while(rg::Task* t = rt_worker(w).gather_task())
            {
                any = true;
                outside();
                rt_exec(w, t);
                outside();
            }
        }
    }
    rt_leave_worker();
}
extern "C" void c25_nesting()
{
    __sym_assert(rg::scope_depth() == 0, "before the start the depth is zero");
    rg::init(2);
    outside();
    rg::Resource<IOAccess> r;
    __sym_assert(r.base->scope_level == 0, "resources carry the depth of the task which creates them");
    ev = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    create(0);
    outside();
    drain();
    outside();
    (*ev)->is_reached();
    ev->notify();
    drain();
    for(unsigned i = 1; i <= n_nodes; ++i)
        __sym_assert(started[i] == 1 && finished[i] == 1, "every task is executed");
    ev.reset();
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(n_nodes == WIDTH * MAXD, "deepest nesting everywhere");
    __sym_cover(true, "end");
}
// a task waits on one thread and continues on another one, which executes other tasks before and after
static void t_exec(void* p)
{
    rt_become_worker(0);
    outside();
    rt_exec(0, (rg::Task*) p);
    outside();
    rt_leave_worker();
}
static void t_other(void*)
{
    rt_become_worker(1);
    ev->notify();
    outside();
    while(rg::Task* t = rt_worker(1).gather_task())
    {
        rt_exec(1, t);
        outside();
    }
    rt_leave_worker();
}
extern "C" void c25_migrate()
{
    rg::init(2);
    ev = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    for(unsigned k = 0; k < 2; ++k)
    {
        unsigned i = new_node(0);
        waits[i] = k == 0;
        auto b = rg::emplace_task(
            [i]
            {
                started[i]++;
                __sym_ghost_begin();
                inside(i);
                __sym_ghost_end();
                if(waits[i])
                    rg::yield(*ev);
                __sym_ghost_begin();
                inside(i);
                __sym_ghost_end();
                finished[i]++;
            });
        task_of[i] = b.task;
        if(k == 0)
            b.enable_stack_switching();
        b.submit();
    }
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec, t);
    __sym_thread(t_other, 0);
    __sym_join();
    rt_drain(2);
    ev.reset();
    __sym_assert(started[1] == 1 && finished[1] == 1 && finished[2] == 1, "every task is executed");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
