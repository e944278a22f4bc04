// C16, C15 at the level of single memory accesses: a sub-task is executed while its parent still runs
#include "fine.h"
using rg::access::IOAccess;
#ifndef NC // sub-tasks
#    define NC 1
#endif
static unsigned started[2 + NC], finished[2 + NC];
static std::atomic<unsigned> live;
static rg::Resource<IOAccess>* res;
static rg::Task* parent;
struct Fun
{
    unsigned magic = 0x600d;
    Fun()
    {
        ++live;
    }
    Fun(Fun const&)
    {
        ++live;
    }
    Fun(Fun&&)
    {
        ++live;
    }
    ~Fun()
    {
        magic = 0;
        --live;
    }
};
static void begin(unsigned i)
{
    __sym_ghost_begin();
    started[i]++;
    __sym_assert(started[i] == 1, "a task is executed at most once");
    if(i == 1)
        for(unsigned j = 0; j < 2 + NC; ++j)
            __sym_assert(j == 1 || finished[j] == 1, "the successor of a task starts after its sub-tasks");
    __sym_ghost_end();
}
static void end(unsigned i)
{
    __sym_ghost_begin();
    finished[i]++;
    __sym_ghost_end();
}
static void submit_child(unsigned i)
{
    auto b = rg::emplace_task([f = Fun(), i] { begin(i); end(i); });
#ifdef CHILD_USES
    b.add_resource(res->make_access(IOAccess(IOAccess::write)));
#endif
    b.submit();
}
static void t_parent(void*)
{
    rt_become_worker(0);
    rt_exec(0, parent);
    rt_leave_worker();
}
// worker 1 takes whatever was submitted (as init_dependencies and steal_new_task do)
static void t_other(void*)
{
    rt_become_worker(1);
    for(unsigned k = 0; k < NC; ++k)
        for(unsigned w = 0; w < 2; ++w)
        {
            rg::Task* t = nullptr;
            if(rt_worker(w).init_dependencies(t, true) && t)
                rt_exec(1, t);
        }
    rt_leave_worker();
}
static void program(bool successor)
{
    rg::init(2);
    res = new rg::Resource<IOAccess>();
    {
        auto b = rg::emplace_task(
            [f = Fun()]
            {
                begin(0);
                for(unsigned i = 0; i < NC; ++i)
                    submit_child(2 + i);
                __sym_assert(f.magic == 0x600d, "a running task is not destroyed");
                end(0);
            });
        b.add_resource(res->make_access(IOAccess(IOAccess::write)));
        parent = b.task;
        b.submit(); // nobody keeps the future
    }
    unsigned w = 0;
    while(!(rt_worker(w).init_dependencies(parent, true)))
        ++w;
    if(successor)
    {
        auto b = rg::emplace_task([f = Fun()] { begin(1); end(1); });
        b.add_resource(res->make_access(IOAccess(IOAccess::read)));
        b.submit();
    }
    else
        started[1] = finished[1] = 1;
    __sym_thread(t_parent, nullptr);
    __sym_thread(t_other, nullptr);
    __sym_join();
    rt_drain(2);
    for(unsigned i = 0; i < 2 + NC; ++i)
        __sym_assert(finished[i] == 1, "every task is executed");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_assert(live == 0, "finished tasks are destroyed");
    __sym_cover(true, "end");
}
extern "C" void c16f_child() { program(false); }
extern "C" void c16f_successor() { program(true); }
