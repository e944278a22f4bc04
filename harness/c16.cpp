// C16: sub-tasks finish before their parent does, and are ordered among themselves; all orders of worker steps
#include "coarse.h"
#ifndef NC
#    define NC 2 // sub-tasks
#endif
#ifndef NG
#    define NG 0 // sub-tasks of the first sub-task
#endif
#ifndef NW
#    define NW 2
#endif
using rg::access::IOAccess;
static rg::Resource<IOAccess>* res;
static unsigned cmode[NC + 1], gmode[NG + 1], smode, pmode;
static unsigned p_started, p_returned, c_started[NC + 1], c_finished[NC + 1], g_started[NG + 1], g_finished[NG + 1], s_started;
static rg::Task* parent;
static bool modes_conflict(unsigned a, unsigned b)
{
    return a != b || a == IOAccess::write;
}
static rg::ResourceAccess access(unsigned m)
{
    return res->make_access(IOAccess((IOAccess::Mode) m));
}
static void grandchild(unsigned i)
{
    g_started[i]++;
    __sym_assert(g_started[i] == 1, "a sub-task is executed once");
    for(unsigned j = 0; j < i; ++j)
        __sym_assert(!modes_conflict(gmode[i], gmode[j]) || g_finished[j], "conflicting sub-tasks run in their order");
    __sym_assert(!s_started, "the successor of a task does not start before its sub-tasks have finished");
    rt_step();
    g_finished[i]++;
}
static void child(unsigned i)
{
    c_started[i]++;
    __sym_assert(c_started[i] == 1, "a sub-task is executed once");
    for(unsigned j = 0; j < i; ++j)
        if(modes_conflict(cmode[i], cmode[j]))
        {
            __sym_assert(c_finished[j], "conflicting sub-tasks run in their order");
            if(j == 0)
                for(unsigned g = 0; g < NG; ++g)
                    __sym_assert(g_finished[g], "a sub-task finishes only after its own sub-tasks");
        }
    __sym_assert(!s_started, "the successor of a task does not start before its sub-tasks have finished");
    rt_step();
    if(i == 0)
        for(unsigned g = 0; g < NG; ++g)
        {
            rg::emplace_task([g] { grandchild(g); }).add_resource(access(gmode[g])).submit();
            rt_step();
        }
    c_finished[i]++;
}
static void body()
{
    p_started++;
    __sym_assert(p_started == 1, "a task is executed once");
    for(unsigned i = 0; i < NC; ++i)
    {
        rg::emplace_task([i] { child(i); }).add_resource(access(cmode[i])).submit();
        rt_step();
    }
    p_returned++;
}
static void successor()
{
    s_started++;
    __sym_assert(s_started == 1, "a task is executed once");
    __sym_assert(p_returned, "the successor of a task starts after it");
    for(unsigned i = 0; i < NC; ++i)
        __sym_assert(c_finished[i] == 1, "the successor of a task starts after its sub-tasks");
    for(unsigned i = 0; i < NG; ++i)
        __sym_assert(g_finished[i] == 1, "the successor of a task starts after the sub-tasks of its sub-tasks");
}
static void program(void*)
{
    __sym_atomic_begin();
    rg::emplace_task([] { body(); }).add_resource(access(pmode)).submit();
    rt_step();
    rg::emplace_task([] { successor(); }).add_resource(access(smode)).submit();
    rt_step();
    while(!rg::SingletonContext::get().root_space->empty())
        rt_step();
    // barrier() returns now
    for(unsigned i = 0; i < NC; ++i)
        __sym_assert(c_finished[i] == 1, "barrier() returns after all sub-tasks");
    for(unsigned i = 0; i < NG; ++i)
        __sym_assert(g_finished[i] == 1, "barrier() returns after all sub-tasks of sub-tasks");
    rt_stop = 1;
    __sym_atomic_end();
}
extern "C" void c16_tasks()
{
    pmode = IOAccess::write;
    smode = __sym_var("smode", 2);
    for(unsigned i = 0; i < NC; ++i)
        cmode[i] = __sym_var("cmode", 2);
    for(unsigned i = 0; i < NG; ++i)
    {
        gmode[i] = __sym_var("gmode", 2);
        __sym_assume(gmode[i] == cmode[0] || cmode[0] == IOAccess::write); // covered by its parent
    }
    rg::init(NW);
    res = new rg::Resource<IOAccess>();
    __sym_thread(program, nullptr);
    for(unsigned long w = 0; w < NW; ++w)
        __sym_thread(rt_coarse_worker, (void*) w);
    __sym_join();
    __sym_assert(s_started == 1 && p_returned == 1, "every task is executed");
    for(unsigned i = 0; i < NC; ++i)
        __sym_assert(c_finished[i] == 1, "every sub-task is executed");
    for(unsigned i = 0; i < NG; ++i)
        __sym_assert(g_finished[i] == 1, "every sub-task of a sub-task is executed");
    __sym_cover(true, "end");
}
