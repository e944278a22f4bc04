// C12, C13, C14 at the level of single memory accesses: tasks finish while others are initialised
#include "fine.h"
using rg::access::IOAccess;
#ifndef NT
#    define NT 2
#endif
static unsigned mode[NT];
static unsigned started[NT], finished[NT];
static rg::Task* task[NT];
static rg::Resource<IOAccess>* res;
static bool conflict(unsigned i, unsigned j)
{
    return mode[i] != mode[j] || mode[i] == IOAccess::write;
}
static void body(unsigned i)
{
    __sym_ghost_begin();
    started[i]++;
    __sym_assert(started[i] == 1, "a task is executed at most once");
#ifdef ORDER
    for(unsigned j = 0; j < i; ++j)
        __sym_assert(!conflict(i, j) || finished[j] == 1, "an earlier conflicting task has finished before a task starts");
    for(unsigned j = i + 1; j < NT; ++j)
        __sym_assert(!conflict(i, j) || started[j] == 0, "a later conflicting task has not started");
#endif
    finished[i]++;
    __sym_ghost_end();
}
static void submit(unsigned i)
{
    mode[i] = __sym_var("mode", 2);
    auto b = rg::emplace_task([i] { body(i); });
    b.add_resource(res->make_access(IOAccess((IOAccess::Mode) mode[i])));
    task[i] = b.task;
    b.submit();
}
static void start()
{
    rg::init(2);
    res = new rg::Resource<IOAccess>();
}
static void finish()
{
    __sym_join();
    rt_drain(2);
    for(unsigned i = 0; i < NT; ++i)
        __sym_assert(finished[i] == 1, "every task is executed");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    unsigned users = 0;
    for(auto it = res->base->users.rbegin(); it != res->base->users.rend(); ++it)
        ++users;
    __sym_assert(users == 0, "finished tasks are no users of resources");
    __sym_cover(true, "end");
}
static void t_exec(void* p) // worker 0 executes a task
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) p);
    rt_leave_worker();
}
static void t_exec1(void* p) // worker 1 executes a task
{
    rt_become_worker(1);
    rt_exec(1, (rg::Task*) p);
    rt_leave_worker();
}
static void t_gather(void*) // worker 1 looks for work and does it
{
    rt_become_worker(1);
    if(rg::Task* t = rt_worker(1).gather_task())
        rt_exec(1, t);
    rt_leave_worker();
}
static bool blocked; // the second task was initialised before the first one finished
static void t_init(void*) // worker 1 initialises the next task
{
    rt_become_worker(1);
    rg::Task* t = nullptr;
    rt_worker(1).init_dependencies(t, true);
    __sym_ghost_begin();
    blocked = t == nullptr;
#ifdef UNORDER
    __sym_assert(conflict(0, 1) || !blocked, "a task without conflicts does not wait");
#endif
    __sym_ghost_end();
    if(t)
        rt_exec(1, t);
    rt_leave_worker();
}
// the second task is initialised while the first one is executed
extern "C" void c12f_init()
{
    start();
    submit(0);
    submit(1);
    rg::Task* a = rt_init_ready(0);
    __sym_thread(t_exec, a);
    __sym_thread(t_init, 0);
    finish();
    __sym_cover(blocked, "the second task waited");
    __sym_cover(!blocked && conflict(0, 1), "the second task came later");
}
extern "C" void c12f_gather()
{
    start();
    submit(0);
    submit(1);
    rg::Task* a = rt_init_ready(0);
    __sym_thread(t_exec, a);
    __sym_thread(t_gather, 0);
    finish();
}
// a task is submitted while a worker looks for work
static void t_submit(void* p)
{
    submit((unsigned long) p);
}
static void t_exec_gather(void* p)
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) p);
    if(rg::Task* t = rt_worker(0).gather_task())
        rt_exec(0, t);
    rt_leave_worker();
}
extern "C" void c12f_submit()
{
    start();
    submit(0);
    rg::Task* a = rt_init_ready(0);
    __sym_thread(t_submit, (void*) 1);
    __sym_thread(t_gather, 0);
    __sym_join();
    rt_become_worker(0);
    rt_exec(0, a);
    finish();
}
// a task is submitted while the previous one is executed
extern "C" void c12f_submit_exec()
{
    start();
    submit(0);
    rg::Task* a = rt_init_ready(0);
    __sym_thread(t_submit, (void*) 1);
    __sym_thread(t_exec_gather, a);
    finish();
}
#if NT == 3
// two tasks which do not conflict are executed while a third one waits for them
extern "C" void c12f_both()
{
    start();
    for(unsigned i = 0; i < 3; ++i)
        submit(i);
    __sym_assume(!conflict(0, 1));
    rg::Task* a = rt_init_ready(0);
    rg::Task* b = rt_init_ready(1);
    rg::Task* c = nullptr;
    rt_become_worker(0);
    rt_worker(0).init_dependencies(c, true);
    __sym_assume(c == nullptr);
    rt_leave_worker();
    __sym_thread(t_exec, a);
    __sym_thread(t_exec1, b);
    finish();
}
// two tasks which do not conflict are executed while a third one is initialised
static void t_init3(void*)
{
    rg::Task* t = nullptr;
    rt_become_worker(0);
    rt_worker(0).init_dependencies(t, false);
    rt_leave_worker();
}
extern "C" void c12f_init3()
{
    start();
    for(unsigned i = 0; i < 3; ++i)
        submit(i);
    __sym_assume(!conflict(0, 1));
    rg::Task* a = rt_init_ready(0);
    rg::Task* b = rt_init_ready(1);
    __sym_thread(t_exec, a);
    __sym_thread(t_exec1, b);
    __sym_thread(t_init3, 0);
    finish();
}
// a task finishes while the next two are initialised one after the other
static void t_init12(void*)
{
    rg::Task* t = nullptr;
    rt_become_worker(1);
    rt_worker(1).init_dependencies(t, false);
    rt_worker(0).init_dependencies(t, false);
    rt_leave_worker();
}
extern "C" void c12f_init12()
{
    start();
    for(unsigned i = 0; i < 3; ++i)
        submit(i);
    rg::Task* a = rt_init_ready(0);
    __sym_thread(t_exec, a);
    __sym_thread(t_init12, 0);
    finish();
}
#endif
