// C17: a running task reduces its accesses: exactly the later tasks which do not conflict with it anymore are released
#include "fine.h"
using rg::access::IOAccess;
#ifndef NF
#    define NF 2 // later tasks
#endif
#ifndef NR
#    define NR 2 // resources
#endif
#ifndef USES // USES bit i*NR+r: task i may access resource r (task 0 is the one which reduces its accesses)
#    define USES ((1u << (NF + 1) * NR) - 1)
#endif
static rg::Resource<IOAccess>* res[NR];
static unsigned acc[NF + 1][NR], reduced[NR]; // 0: no access, otherwise 1 + mode
static unsigned before[NR];
static unsigned started[NF + 1], finished[NF + 1];
static rg::Task* task[NF + 1];
static bool refused, valid, reducing, done_reducing;
static bool modes_conflict(unsigned a, unsigned b)
{
    if(a == 0 || b == 0)
        return false;
    a--, b--;
    return a != b || a == IOAccess::write;
}
static bool conflict(unsigned const* a, unsigned const* b)
{
    bool c = false;
    for(unsigned r = 0; r < NR; ++r)
        c |= modes_conflict(a[r], b[r]);
    return c;
}
static rg::ResourceAccess io_access(unsigned r, unsigned a)
{
    return res[r]->make_access(IOAccess((IOAccess::Mode)(a - 1)));
}
static void reduce()
{
    using Patch = rg::TaskProperties::Patch;
    Patch::Builder b;
    for(unsigned r = 0; r < NR; ++r)
        if(acc[0][r] != reduced[r])
        {
            if(acc[0][r])
                b.remove_resources({io_access(r, acc[0][r])});
            if(reduced[r])
                b.add_resources({io_access(r, reduced[r])});
        }
    Patch p = b;
    __sym_ghost_begin();
    reducing = true;
    __sym_ghost_end();
    try
    {
        rg::update_properties(p);
    }
    catch(std::runtime_error const&)
    {
        refused = true;
    }
    __sym_ghost_begin();
    done_reducing = true;
    if(!refused)
        for(unsigned r = 0; r < NR; ++r)
            acc[0][r] = reduced[r];
    __sym_assert(refused == !valid, "an update is refused exactly if it extends the accesses");
    __sym_ghost_end();
}
static void choose()
{
    valid = true;
    for(unsigned i = 0; i <= NF; ++i)
        for(unsigned r = 0; r < NR; ++r)
        {
            bool uses = (USES >> (i * NR + r)) & 1;
            acc[i][r] = uses ? 1 + __sym_var("mode", 2) : 0;
#ifdef FIX // the first and the last task write
            if(uses && (i == 0 || i == NF))
                acc[i][r] = 1 + IOAccess::write;
#endif
        }
    for(unsigned r = 0; r < NR; ++r)
    {
        before[r] = acc[0][r];
        reduced[r] = before[r] == 0 || __sym_concrete(sym_bool("drop")) ? 0 : 1 + __sym_var("reduced", 2);
        if(before[r])
            valid &= reduced[r] == 0 || reduced[r] == before[r] || before[r] == 1 + IOAccess::write;
    }
#ifndef EXTEND
    __sym_assume(valid);
#endif
}
template<typename B>
static void declare(B& b, unsigned i)
{
    for(unsigned r = 0; r < NR; ++r)
        if(acc[i][r])
            b.add_resource(io_access(r, acc[i][r]));
    task[i] = b.task;
}
// ---- one step at a time
static bool ready[NF + 1];
static unsigned inited;
static void collect()
{
    while(rg::Task* t = rt_worker(0).ready_queue.pop())
    {
        unsigned n = 0;
        for(unsigned i = 0; i <= NF; ++i)
            if(task[i] == t)
            {
                ++n;
                __sym_assert(!ready[i] && (i == 0 ? !finished[0] : !started[i]), "a task is released only once");
                ready[i] = true;
            }
        __sym_assert(n == 1, "only submitted tasks are released");
    }
}
static void init_next()
{
    rg::Task* t = nullptr;
    __sym_assert(rt_worker(0).init_dependencies(t, true), "submitted tasks wait for their initialisation");
    if(t)
    {
        __sym_assert(t == task[inited], "tasks are initialised in their order");
        ready[inited] = true;
    }
    ++inited;
    collect();
}
static void check()
{
    for(unsigned i = 0; i <= NF; ++i)
    {
        bool blocked = i >= inited;
        for(unsigned j = 0; j < i; ++j)
            blocked |= conflict(acc[j], acc[i]) && !finished[j];
        __sym_assert(!ready[i] || !blocked, "tasks which still conflict keep waiting");
        __sym_assert(ready[i] || blocked, "tasks which do not conflict anymore are released");
    }
}
static std::optional<rg::scheduler::EventPtr> ev;
static void exec(unsigned i)
{
    ready[i] = false;
    rt_exec(0, task[i]);
    collect();
}
static unsigned n_before, n_during;
static void body0()
{
    started[0]++;
    __sym_assert(started[0] == 1, "a task is executed once");
    reduce();
    collect();
    ready[0] = true; // it is running
    check();
    while(inited < n_during)
    {
        init_next();
        check();
    }
    ready[0] = false;
    rg::yield(*ev); // others are executed meanwhile
    finished[0]++;
}
static void body(unsigned i)
{
    started[i]++;
    __sym_assert(started[i] == 1, "a task is executed once");
    finished[i]++;
}
extern "C" void c17_steps()
{
    choose();
    rg::init(1);
    for(unsigned r = 0; r < NR; ++r)
        res[r] = new rg::Resource<IOAccess>();
    ev = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    rt_become_worker(0);
    for(unsigned i = 0; i <= NF; ++i)
        if(i == 0)
        {
            auto b = rg::emplace_task([] { body0(); });
            declare(b, 0);
            b.enable_stack_switching();
            b.submit();
        }
        else
        {
            auto b = rg::emplace_task([i] { body(i); });
            declare(b, i);
            b.submit();
        }
    n_before = __sym_concrete(1 + sym_range("initialised before", 2, NF + 1)); // 1 .. NF+1
    n_during = __sym_concrete(1 + sym_range("initialised before the end", 2, NF + 1));
    __sym_assume(n_during >= n_before);
    while(inited < n_before)
        init_next();
    check();
    exec(0);
    __sym_assert(started[0] == 1 && !finished[0], "the task waits for the event");
    // everything that is possible while it waits
    for(unsigned i = 1; i <= NF; ++i)
        if(__sym_concrete(ready[i]))
        {
            exec(i);
            ready[i] = true;
            ready[0] = true;
            check();
            ready[0] = false;
        }
    ev->notify();
    collect();
    __sym_assert(ready[0], "the task goes on");
    exec(0);
    __sym_assert(finished[0] == 1, "the task ends");
    ready[0] = true;
    check();
    while(inited <= NF)
    {
        init_next();
        check();
    }
    for(unsigned i = 1; i <= NF; ++i)
        if(__sym_concrete(!finished[i]))
        {
            __sym_assert(ready[i], "the oldest task is ready");
            exec(i);
            ready[i] = true;
            check();
        }
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
#ifdef EXTEND
    __sym_cover(refused, "refused");
#endif
}
// ---- single memory accesses interleaved: later tasks are initialised while the task reduces its accesses
static void f_body0()
{
    __sym_ghost_begin();
    started[0]++;
    __sym_assert(started[0] == 1, "a task is executed once");
    __sym_ghost_end();
    reduce();
    __sym_sched_point();
    __sym_ghost_begin();
    finished[0]++;
    __sym_ghost_end();
}
static void f_body(unsigned i)
{
    __sym_ghost_begin();
    started[i]++;
    __sym_assert(started[i] == 1, "a task is executed once");
    bool c = conflict(before, acc[i]);
    bool d = valid && !conflict(reduced, acc[i]);
    __sym_assert(finished[0] || !c || (d && reducing), "tasks which conflict wait until the task ends or does not conflict anymore");
    for(unsigned j = 1; j < i; ++j)
        __sym_assert(finished[j] || !conflict(acc[j], acc[i]), "tasks wait for earlier ones");
    __sym_ghost_end();
    __sym_sched_point();
    __sym_ghost_begin();
    finished[i]++;
    __sym_ghost_end();
}
static void t_exec0(void* p)
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) p);
    rt_leave_worker();
}
static void t_init1(void*)
{
    rt_become_worker(1);
    rg::Task* t = nullptr;
    rt_worker(1).init_dependencies(t, true);
    if(t)
        rt_exec(1, t);
    rt_leave_worker();
}
static void t_work1(void*)
{
    rt_become_worker(1);
    while(rg::Task* t = rt_worker(1).gather_task())
        rt_exec(1, t);
    rt_leave_worker();
}
static void fine(unsigned n_init, void (*f)(void*))
{
    choose();
    rg::init(2);
    for(unsigned r = 0; r < NR; ++r)
        res[r] = new rg::Resource<IOAccess>();
    auto b = rg::emplace_task([] { f_body0(); });
    declare(b, 0);
    b.submit();
    rg::Task* a = rt_init_ready(0);
    for(unsigned i = 1; i <= NF; ++i)
    {
        auto b = rg::emplace_task([i] { f_body(i); });
        declare(b, i);
        b.submit();
        if(i <= n_init)
        {
            rt_become_worker(i % 2);
            rg::Task* t = nullptr;
            __sym_assert(rt_worker(i % 2).init_dependencies(t, false), "a submitted task waits for its initialisation");
            rt_leave_worker();
        }
    }
    __sym_thread(t_exec0, a);
    __sym_thread(f, 0);
    __sym_join();
    rt_drain(2);
    for(unsigned i = 0; i <= NF; ++i)
        __sym_assert(finished[i] == 1, "every task is executed");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
extern "C" void c17_init() // the first later task is initialised concurrently
{
    fine(0, t_init1);
}
extern "C" void c17_work() // one is initialised before, the others concurrently; another worker takes what is ready
{
    fine(1, t_work1);
}
extern "C" void c17_waiting() // all wait already
{
    fine(NF, t_work1);
}
// a task reduces its accesses below those of its parent
static unsigned parent_finished;
extern "C" void c17_child()
{
    rg::init(1);
    res[0] = new rg::Resource<IOAccess>();
    rt_become_worker(0);
    static unsigned smode, s_started, child_started, child_finished, keep;
    static rg::Task* s;
    smode = __sym_var("mode", 2);
    keep = __sym_var("keep", 1);
    rg::emplace_task(
        []
        {
            rg::emplace_task(
                []
                {
                    child_started++;
                    rg::TaskProperties::Patch::Builder b;
                    b.remove_resources({io_access(0, 1 + IOAccess::write)});
                    if(keep)
                        b.add_resources({io_access(0, 1 + IOAccess::read)});
                    rg::update_properties(b);
                    rg::yield(*ev);
                    child_finished++;
                })
                .add_resource(io_access(0, 1 + IOAccess::write))
                .enable_stack_switching()
                .submit();
        })
        .add_resource(io_access(0, 1 + IOAccess::write))
        .submit();
    rg::emplace_task(
        []
        {
            s_started++;
            __sym_assert(child_finished == 1, "the successor of a task starts after its sub-tasks");
        })
        .add_resource(io_access(0, 1 + smode))
        .submit();
    ev = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    rt_drain(1);
    __sym_assert(child_started == 1 && !child_finished && !s_started, "a task waits for its sub-tasks which reduce their accesses");
    ev->notify();
    rt_drain(1);
    __sym_assert(s_started == 1, "every task is executed");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
