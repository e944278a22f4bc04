// C18: a future delivers the value its task returned; the task lives until it has finished and its result was taken or
// the future dropped, and is destroyed exactly once. All interleavings at the level of single memory accesses; every
// block of the arenas is an object of its own, so that any use of a destroyed task is found.
#include "fine.h"
#include <redGrapes/task/future.hpp>
static unsigned value, executed, got, fine;
static int live; // function objects of the task alive
struct Val // a result which is unusable after its destruction
{
    unsigned v = 0;
    Val() = default;
    Val(unsigned v) : v(v)
    {
    }
    Val(Val const&) = default;
    Val& operator=(Val const&) = default;
    ~Val()
    {
        *(unsigned volatile*) &v = 0xdead0000u;
    }
};
struct Fun
{
    Fun()
    {
        count(1);
    }
    Fun(Fun const&)
    {
        count(1);
    }
    Fun(Fun&&)
    {
        count(1);
    }
    ~Fun()
    {
        count(-1);
    }
    static void count(int d)
    {
        __sym_ghost_begin();
        live += d;
        __sym_ghost_end();
    }
    static void ran()
    {
        __sym_ghost_begin();
        ++executed;
        __sym_assert(executed == 1, "a task is executed once");
        __sym_assert(live >= 1, "the function of a task lives while it is executed");
        __sym_ghost_end();
    }
};
static void t_exec0(void* p)
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) p);
    rt_leave_worker();
}
static void main_thread()
{
    rg::SingletonContext::get().idle = [] { rg::SingletonContext::get().scheduler->idle(); }; // as in the thread which called init()
}
static void start()
{
    value = __sym_var("value", 8);
    rg::init(2);
    rt_any_worker_state(2);
}
static void finish()
{
    __sym_join();
    rt_drain(2);
    __sym_assert(executed == 1, "the task is executed");
    __sym_assert(live == 0, "a task is destroyed exactly once, when it has finished and its result is not needed any more");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "a finished task does not count any more");
    __sym_cover(true, "end");
}
static rg::Future<Val>* fut;
static auto submit_val()
{
    return rg::emplace_task(
               [f = Fun()]
               {
                   Fun::ran();
#ifdef CHILD
                   rg::emplace_task([] {}).submit(); // executed later
#endif
                   return Val(value);
               })
        .submit();
}
static void check_got(unsigned v)
{
    __sym_ghost_begin();
    __sym_assert(executed == 1, "a result is delivered after the task was executed");
    __sym_assert(v == value, "get() delivers the value the task returned");
    ++got;
    __sym_ghost_end();
}
static void t_get(void*)
{
    main_thread();
    {
        rg::Future<Val> f(std::move(*fut));
        fut->~Future();
        Val v = f.get();
        check_got(v.v);
    }
}
static void t_drop(void*)
{
    main_thread();
    rg::Future<Val> f(std::move(*fut));
    fut->~Future();
}
static unsigned was_ready;
static void t_ready(void*)
{
    main_thread();
    rg::Future<Val> f(std::move(*fut));
    fut->~Future();
    if(f.is_ready())
    {
        __sym_ghost_begin();
        was_ready = 1;
        __sym_assert(executed == 1, "is_ready() only after the task was executed");
        __sym_ghost_end();
        check_got(f.get().v);
    }
}
alignas(8) static char fut_mem[sizeof(rg::Future<Val>)];
static rg::Task* submitted()
{
    fut = new(fut_mem) rg::Future<Val>(submit_val());
    return rt_init_ready(0);
}
static unsigned action;
static void t_any(void* p)
{
    if(action == 0)
        t_get(p);
    else if(action == 1)
        t_ready(p);
    else
        t_drop(p);
}
extern "C" void c18_any()
{
    start();
    action = sym_range("action", 2, 3);
    rg::Task* t = submitted();
    __sym_thread(t_exec0, t);
    __sym_thread(t_any, 0);
    finish();
    __sym_assert(action != 0 || got == 1, "get() returns");
    __sym_cover(was_ready, "the future was ready");
    __sym_cover(action == 1 && !was_ready, "the future was not ready");
}
extern "C" void c18_order() // sequential, in any order: execute, get or drop
{
    start();
    rg::Task* t = submitted();
    bool first = __sym_concrete(sym_bool("dropped_first"));
    bool take = __sym_concrete(sym_bool("taken"));
    main_thread();
    if(first)
        fut->~Future();
    __sym_assert(live == 1, "a task lives until it has finished");
    __sym_assert(!rg::SingletonContext::get().root_space->empty(), "an unfinished task counts");
    t_exec0(t);
    if(!first)
    {
        __sym_assert(live == 1, "a finished task lives while its result may still be taken");
        __sym_assert(fut->is_ready(), "the result of a finished task is ready");
        if(take)
        {
            rg::Future<Val> a(std::move(*fut));
            fut->~Future();
            check_got(a.get().v);
            __sym_assert(live == 0, "a finished task is destroyed when its result was taken");
        }
        else
            fut->~Future();
    }
    __sym_assert(live == 0, "a task is destroyed when it has finished and its result is not needed");
    finish();
    __sym_cover(got == 1, "taken");
}
// no value
static void t_get_void(void* p)
{
    main_thread();
    rg::Future<void> f(std::move(*(rg::Future<void>*) p));
    ((rg::Future<void>*) p)->~Future();
    f.get();
    check_got(value);
}
extern "C" void c18_void()
{
    start();
    auto* f = new rg::Future<void>(rg::emplace_task([f = Fun()] { Fun::ran(); }).submit());
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec0, t);
    __sym_thread(t_get_void, f);
    finish();
    __sym_assert(got == 1, "get() returns");
}
// a task waits for the result of another one
static void t_exec1(void* p)
{
    rt_become_worker(1);
    rt_exec(1, (rg::Task*) p);
    rt_leave_worker();
}
static unsigned waiter;
static void getter_body()
{
    __sym_ghost_begin();
    ++waiter;
    __sym_assert(waiter == 1, "a task which waits is not started again");
    __sym_ghost_end();
    rg::Future<Val> f(std::move(*fut));
    fut->~Future();
    check_got(f.get().v);
}
extern "C" void c18_get_in_task()
{
    start();
    rg::Task* t = submitted();
    rg::emplace_task([] { getter_body(); }).enable_stack_switching().submit();
    rg::Task* u = rt_init_ready(1);
    __sym_thread(t_exec0, t);
    __sym_thread(t_exec1, u);
    finish();
    __sym_assert(got == 1, "get() returns");
}
extern "C" void c18_get_in_stackless_task()
{
    start();
    rg::Task* t = submitted();
    rg::emplace_task([] { getter_body(); }).submit();
    rg::Task* u = rt_init_ready(1);
    __sym_thread(t_exec0, t);
    __sym_thread(t_exec1, u);
    finish();
    __sym_assert(got == 1, "get() returns");
}
// a child's result, taken by its parent
extern "C" void c18_child()
{
    start();
    rg::emplace_task(
        []
        {
            fut = new(fut_mem) rg::Future<Val>(submit_val());
            getter_body();
        })
        .enable_stack_switching()
        .submit();
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec0, t);
    __sym_thread(
        [](void*)
        {
            rt_become_worker(1);
            if(rg::Task* t = rt_worker(1).gather_task())
                rt_exec(1, t);
            rt_leave_worker();
        },
        0);
    finish();
    __sym_assert(got == 1, "get() returns");
}
