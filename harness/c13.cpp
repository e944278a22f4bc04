// C12, C13, C14 one step at a time: a task is ready exactly if it was initialised and no earlier conflicting task
// is unfinished, after every step of every program. ORDER: not before (C12), UNORDER: not later (C13), else each
// task is executed once (C14).
#include "rt.h"
#ifdef ONCE
#    define ASSERT_ONCE(c, m) __sym_assert(c, m)
#else
#    define ASSERT_ONCE(c, m) __sym_assume(c)
#endif
using rg::access::IOAccess;
#ifndef NT
#    define NT 3
#endif
#ifndef MODE_BITS
#    define MODE_BITS 2 // 1: reading and writing only
#endif
#ifndef NR
#    define NR 2
#endif
static unsigned acc[NT][NR];
#ifdef FIELD // the resources are fields, each access has a mode and an area
#    include <redGrapes/resource/access/field.hpp>
using Access = rg::access::FieldAccess<1>;
static size_t lo[NT][NR], hi[NT][NR];
static Access make(unsigned mode, size_t l, size_t h)
{
    using Arr = rg::access::ArrayAccess<rg::access::AreaAccess, 1>;
    return Access(
        IOAccess((IOAccess::Mode) mode),
        Arr(std::array<rg::access::AreaAccess, 1>{rg::access::AreaAccess(std::array<size_t, 2>{l, h})}));
}
#else
using Access = IOAccess;
static Access make(unsigned mode, size_t = 0, size_t = 0)
{
    return IOAccess((IOAccess::Mode) mode);
}
#endif
static rg::Task* task[NT];
static unsigned done[NT], inited, ready[NT];
static rg::Resource<Access>* res[NR];

static bool modes_conflict(unsigned a, unsigned b)
{
    if(a == 0 || b == 0)
        return false;
    a--, b--;
    if(a == IOAccess::write || b == IOAccess::write)
        return true;
    return a != b; // readers do not conflict with readers, nor equal atomic modes with each other
}
static bool conflict(unsigned i, unsigned j)
{
    bool c = false;
    for(unsigned r = 0; r < NR; ++r)
#ifdef FIELD
        c |= modes_conflict(acc[i][r], acc[j][r]) && lo[i][r] < hi[j][r] && lo[j][r] < hi[i][r];
#else
        c |= modes_conflict(acc[i][r], acc[j][r]);
#endif
    return c;
}
static unsigned current = ~0u;
static void body(unsigned i)
{
    ASSERT_ONCE(current == i, "the function of the executed task runs");
    done[i]++;
}
static void mark_ready(rg::Task* t)
{
    unsigned n = 0;
    for(unsigned i = 0; i < NT; ++i)
        if(task[i] == t)
        {
            ++n;
            ASSERT_ONCE(!ready[i] && !done[i], "a task becomes ready only once");
            ready[i] = 1;
        }
    ASSERT_ONCE(n == 1, "only submitted tasks become ready");
}
static void collect(rg::dispatch::thread::Worker& w)
{
    while(rg::Task* t = w.ready_queue.pop())
        mark_ready(t);
}
static void check()
{
    for(unsigned i = 0; i < NT; ++i)
    {
        bool blocked = i >= inited;
        for(unsigned j = 0; j < i; ++j)
            blocked |= conflict(j, i) && !done[j];
#ifdef ORDER
        __sym_assert(!ready[i] || !blocked, "a task is not ready before every earlier conflicting task has finished");
#endif
#ifdef UNORDER
        __sym_assert(ready[i] || blocked, "a task which waits for nothing is ready");
#endif
    }
}
static void prepare()
{
    for(unsigned i = 0; i < NT; ++i)
        for(unsigned r = 0; r < NR; ++r)
        {
#ifdef USES // which task uses which resource
            bool uses = (USES >> (i * NR + r)) & 1;
#else
            bool uses = __sym_concrete(sym_bool("uses"));
#endif
            acc[i][r] = uses ? 1 + __sym_var("mode", MODE_BITS) : 0;
#ifdef FIELD
#    ifdef AREAS
            // given areas, among them the whole field
            static size_t const areas[][2] = {{0, 10}, {5, 15}, {10, 20}, {0, ~size_t(0)}};
            unsigned k = (AREAS >> (4 * (i * NR + r))) & 15;
            lo[i][r] = areas[k][0], hi[i][r] = areas[k][1];
#    else
            lo[i][r] = sym_u64("lo");
            hi[i][r] = sym_u64("hi");
#    endif
            __sym_assume(lo[i][r] < hi[i][r]);
#endif
        }
    rg::init(1);
    for(unsigned r = 0; r < NR; ++r)
        res[r] = new rg::Resource<Access>();
    auto& c = rg::SingletonContext::get();
    auto& w = c.worker_pool->get_worker(0);
    c.current_worker = w.shared_from_this();
    c.current_waker_id = w.get_waker_id();
    c.current_arena = w.get_worker_id();
}
static void submit(unsigned i)
{
    auto b = rg::emplace_task([i] { body(i); });
    for(unsigned r = 0; r < NR; ++r)
        if(acc[i][r])
#ifdef FIELD
            b.add_resource(res[r]->make_access(make(acc[i][r] - 1, lo[i][r], hi[i][r])));
#else
            b.add_resource(res[r]->make_access(make(acc[i][r] - 1)));
#endif
    task[i] = b.task;
    b.submit();
}
static void init_next(rg::dispatch::thread::Worker& w)
{
    rg::Task* t = nullptr;
    bool any = w.init_dependencies(t, true);
    ASSERT_ONCE(any, "submitted tasks wait for their initialisation");
    if(t)
    {
        __sym_assert(t == task[inited], "tasks are initialised in the order of their creation");
        mark_ready(t);
    }
    ++inited;
    collect(w);
}
static void execute(rg::dispatch::thread::Worker& w, unsigned i)
{
    current = i;
    rg::Task* outer = rg::Context::current_task;
    rg::SingletonContext::get().execute_task(*task[i]);
    rg::Context::current_task = outer;
    current = ~0u;
    ASSERT_ONCE(done[i] == 1, "a task is executed once");
    collect(w);
}
static void step_possible()
{
    bool any = inited < NT;
    for(unsigned i = 0; i < NT; ++i)
        any |= ready[i] && !done[i];
    ASSERT_ONCE(any, "some task is ready as long as not all are executed");
}
static void steps()
{
    auto& w = rg::SingletonContext::get().worker_pool->get_worker(0);
    for(unsigned i = 0; i < NT; ++i)
        submit(i);
    for(unsigned step = 0; step < 2 * NT; ++step)
    {
        // initialise the next task or execute one of the ready ones
        unsigned what = sym_range("step", 3, NT + 1);
        bool ok = what == NT && inited < NT;
        for(unsigned i = 0; i < NT; ++i)
            ok |= what == i && ready[i] && !done[i];
        step_possible();
        __sym_assume(ok);
        what = __sym_concrete(what);
        if(what == NT)
            init_next(w);
        else
            execute(w, what);
        check();
    }
    for(unsigned i = 0; i < NT; ++i)
        ASSERT_ONCE(done[i] == 1, "every task is executed");
    __sym_cover(NT < 3 || (conflict(0, 1) && conflict(1, 2) && !conflict(0, 2)), "a chain without a direct conflict");
}
extern "C" void c13_steps()
{
    prepare();
    steps();
    ASSERT_ONCE(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
// the same for the sub-tasks of a task which uses the resources as well, between others which conflict with it
extern "C" void c13_nested()
{
    prepare();
    auto& w = rg::SingletonContext::get().worker_pool->get_worker(0);
    rg::Task* outer[2];
    unsigned after = 0, during = 0;
    for(unsigned i = 0; i < 2; ++i)
    {
        auto b = rg::emplace_task(
            [i, &after, &during]
            {
                if(i == 1)
                    after++;
                else
                {
                    during++;
                    steps();
                }
            });
        for(unsigned r = 0; r < NR; ++r)
            b.add_resource(res[r]->make_access(make(i ? IOAccess::read : IOAccess::write, 0, ~size_t(0))));
        outer[i] = b.task;
        b.submit();
    }
    rg::Task* t = nullptr;
    __sym_assert(w.init_dependencies(t, true) && t == outer[0], "the first task waits for nothing");
    t = nullptr;
    __sym_assert(w.init_dependencies(t, true) && !t, "the second task waits for the first one");
    rg::SingletonContext::get().execute_task(*outer[0]);
    __sym_assert(during == 1 && after == 0, "the second task waits for the first one");
    t = w.ready_queue.pop();
    ASSERT_ONCE(t == outer[1], "the second task is ready after the first one");
    rg::SingletonContext::get().execute_task(*t);
    ASSERT_ONCE(after == 1 && rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
// all tasks are initialised before the first one is executed; any order of the ready ones
extern "C" void c13_order()
{
    prepare();
    auto& w = rg::SingletonContext::get().worker_pool->get_worker(0);
    for(unsigned i = 0; i < NT; ++i)
        submit(i);
    for(unsigned i = 0; i < NT; ++i)
    {
        init_next(w);
        check();
    }
    for(unsigned step = 0; step < NT; ++step)
    {
        unsigned what = sym_range("step", 3, NT);
        bool ok = false;
        for(unsigned i = 0; i < NT; ++i)
            ok |= what == i && ready[i] && !done[i];
        step_possible();
        __sym_assume(ok);
        execute(w, __sym_concrete(what));
        check();
    }
    for(unsigned i = 0; i < NT; ++i)
        ASSERT_ONCE(done[i] == 1, "every task is executed");
    ASSERT_ONCE(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
