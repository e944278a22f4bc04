// C19: external events delay completion; tasks which wait for an event are resumed exactly once. All interleavings at the
// level of single memory accesses.
#include "fine.h"
using rg::access::IOAccess;
static rg::Resource<IOAccess>* res;
static unsigned started, resumed, returned, s_ran, reached;
static std::optional<rg::scheduler::EventPtr> ev; // the event
static rg::Task* ta;

static void t_exec0(void* p)
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) p);
    rt_leave_worker();
}
static void t_exec1(void* p)
{
    rt_become_worker(1);
    rt_exec(1, (rg::Task*) p);
    rt_leave_worker();
}
static void t_work1(void*)
{
    rt_become_worker(1);
    while(rg::Task* t = rt_worker(1).gather_task())
        rt_exec(1, t);
    rt_leave_worker();
}
static void reach()
{
    __sym_ghost_begin();
    reached++;
    __sym_ghost_end();
    ev->notify();
}
static void t_reach(void*)
{
    reach();
}
static void t_reach_work(void*)
{
    reach();
    t_work1(0);
}
static void t_work0(void* p)
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) p);
    while(rg::Task* t = rt_worker(0).gather_task())
        rt_exec(0, t);
    rt_leave_worker();
}
static void start(bool any_worker_state = true)
{
    rg::init(2);
    if(any_worker_state)
        rt_any_worker_state(2);
    res = new rg::Resource<IOAccess>();
}
static void finish()
{
    __sym_join();
    rt_drain(2);
    ev.reset();
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    __sym_cover(true, "end");
}
// ---- waiting for an event
static void waiting_body()
{
    __sym_ghost_begin();
    started++;
    __sym_assert(started == 1, "a task is started once");
    __sym_ghost_end();
    rg::yield(*ev);
    __sym_ghost_begin();
    resumed++;
    __sym_assert(resumed == 1, "a waiting task is resumed once");
    __sym_assert(reached >= 1, "a waiting task is resumed only after the event was reached");
    __sym_ghost_end();
}
static rg::Task* waiting_task()
{
    auto b = rg::emplace_task([] { waiting_body(); }).enable_stack_switching().add_resource(res->make_access(IOAccess::write));
    ta = b.task;
    b.submit();
    return ta;
}
static void make_event()
{
    ev = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
}
extern "C" void c19_yield() // the event is reached by another thread at any moment
{
    start();
    make_event();
    waiting_task();
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec0, t);
    __sym_thread(t_reach, 0);
    finish();
    __sym_assert(resumed == 1, "a waiting task is resumed when its event is reached");
}
// the other worker picks up the resumed task at once
extern "C" void c19_yield_resume()
{
    start();
    make_event();
    waiting_task();
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec0, t);
    __sym_thread(t_reach_work, 0);
    finish();
    __sym_assert(resumed == 1, "a waiting task is resumed when its event is reached");
}
// the event is reached by a task on another worker
extern "C" void c19_yield_task()
{
    start();
    make_event();
    waiting_task();
    rg::emplace_task([] { reach(); }).submit();
    rg::Task* t = rt_init_ready(0);
    rg::Task* u = rt_init_ready(1);
    __sym_thread(t_exec0, t);
    __sym_thread(t_exec1, u);
    finish();
    __sym_assert(resumed == 1, "a waiting task is resumed when its event is reached");
}
// a task without its own stack blocks its worker, but is not executed again
extern "C" void c19_stackless()
{
    start();
    make_event();
    rg::emplace_task([] { waiting_body(); }).submit();
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec0, t);
    __sym_thread(t_reach, 0);
    finish();
    __sym_assert(resumed == 1, "a waiting task continues when its event is reached");
}
// a task waits twice, for two events
static std::optional<rg::scheduler::EventPtr> ev2;
static bool order;
static void t_reach_both(void*)
{
    if(order)
        reach();
    ev2->notify();
    if(!order)
        reach();
}
extern "C" void c19_yield_twice()
{
    start();
    make_event();
    ev2 = rg::scheduler::EventPtr{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    rg::emplace_task(
        []
        {
            waiting_body();
            rg::yield(*ev2);
            __sym_assert((*ev2)->is_reached(), "a waiting task is resumed only after the event was reached");
            s_ran++;
        })
        .enable_stack_switching()
        .submit();
    rg::Task* t = rt_init_ready(0);
    order = sym_bool("order");
    __sym_thread(t_work0, t);
    __sym_thread(t_reach_both, 0);
    finish();
    ev2.reset();
    __sym_assert(resumed == 1 && s_ran == 1, "a waiting task is resumed when its event is reached");
}
// the main thread waits
static void t_main(void*)
{
    rg::SingletonContext::get().idle = [] { rg::SingletonContext::get().scheduler->idle(); }; // as in the thread which called init()
    rg::yield(*ev);
    __sym_ghost_begin();
    __sym_assert(reached >= 1, "yield returns only after the event was reached");
    returned++;
    __sym_ghost_end();
}
extern "C" void c19_main()
{
    start();
    make_event();
    __sym_thread(t_main, 0);
    __sym_thread(t_reach, 0);
    finish();
    __sym_assert(returned == 1, "a waiting thread continues when its event is reached");
}
// the main thread and a task wait for the same event
extern "C" void c19_main_task()
{
    start();
    make_event();
    waiting_task();
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec0, t);
    __sym_thread(t_main, 0);
    __sym_thread(t_reach, 0);
    finish();
    __sym_assert(resumed == 1 && returned == 1, "everybody who waits continues when the event is reached");
}
// two tasks wait for the same event
static unsigned other;
extern "C" void c19_two()
{
    start(false);
    make_event();
    waiting_task();
    rg::emplace_task(
        []
        {
            rg::yield(*ev);
            __sym_ghost_begin();
            other++;
            __sym_assert(other == 1 && reached >= 1, "a waiting task is resumed once, after the event was reached");
            __sym_ghost_end();
        })
        .enable_stack_switching()
        .submit();
    rg::Task* t = rt_init_ready(0);
    rg::Task* u = rt_init_ready(1);
    __sym_thread(t_exec0, t);
    __sym_thread(t_exec1, u);
    __sym_thread(t_reach, 0);
    finish();
    __sym_assert(resumed == 1 && other == 1, "everybody who waits continues when the event is reached");
}
// ---- events which delay the end of a task
static bool made;
static void t_reach_made(void*)
{
    __sym_assume(made);
    reach();
}
static void successor()
{
    rg::emplace_task(
        []
        {
            __sym_ghost_begin();
            s_ran++;
            __sym_assert(returned == 1 && reached == 1, "a task finishes only after its events were reached");
            __sym_ghost_end();
        })
        .add_resource(res->make_access(IOAccess::write))
        .submit();
}
static void event_body()
{
    auto e = rg::create_event();
    __sym_assert(bool(e), "a running task can create events");
    ev = e;
    made = true;
    __sym_sched_point();
    __sym_ghost_begin();
    returned++;
    __sym_ghost_end();
}
static rg::Task* event_task()
{
    auto b = rg::emplace_task([] { event_body(); }).add_resource(res->make_access(IOAccess::write));
    ta = b.task;
    b.submit();
    return ta;
}
extern "C" void c19_event()
{
    start();
    event_task();
    successor();
    rg::Task* t = rt_init_ready(0);
    rg::Task* n = nullptr;
    rt_become_worker(1);
    rt_worker(1).init_dependencies(n, true);
    __sym_assert(n == nullptr, "the successor waits");
    rt_leave_worker();
    __sym_thread(t_exec0, t);
    __sym_thread(t_reach_made, 0);
    finish();
    __sym_assert(s_ran == 1, "a task finishes when its events were reached");
}
extern "C" void c19_event_init() // the successor is taken up meanwhile
{
    start();
    event_task();
    successor();
    rg::Task* t = rt_init_ready(0);
    __sym_thread(t_exec0, t);
    __sym_thread(t_reach_made, 0);
    __sym_thread(t_work1, 0);
    finish();
    __sym_assert(s_ran == 1, "a task finishes when its events were reached");
}
// outside of tasks there is no event to create
extern "C" void c19_outside()
{
    start();
    __sym_assert(!rg::create_event(), "no event without a running task");
    __sym_cover(true, "end");
}
