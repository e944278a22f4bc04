// C21: the tag matching scheduler, with arbitrary sets of tags; the sub-schedulers record how they are used
#include "fine.h"
#include <redGrapes/scheduler/tag_match.hpp>
using rg::access::IOAccess;
using Bits = std::bitset<64>;
#ifndef NS
#    define NS 3
#endif
static constexpr unsigned MAXT = 3;
struct Sub : rg::scheduler::IScheduler
{
    bool pre = false, can_wake = false;
    rg::Task* emplaced[MAXT];
    unsigned n_emplaced = 0;
    rg::Task* activated[MAXT];
    unsigned n_activated = 0, n_asked = 0, n_wake = 0, n_wake_all = 0, n_stolen = 0;
    rg::scheduler::WakerId waker = 0;
    rg::Task const *dep_a = nullptr, *dep_b = nullptr;
    rg::Task* to_steal = nullptr;
    bool task_dependency_type(rg::Task const& a, rg::Task const& b) override
    {
        n_asked++;
        dep_a = &a;
        dep_b = &b;
        return pre;
    }
    void emplace_task(rg::Task& t) override
    {
        emplaced[n_emplaced++] = &t;
    }
    void activate_task(rg::Task& t) override
    {
        activated[n_activated++] = &t;
    }
    rg::Task* steal_task(rg::dispatch::thread::Worker&) override
    {
        rg::Task* t = to_steal;
        to_steal = nullptr;
        n_stolen += t != nullptr;
        return t;
    }
    void wake_all() override
    {
        n_wake_all++;
    }
    bool wake(rg::scheduler::WakerId id) override
    {
        n_wake++;
        waker = id;
        return can_wake;
    }
};
static std::shared_ptr<Sub> sub[NS];
static uint64_t supported[NS];
static unsigned n;
static std::shared_ptr<rg::scheduler::TagMatch<64>> tm;

static void setup(unsigned min_subs)
{
    tm = std::make_shared<rg::scheduler::TagMatch<64>>();
    n = __sym_concrete(sym_range("schedulers", 2, NS + 1));
    __sym_assume(n >= min_subs);
    for(unsigned i = 0; i < NS; ++i)
    {
        sub[i] = std::make_shared<Sub>();
        supported[i] = sym_u64("supported");
        sub[i]->pre = sym_bool("pre-event");
        sub[i]->can_wake = sym_bool("wakes");
        if(i < n)
            tm->add_scheduler(Bits(supported[i]), sub[i]);
    }
    rg::init(1, tm);
}
static unsigned responsible(uint64_t tags) // by the documentation: the first which supports all tags
{
    for(unsigned i = 0; i < n; ++i)
        if((tags & ~supported[i]) == 0)
            return i;
    return NS;
}
// as the worker which takes up the task
static bool take_up(rg::Task* t)
{
    t->pre_event.up();
    t->init_graph();
    return t->get_pre_event().notify();
}
template<typename F>
static bool throws(F&& f)
{
    try
    {
        f();
    }
    catch(std::exception const&)
    {
        return true;
    }
    return false;
}
extern "C" void c21_dispatch() // one task, any tags, declared at once or one after another
{
    setup(0);
    uint64_t t1 = sym_u64("tags"), t2 = sym_u64("more tags");
    auto b = rg::emplace_task([] {}).scheduling_tags(Bits(t1)).scheduling_tags(Bits(t2));
    rg::Task* t = b.task;
    unsigned want = responsible(t1 | t2);
    bool refused = throws([&] { b.submit(); });
    __sym_assert(refused == (want == NS), "a task is refused exactly if no scheduler supports its tags");
    for(unsigned i = 0; i < NS; ++i)
        __sym_assert(
            sub[i]->n_emplaced == (i == want) && (i != want || sub[i]->emplaced[0] == t),
            "a submitted task is handed to the first scheduler which supports its tags, and to no other");
    if(!refused)
    {
        take_up(t);
        for(unsigned i = 0; i < NS; ++i)
            __sym_assert(
                sub[i]->n_activated == (i == want) && (i != want || sub[i]->activated[0] == t),
                "a ready task is handed to the first scheduler which supports its tags, and to no other");
        for(unsigned i = 0; i < NS; ++i)
            __sym_assert(sub[i]->n_emplaced == (i == want), "a task is submitted once");
    }
    else
    {
        rg::scheduler::IScheduler& s = *tm;
        __sym_assert(throws([&] { s.activate_task(*t); }), "a task which no scheduler supports is not activated");
        for(unsigned i = 0; i < NS; ++i)
            __sym_assert(sub[i]->n_activated == 0, "a task which no scheduler supports is not activated");
    }
    __sym_cover(want == NS - 1, "last scheduler");
    __sym_cover(want == 0, "first scheduler");
    __sym_cover(refused, "no scheduler");
    __sym_cover(true, "end");
}
// the kind of the dependency between two tasks is decided by the scheduler responsible for the later one
extern "C" void c21_dependency()
{
    setup(1);
    rg::Resource<IOAccess> res;
    uint64_t ta = sym_u64("tags a"), tb = sym_u64("tags b");
    unsigned wa = responsible(ta), wb = responsible(tb);
    __sym_assume(wa != NS && wb != NS);
    auto ba = rg::emplace_task([] {}).scheduling_tags(Bits(ta)).add_resource(res.make_access(IOAccess::write));
    rg::Task* a = ba.task;
    ba.submit();
    auto bb = rg::emplace_task([] {}).scheduling_tags(Bits(tb)).add_resource(res.make_access(IOAccess::write));
    rg::Task* b = bb.task;
    bb.submit();
    take_up(a);
    take_up(b);
    for(unsigned i = 0; i < NS; ++i)
    {
        __sym_assert((sub[i]->n_asked > 0) == (i == wb), "the scheduler of the later task decides the kind of dependency");
        if(sub[i]->n_asked)
            __sym_assert(sub[i]->dep_a == a && sub[i]->dep_b == b, "asked about the two tasks");
    }
    auto activated = [](rg::Task* t)
    {
        unsigned k = 0;
        for(unsigned i = 0; i < NS; ++i)
            for(unsigned j = 0; j < sub[i]->n_activated; ++j)
                k += sub[i]->activated[j] == t;
        return k;
    };
    __sym_assert(activated(a) == 1 && activated(b) == 0, "the later task waits for the start of the earlier one");
    a->get_pre_event().notify(); // execution begins
    __sym_assert(
        activated(b) == (sub[wb]->pre ? 1u : 0u),
        "a task is ready when the earlier one starts, exactly if its scheduler says so");
    a->get_post_event().notify();
    __sym_assert(activated(a) == 1 && activated(b) == 1, "each task is activated once");
    __sym_cover(sub[wb]->pre && wa != wb, "dependency on the start");
    __sym_cover(!sub[wb]->pre && wa != wb, "dependency on the end");
    __sym_cover(true, "end");
}
extern "C" void c21_unsupported_dependency()
{
    setup(0);
    uint64_t tb = sym_u64("tags b");
    auto ba = rg::emplace_task([] {}).scheduling_tags(Bits(sym_u64("tags a")));
    auto bb = rg::emplace_task([] {}).scheduling_tags(Bits(tb));
    rg::Task *a = ba.task, *b = bb.task;
    ba.task = nullptr; // never submitted
    bb.task = nullptr;
    rg::scheduler::IScheduler& s = *tm;
    bool ans = false;
    bool refused = throws([&] { ans = s.task_dependency_type(*a, *b); });
    unsigned wb = responsible(tb);
    __sym_assert(refused == (wb == NS), "exception exactly if no scheduler is responsible");
    __sym_assert(refused || ans == sub[wb]->pre, "the answer of the scheduler of the later task");
    __sym_cover(true, "end");
}
// stealing and waking concern all sub-schedulers
extern "C" void c21_steal_wake()
{
    setup(0);
    rg::scheduler::IScheduler& s = *tm;
    rg::Task* some[NS];
    unsigned have = 0;
    for(unsigned i = 0; i < NS; ++i)
    {
        some[i] = nullptr;
        if(i < n && __sym_concrete(sym_bool("has task")))
        {
            some[i] = rg::emplace_task([] {}).task;
            have++;
        }
        sub[i]->to_steal = some[i];
    }
    rt_become_worker(0);
    for(unsigned k = 0; k <= have; ++k)
    {
        unsigned before = 0, after = 0;
        for(unsigned i = 0; i < NS; ++i)
            before += sub[i]->to_steal != nullptr;
        rg::Task* t = s.steal_task(rt_worker(0));
        for(unsigned i = 0; i < NS; ++i)
            after += sub[i]->to_steal != nullptr;
        __sym_assert((t != nullptr) == (before > 0), "a worker gets a task if any scheduler has one for it");
        __sym_assert(before - after == (t ? 1u : 0u), "no task is lost");
        if(t)
        {
            bool found = false;
            for(unsigned i = 0; i < n; ++i)
                if(some[i] == t)
                {
                    found = true;
                    some[i] = nullptr;
                }
            __sym_assert(found, "every task is handed out once");
        }
    }
    rt_leave_worker();
    rg::scheduler::WakerId id = (rg::scheduler::WakerId) __sym_var("waker", 16);
    bool any = false, asked = false;
    bool r = s.wake(id);
    for(unsigned i = 0; i < n; ++i)
    {
        any |= sub[i]->can_wake;
        asked |= sub[i]->can_wake && sub[i]->n_wake > 0;
        __sym_assert(sub[i]->n_wake <= 1, "a scheduler is asked once");
        __sym_assert(sub[i]->n_wake == 0 || sub[i]->waker == id, "the requested waker is woken up");
    }
    __sym_assert(r == any && asked == any, "a waker is woken up if any scheduler knows it");
    s.wake_all();
    for(unsigned i = 0; i < NS; ++i)
        __sym_assert(sub[i]->n_wake_all == (i < n ? 1u : 0u), "everybody is woken up");
    __sym_cover(have == NS, "three tasks");
    __sym_cover(true, "end");
}
// registration by lists of tags, tasks with lists of tags
extern "C" void c21_lists()
{
    sub[0] = std::make_shared<Sub>();
    sub[1] = std::make_shared<Sub>();
    sub[2] = std::make_shared<Sub>();
    unsigned t[3], u[2];
    for(unsigned& x : t)
        x = sym_range("tag", 6, 64);
    for(unsigned& x : u)
        x = sym_range("required", 6, 64);
    std::shared_ptr<rg::scheduler::IScheduler> s = rg::scheduler::make_tag_match_scheduler()
                                                       .add({t[0]}, sub[0])
                                                       .add({t[1], t[2]}, sub[1])
                                                       .add({}, sub[2]);
    rg::init(1, s);
    bool in0 = u[0] == t[0] && u[1] == t[0];
    bool in1 = (u[0] == t[1] || u[0] == t[2]) && (u[1] == t[1] || u[1] == t[2]);
    unsigned want = in0 ? 0 : in1 ? 1 : NS;
    auto b = rg::emplace_task([] {}).scheduling_tags({u[0], u[1]});
    bool refused = throws([&] { b.submit(); });
    __sym_assert(refused == (want == NS), "a task is refused exactly if no scheduler supports its tags");
    for(unsigned i = 0; i < NS; ++i)
        __sym_assert(sub[i]->n_emplaced == (i == want), "the task is handed to the first scheduler which supports its tags");
    rg::emplace_task([] {}).submit(); // no tags
    __sym_assert(sub[0]->n_emplaced == (want == 0 ? 2 : 1), "a task without tags goes to the first scheduler");
    __sym_cover(want == 1, "two tags");
    __sym_cover(refused, "refused");
    __sym_cover(true, "end");
}
// with real schedulers: tasks which depend on the start of an earlier one, which waits for an event in between
static unsigned first_started, second_ran, first_done;
static rg::Task* ready[MAXT];
static unsigned n_ready;
struct PreScheduler : Sub
{
    void activate_task(rg::Task& t) override
    {
        __sym_assert(n_ready < MAXT, "every task is activated once");
        for(unsigned i = 0; i < n_ready; ++i)
            __sym_assert(ready[i] != &t, "a task is activated once");
        ready[n_ready++] = &t;
    }
};
extern "C" void c21_waiting()
{
    tm = std::make_shared<rg::scheduler::TagMatch<64>>();
    auto s = std::make_shared<PreScheduler>();
    s->pre = sym_bool("pre-event");
    bool pre = __sym_concrete(s->pre);
    tm->add_scheduler(Bits(~0ull), s);
    rg::init(1, tm);
    rg::Resource<IOAccess> res;
    rg::scheduler::EventPtr ev{rg::scheduler::T_EVT_EXT, nullptr, rg::memory::alloc_shared<rg::scheduler::Event>()};
    auto ba = rg::emplace_task(
                  [&]
                  {
                      first_started++;
                      rg::yield(ev);
                      first_done++;
                  })
                  .enable_stack_switching()
                  .add_resource(res.make_access(IOAccess::write));
    rg::Task* a = ba.task;
    ba.submit();
    auto bb = rg::emplace_task(
                  [&]
                  {
                      __sym_assert(pre ? first_started == 1 : first_done == 1, "a task is started after what it waits for");
                      second_ran++;
                      __sym_assert(second_ran == 1, "a task is executed once");
                  })
                  .add_resource(res.make_access(IOAccess::write));
    rg::Task* b = bb.task;
    bb.submit();
    rt_become_worker(0);
    take_up(a);
    bool late = __sym_concrete(sym_bool("late")); // b is taken up before or after a was started
    if(!late)
        take_up(b);
    auto step = [&]
    {
        __sym_assert(n_ready > 0, "a task is ready");
        unsigned i = __sym_concrete(sym_range("next", 2, MAXT));
        __sym_assume(i < n_ready);
        rg::Task* t = ready[__sym_concrete(i)];
        ready[__sym_concrete(i)] = ready[n_ready - 1];
        n_ready--;
        rt_exec(0, t);
    };
    step();
    if(late)
        take_up(b);
    bool b_first = __sym_concrete(sym_bool("second first"));
    if(b_first && n_ready)
        step();
    ev.notify();
    while(n_ready)
        step();
    rt_leave_worker();
    __sym_assert(first_started == 1 && first_done == 1 && second_ran == 1, "every task is executed once");
    __sym_cover(pre, "dependency on the start");
    __sym_cover(true, "end");
}
