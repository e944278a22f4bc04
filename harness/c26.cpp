// C26: the accesses of a task are exactly those declared for it, and resources list their users
#include "rt.h"
#include <redGrapes/resource/fieldresource.hpp>
#include <functional>
using rg::access::IOAccess;
#ifndef ND
#    define ND 3
#endif
static rg::Resource<IOAccess>* res[2];
static unsigned r_of[ND], mode_of[ND]; // the declared accesses
static unsigned n_decl;

static rg::ResourceAccess declared(unsigned i)
{
    return res[r_of[i]]->make_access(IOAccess((IOAccess::Mode) mode_of[i]));
}
static void choose()
{
    for(unsigned i = 0; i < ND; ++i)
    {
        r_of[i] = __sym_concrete(__sym_var("resource", 1));
        mode_of[i] = sym_range("mode", 2, 4);
    }
}
static unsigned users_of(unsigned r, rg::Task* t)
{
    unsigned n = 0;
    auto& users = res[r]->base->users;
    for(auto it = users.rbegin(); it != users.rend(); ++it)
        n += *it == t;
    return n;
}
// every declared access occurs in the task as often as it was declared, and nothing else does
static void check_accesses(rg::Task& t, unsigned n)
{
    unsigned total = 0, cnt[2][4] = {}, want[2][4] = {};
    for(auto it = t.access_list.rbegin(); it != t.access_list.rend(); ++it)
    {
        ++total;
        for(unsigned r = 0; r < 2; ++r)
            for(unsigned m = 0; m < 4; ++m)
                cnt[r][m] += *it == res[r]->make_access(IOAccess((IOAccess::Mode) m)) ? 1 : 0;
    }
    for(unsigned i = 0; i < n; ++i)
        for(unsigned r = 0; r < 2; ++r)
            for(unsigned m = 0; m < 4; ++m)
                want[r][m] += r_of[i] == r && mode_of[i] == m ? 1 : 0;
    __sym_assert(total == n, "a task has as many accesses as were declared");
    for(unsigned r = 0; r < 2; ++r)
        for(unsigned m = 0; m < 4; ++m)
            __sym_assert(cnt[r][m] == want[r][m], "a task has exactly the declared accesses");
}
static void check_users(rg::Task& t, unsigned n, bool submitted)
{
    for(unsigned r = 0; r < 2; ++r)
    {
        bool used = false;
        for(unsigned i = 0; i < n; ++i)
            used |= r_of[i] == r;
        __sym_assert(users_of(r, &t) == (used && submitted ? 1 : 0), "a resource lists exactly the unfinished tasks using it");
    }
}
static unsigned ran = 0;
static void become_worker()
{
    auto& c = rg::SingletonContext::get();
    auto& w = c.worker_pool->get_worker(0);
    c.current_worker = w.shared_from_this();
    c.current_waker_id = w.get_waker_id();
    c.current_arena = w.get_worker_id();
}
static void drain()
{
    auto& c = rg::SingletonContext::get();
    auto& w = c.worker_pool->get_worker(0);
    while(rg::Task* t = w.gather_task())
        c.execute_task(*t);
}
// submits the built task, follows it through its life
template<typename B>
static void follow(B& b, unsigned n)
{
    rg::Task* t = b.task;
    check_accesses(*t, n);
    check_users(*t, n, false);
    b.submit();
    check_accesses(*t, n);
    check_users(*t, n, true);
    become_worker();
    drain();
    __sym_assert(ran == 1, "the task is executed once");
    for(unsigned r = 0; r < 2; ++r)
    {
        unsigned users = 0;
        for(auto it = res[r]->base->users.rbegin(); it != res[r]->base->users.rend(); ++it)
            ++users;
        __sym_assert(users == 0, "a finished task is not a user of any resource");
    }
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "the task has finished");
    __sym_cover(true, "end");
}
static void start()
{
    rg::init(1);
    for(unsigned r = 0; r < 2; ++r)
        res[r] = new rg::Resource<IOAccess>();
    choose();
}
static void body(rg::ResourceAccess = *(rg::ResourceAccess*) nullptr)
{
    ++ran;
}
extern "C" void c26_args0() { start(); auto b = rg::emplace_task([] { ran++; }); follow(b, 0); }
extern "C" void c26_args1() { start(); auto b = rg::emplace_task([](rg::ResourceAccess) { ran++; }, declared(0)); follow(b, 1); }
extern "C" void c26_args2() { start(); auto b = rg::emplace_task([](rg::ResourceAccess, rg::ResourceAccess) { ran++; }, declared(0), declared(1)); follow(b, 2); }
extern "C" void c26_args3() { start(); auto b = rg::emplace_task([](rg::ResourceAccess, rg::ResourceAccess, rg::ResourceAccess) { ran++; }, declared(0), declared(1), declared(2)); follow(b, 3); }
extern "C" void c26_add()
{
    start();
    unsigned n = __sym_concrete(sym_range("n", 2, ND + 1));
    auto b = rg::emplace_task([] { ran++; });
    for(unsigned i = 0; i < n; ++i)
        b.add_resource(declared(i));
    follow(b, n);
}
extern "C" void c26_list()
{
    start();
    auto b = rg::emplace_task([] { ran++; });
    b.resources({declared(0), declared(1), declared(2)});
    follow(b, 3);
}
extern "C" void c26_mixed() // argument, then a list, then one more
{
    start();
    auto b = rg::emplace_task([](rg::ResourceAccess) { ran++; }, declared(0));
    b.resources({declared(1)}).add_resource(declared(2));
    follow(b, 3);
}
// guards of resources as arguments
extern "C" void c26_guards()
{
    rg::init(1);
    rg::IOResource<int> a, c;
    res[0] = new rg::Resource<IOAccess>(a);
    res[1] = new rg::Resource<IOAccess>(c);
    r_of[0] = 0, mode_of[0] = IOAccess::read;
    r_of[1] = 1, mode_of[1] = IOAccess::write;
    r_of[2] = 0, mode_of[2] = IOAccess::write;
    auto b = rg::emplace_task([](auto, auto, auto) { ran++; }, a.read(), c.write(), a.write());
    follow(b, 3);
}
// references to guards as arguments
extern "C" void c26_named()
{
    rg::init(1);
    rg::IOResource<int> a, c;
    res[0] = new rg::Resource<IOAccess>(a);
    res[1] = new rg::Resource<IOAccess>(c);
    r_of[0] = 0, mode_of[0] = IOAccess::read;
    r_of[1] = 1, mode_of[1] = IOAccess::write;
    r_of[2] = 0, mode_of[2] = IOAccess::write;
    auto ar = a.read();
    auto const cw = c.write();
    auto aw = a.write();
    auto b = rg::emplace_task([](auto&&, auto&&, auto&&) { ran++; }, std::ref(ar), std::cref(cw), std::ref(aw));
    follow(b, 3);
}
// accesses of other kinds of guards
extern "C" void c26_field()
{
    rg::init(1);
    rg::FieldResource<std::vector<int>> f(new std::vector<int>(8));
    rg::IOResource<int> c;
    size_t lo = sym_range("lo", 4, 8), hi = sym_range("hi", 4, 9);
    __sym_assume(lo < hi);
    using FA = rg::access::FieldAccess<1>;
    auto area = [](size_t l, size_t h) { return rg::access::AreaAccess(std::array<size_t, 2>{l, h}); };
    auto whole = f.write().operator rg::ResourceAccess();
    auto w = f.write().area({lo}, {hi});
    auto r = f.read();
    rg::ResourceAccess want[3] = {w, r, c.write()};
    auto b = rg::emplace_task([](auto&&, auto&&, auto&&) { ran++; }, f.write().area({lo}, {hi}), f.read(), c.write());
    rg::Task* t = b.task;
    unsigned n = 0, cnt[3] = {}, wholes = 0;
    for(auto it = t->access_list.rbegin(); it != t->access_list.rend(); ++it)
    {
        ++n;
        for(unsigned i = 0; i < 3; ++i)
            cnt[i] += *it == want[i] ? 1 : 0;
        wholes += *it == whole ? 1 : 0;
    }
    __sym_assert(n == 3 && cnt[0] == 1 && cnt[1] == 1 && cnt[2] == 1, "a task has exactly the declared accesses");
    __sym_assert(wholes == 0, "an access is not widened");
    b.submit();
    become_worker();
    drain();
    __sym_assert(ran == 1, "the task is executed once");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "the task has finished");
    __sym_cover(true, "end");
}
// more accesses than fit into one chunk of the lists
extern "C" void c26_many()
{
    rg::init(1);
    for(unsigned r = 0; r < 2; ++r)
        res[r] = new rg::Resource<IOAccess>();
    for(unsigned i = 0; i < ND; ++i)
        r_of[i] = i % 2, mode_of[i] = sym_range("mode", 2, 4);
    auto b = rg::emplace_task([] { ran++; });
    for(unsigned i = 0; i < ND; ++i)
        b.add_resource(declared(i));
    follow(b, ND);
}
