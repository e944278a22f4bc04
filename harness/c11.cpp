// C11: the condition variable of workers and the main thread, and the spin lock
#include "sym.h"
#include <redGrapes/sync/cv.cpp>
#include <redGrapes/sync/spinlock.hpp>
namespace rg = redGrapes;
#ifndef MAXT
#    define MAXT 2
#endif
static rg::CondVar* cv;
static unsigned started, returned, awoken; // notifications begun; waits returned; notifications which returned true
static std::atomic<bool> flag[4];
static std::atomic<unsigned> round_no;

static bool notify()
{
    __sym_ghost_begin();
    started++;
    __sym_ghost_end();
    bool w = cv->notify();
    __sym_ghost_begin();
    if(w)
        awoken++;
    __sym_ghost_end();
    return w;
}
static void wait()
{
    cv->wait();
    __sym_ghost_begin();
    returned++;
    __sym_assert(returned <= started, "a wait returns only after a notification");
    __sym_ghost_end();
}
// producers set a condition and notify; the waiter waits until all conditions hold
static void t_produce(void* p)
{
    flag[(unsigned long) p] = true;
    notify();
}
static void t_consume(void* p)
{
    unsigned long n = (unsigned long) p;
    for(unsigned i = 0; i < n; ++i)
        while(!flag[i])
            wait();
}
static void t_wait1(void*)
{
    wait();
}
static void t_wait2(void*)
{
    wait();
    round_no = 1;
    wait();
    round_no = 2;
}
static void t_notify(void*)
{
    notify();
}
static void t_notify_rounds(void*)
{
    notify();
    while(round_no != 1)
        ;
    notify();
}
static void start()
{
    cv = new rg::CondVar((unsigned) __sym_concrete(sym_range("timeout", 4, MAXT + 1)));
}
static void go()
{
    __sym_join();
    __sym_assert(awoken >= 1, "a notification tells that it ended the waiting state");
    __sym_cover(true, "end");
}
extern "C" void c11_wait_notify() { start(); __sym_thread(t_wait1, 0); __sym_thread(t_notify, 0); go(); __sym_assert(awoken == 1, "the only notification tells that it ended the waiting state"); }
extern "C" void c11_wait_notify_notify() { start(); __sym_thread(t_wait1, 0); __sym_thread(t_notify, 0); __sym_thread(t_notify, 0); go(); }
extern "C" void c11_rounds() { start(); __sym_thread(t_wait2, 0); __sym_thread(t_notify_rounds, 0); go(); __sym_assert(returned == 2, "every round is notified"); }
extern "C" void c11_consume1() { start(); __sym_thread(t_consume, (void*) 1); __sym_thread(t_produce, (void*) 0); go(); __sym_cover(returned == 0, "notified before the wait"); __sym_cover(returned == 1, "notified after the wait began"); }
extern "C" void c11_consume2() { start(); __sym_thread(t_consume, (void*) 2); __sym_thread(t_produce, (void*) 0); __sym_thread(t_produce, (void*) 1); go(); }
// a notification before the wait is remembered
extern "C" void c11_before()
{
    start();
    bool twice = sym_bool("twice");
    __sym_assert(notify(), "the first notification ends the waiting state");
    if(twice)
        __sym_assert(!notify(), "further notifications change nothing");
    wait();
    __sym_assert(notify(), "a wait consumes the notification");
    wait();
    __sym_cover(true, "end");
}

// ---- spin lock
static rg::SpinLock* sl;
static unsigned inside, entered, counter;
static void critical()
{
    sl->lock();
    __sym_ghost_begin();
    __sym_assert(inside == 0, "one thread at a time is inside the spin lock");
    inside = 1;
    __sym_ghost_end();
    counter = counter + 1;
    __sym_ghost_begin();
    inside = 0;
    entered++;
    __sym_ghost_end();
    sl->unlock();
}
static void t_crit1(void*) { critical(); }
static void t_crit2(void*) { critical(); critical(); }
static void sgo(unsigned n)
{
    __sym_join();
    __sym_assert(entered == n && counter == n, "every thread enters");
    __sym_cover(true, "end");
}
extern "C" void c11_spin2() { sl = new rg::SpinLock; __sym_thread(t_crit2, 0); __sym_thread(t_crit2, 0); sgo(4); }
extern "C" void c11_spin3() { sl = new rg::SpinLock; __sym_thread(t_crit1, 0); __sym_thread(t_crit1, 0); __sym_thread(t_crit1, 0); sgo(3); }
