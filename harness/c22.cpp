// C22: tasks which wait for MPI requests. MPI_Testsome reports an arbitrary subset of the pending requests, in arbitrary
// order, with arbitrary statuses.
#include "fine.h"
#include <redGrapes/dispatch/mpi/request_pool.hpp>
using rg::access::IOAccess;
#ifndef NR
#    define NR 3
#endif
static constexpr unsigned MAXR = NR + 1;
static rg::dispatch::mpi::RequestPool* pool;
static MPI_Request handle[MAXR]; 
static bool issued[MAXR], completed[MAXR], resumed[MAXR];
static MPI_Status reported[MAXR];
static unsigned n_requests;
static bool complete_all; // everything pending is reported

static MPI_Status any_status()
{
    MPI_Status s;
    s.count_lo = (int) __sym_var("count", 32);
    s.count_hi_and_cancelled = (int) __sym_var("cancelled", 32);
    s.MPI_SOURCE = (int) __sym_var("source", 32);
    s.MPI_TAG = (int) __sym_var("tag", 32);
    s.MPI_ERROR = (int) __sym_var("error", 32);
    return s;
}
// one request is reported as complete
static void report(MPI_Request* r, MPI_Status* status)
{
    unsigned who = MAXR;
    for(unsigned j = 0; j < n_requests; ++j)
        if(*r == handle[j])
            who = j;
    __sym_assert(who != MAXR && issued[who], "only requests which were passed to the pool are tested");
    __sym_assert(!completed[who], "a completed request is not tested again");
    completed[who] = true;
    reported[who] = any_status();
    *status = reported[who];
    *r = MPI_REQUEST_NULL;
}
extern "C" int MPI_Testsome(int incount, MPI_Request requests[], int* outcount, int indices[], MPI_Status statuses[])
{
    __sym_ghost_begin();
    int active = 0, out = 0;
    bool is_active[MAXR];
    __sym_assert(incount >= 0 && incount <= (int) MAXR, "as many requests as are pending");
    for(int i = 0; i < incount; ++i)
    {
        is_active[i] = requests[i] != MPI_REQUEST_NULL;
        active += is_active[i];
    }
    if(!active)
        *outcount = MPI_UNDEFINED;
    else
    {
        unsigned n_done = complete_all ? active : __sym_concrete(sym_range("completed", 3, active + 1));
        for(unsigned k = 0; k < n_done; ++k)
        {
            unsigned idx = k;
            if(!complete_all || incount > 1)
                idx = __sym_concrete(sym_range("index", 3, incount));
            __sym_assume(is_active[idx]); // each is reported once
            is_active[idx] = false;
            report(&requests[idx], &statuses[out]);
            indices[out++] = (int) idx;
        }
        *outcount = out;
    }
    __sym_ghost_end();
    return MPI_SUCCESS;
}
extern "C" int MPI_Test(MPI_Request* request, int* flag, MPI_Status* status)
{
    __sym_ghost_begin();
    *flag = 1;
    if(*request != MPI_REQUEST_NULL)
    {
        *flag = complete_all || __sym_concrete(sym_bool("completed")) ? 1 : 0;
        if(*flag)
            report(request, status);
    }
    __sym_ghost_end();
    return MPI_SUCCESS;
}
static bool same(MPI_Status const& a, MPI_Status const& b)
{
    return a.count_lo == b.count_lo && a.count_hi_and_cancelled == b.count_hi_and_cancelled && a.MPI_SOURCE == b.MPI_SOURCE
           && a.MPI_TAG == b.MPI_TAG && a.MPI_ERROR == b.MPI_ERROR;
}
static unsigned new_request()
{
    unsigned i = n_requests++;
    handle[i] = (MPI_Request) (i + 77); // opaque
    return i;
}
static void communicate(unsigned i)
{
    __sym_ghost_begin();
    issued[i] = true;
    __sym_ghost_end();
    MPI_Status s = pool->get_status(handle[i]);
    __sym_ghost_begin();
    __sym_assert(!resumed[i], "a waiting task is resumed once");
    resumed[i] = true;
    __sym_assert(completed[i], "a task is resumed only after its request is complete");
    __sym_assert(same(s, reported[i]), "a task receives the status of its own request");
    __sym_ghost_end();
}
static void start(unsigned workers)
{
    rg::init(workers);
    pool = new rg::dispatch::mpi::RequestPool();
}
static void work(unsigned workers)
{
    rt_drain(workers);
    for(unsigned i = 0; i < n_requests; ++i)
        __sym_assert(!completed[i] || resumed[i], "a task is resumed when its request is complete");
}
static void end(unsigned workers)
{
    complete_all = true;
    rt_become_worker(0);
    pool->poll();
    rt_leave_worker();
    work(workers);
    for(unsigned i = 0; i < n_requests; ++i)
        __sym_assert(resumed[i], "every task is resumed when its request is complete");
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    delete pool;
    __sym_cover(true, "end");
}
extern "C" void c22_polls() // NR tasks wait; two polls report any subsets, a third one the rest
{
    start(2);
    pool->poll(); // nothing to do
    for(unsigned i = 0; i < NR; ++i)
    {
        unsigned r = new_request();
        rg::emplace_task([r] { communicate(r); }).enable_stack_switching().submit();
    }
    work(2);
    for(unsigned k = 0; k < 2; ++k)
    {
        rt_become_worker(0);
        pool->poll();
        rt_leave_worker();
        work(2);
        if(k == 0 && completed[1] && !completed[2])
            __sym_cover(true, "in the middle");
    }
    end(2);
}
extern "C" void c22_successive() // a resumed task waits for another request; others are still pending
{
    start(1);
    for(unsigned i = 0; i < NR; ++i)
    {
        unsigned r = new_request();
        unsigned r2 = i == 0 ? new_request() : 0;
        rg::emplace_task(
            [r, r2]
            {
                communicate(r);
                if(r2)
                    communicate(r2);
            })
            .enable_stack_switching()
            .submit();
    }
    work(1);
    rt_become_worker(0);
    pool->poll();
    rt_leave_worker();
    work(1);
    complete_all = true;
    rt_become_worker(0);
    pool->poll();
    rt_leave_worker();
    work(1);
    end(1);
}
// requests are added while others are tested
static void t_task0(void* p)
{
    rt_become_worker(0);
    rt_exec(0, (rg::Task*) p);
    rt_leave_worker();
}
static void t_poll(void*)
{
    rt_become_worker(1);
    pool->poll();
    rt_leave_worker();
}
static void t_poll2(void*)
{
    rt_become_worker(1);
    pool->poll();
    while(rg::Task* t = rt_worker(1).gather_task())
        rt_exec(1, t);
    rt_leave_worker();
}
static void concurrent(unsigned before, void (*poller)(void*))
{
    start(2);
    for(unsigned i = 0; i < before; ++i)
    {
        unsigned r = new_request();
        rg::emplace_task([r] { communicate(r); }).enable_stack_switching().submit();
    }
    work(2);
    unsigned r = new_request();
    rg::emplace_task([r] { communicate(r); }).enable_stack_switching().submit();
    rg::Task* t = rt_init_ready(before % 2);
    __sym_thread(t_task0, t);
    __sym_thread(poller, 0);
    __sym_join();
    work(2);
    end(2);
}
extern "C" void c22_concurrent()
{
    concurrent(0, t_poll2);
}
extern "C" void c22_concurrent1()
{
    concurrent(1, t_poll);
}
extern "C" void c22_two_polls() // two threads poll at the same time
{
    start(2);
    for(unsigned i = 0; i < 2; ++i)
    {
        unsigned r = new_request();
        rg::emplace_task([r] { communicate(r); }).enable_stack_switching().submit();
    }
    work(2);
    __sym_thread(
        [](void*)
        {
            rt_become_worker(0);
            pool->poll();
            rt_leave_worker();
        },
        0);
    __sym_thread(t_poll, 0);
    __sym_join();
    work(2);
    end(2);
}
