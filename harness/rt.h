// The whole runtime in one translation unit, with small container sizes (stated bounds), and worker threads
// whose start is recorded instead of performed, so that the harness decides who runs when.
#pragma once
#include "sym.h"
#ifndef REDGRAPES_RUL_CHUNKSIZE
#    define REDGRAPES_RUL_CHUNKSIZE 8
#endif
#ifndef REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE
#    define REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE 4
#endif
#ifndef REDGRAPES_CONDVAR_TIMEOUT
#    define REDGRAPES_CONDVAR_TIMEOUT 1
#endif
#include <redGrapes/dispatch/thread/cpuset.cpp>
#include <redGrapes/dispatch/thread/execute.cpp>
#include <redGrapes/dispatch/thread/worker.cpp>
#include <redGrapes/dispatch/thread/worker_pool.cpp>
#include <redGrapes/memory/allocator.cpp>
#include <redGrapes/memory/bump_allocator.cpp>
#include <redGrapes/redGrapes.cpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/resource/resource.cpp>
#include <redGrapes/resource/resource_user.cpp>
#include <redGrapes/scheduler/default_scheduler.cpp>
#include <redGrapes/scheduler/event.cpp>
#include <redGrapes/scheduler/event_ptr.cpp>
#include <redGrapes/sync/cv.cpp>
#include <redGrapes/task/property/graph.cpp>
#include <redGrapes/task/queue.cpp>
#include <redGrapes/task/task_space.cpp>
#include <redGrapes/util/trace.cpp>

namespace rg = redGrapes;

static constexpr unsigned RT_MAX_THREADS = 6;
static std::thread::_State* rt_thread_state[RT_MAX_THREADS];
static std::atomic<bool> rt_thread_done[RT_MAX_THREADS];
static unsigned rt_n_threads = 0;

#ifndef RT_JOIN_WAIT
#    define RT_JOIN_WAIT
#endif
namespace std
{
    void thread::_M_start_thread(_State_ptr p, void (*)())
    {
        rt_thread_state[rt_n_threads] = p.release();
        *(unsigned long*) &_M_id = ++rt_n_threads;
    }
    void thread::join()
    {
        unsigned long i = *(unsigned long*) &_M_id;
        while(!rt_thread_done[i - 1].load())
            RT_JOIN_WAIT;
        *(unsigned long*) &_M_id = 0;
    }
    thread::_State::~_State()
    {
    }
    unsigned thread::hardware_concurrency() noexcept
    {
        return 2;
    }
} // namespace std

static void rt_run_thread(void* p)
{
    unsigned long i = (unsigned long) p;
    rt_thread_state[i]->_M_run();
    rt_thread_done[i].store(true);
}
