// C23: identities of tasks and resources which are created concurrently, all interleavings of single memory accesses
#include "fine.h"
using rg::access::IOAccess;
static constexpr unsigned MAX = 8;
static unsigned n;
static unsigned task_id[MAX], res_id[MAX];
static unsigned n_task, n_res;
static rg::Resource<IOAccess>* keep[MAX]; // alive until the end

static void new_task(rg::Task* t)
{
    __sym_ghost_begin();
    task_id[n_task++] = t->task_id;
    __sym_ghost_end();
}
static void make_task()
{
    auto b = rg::emplace_task([] {});
    new_task(b.task);
    b.submit();
}
static void make_resource()
{
    auto* r = new rg::Resource<IOAccess>();
    __sym_ghost_begin();
    keep[n_res] = r;
    res_id[n_res++] = r->base->id;
    __sym_ghost_end();
}
static void unique()
{
    for(unsigned i = 0; i < n_task; ++i)
        for(unsigned j = 0; j < i; ++j)
            __sym_assert(task_id[i] != task_id[j], "tasks have different ids");
    for(unsigned i = 0; i < n_res; ++i)
        for(unsigned j = 0; j < i; ++j)
            __sym_assert(res_id[i] != res_id[j], "resources have different ids");
}
static void start()
{
    // any number of tasks was created before
    int first = (int) __sym_var("tasks created before", 31);
    __sym_assume(first < 0x7fffff00);
    rg::IDProperty::id_counter().store(first);
    rg::init(2);
}
static void done(unsigned tasks, unsigned resources)
{
    __sym_join();
    __sym_assert(n_task == tasks && n_res == resources, "everything was created");
    unique();
    rt_drain(2);
    __sym_assert(rg::SingletonContext::get().root_space->empty(), "every task has finished");
    unique();
    __sym_cover(true, "end");
}
static void t_2tasks(void* w)
{
    rt_become_worker((unsigned long) w);
    make_task();
    make_task();
    rt_leave_worker();
}
static void t_task(void* w)
{
    rt_become_worker((unsigned long) w);
    make_task();
    rt_leave_worker();
}
static void t_2resources(void*)
{
    make_resource();
    make_resource();
}
static void t_resource(void*)
{
    make_resource();
}
extern "C" void c23_tasks()
{
    start();
    make_task();
    __sym_thread(t_2tasks, (void*) 0);
    __sym_thread(t_task, (void*) 1);
    done(4, 0);
}
extern "C" void c23_resources()
{
    start();
    make_resource();
    __sym_thread(t_2resources, 0);
    __sym_thread(t_2resources, 0);
    done(0, 5);
}
extern "C" void c23_resources3()
{
    start();
    __sym_thread(t_resource, 0);
    __sym_thread(t_resource, 0);
    __sym_thread(t_resource, 0);
    done(0, 3);
}
extern "C" void c23_first() // the very first ones
{
    rg::init(2);
    __sym_thread(
        [](void*)
        {
            make_resource();
            make_task();
        },
        0);
    __sym_thread(
        [](void*)
        {
            make_task();
            make_resource();
        },
        0);
    done(2, 2);
}
// sub-tasks, results and resources created by tasks, one after another; earlier ones have finished or not
extern "C" void c23_sequential()
{
    start();
    for(unsigned i = 0; i < 2; ++i)
    {
        auto b = rg::emplace_task(
            [i]
            {
                auto c = rg::emplace_task([] {});
                new_task(c.task);
                c.submit();
                make_resource();
                return i;
            });
        new_task(b.task);
        auto f = b.submit();
        if(sym_bool("finishes"))
        {
            rt_drain(2);
            __sym_assert(f.get() == i, "result");
        }
        make_resource();
    }
    rt_drain(2);
    make_task();
    done(5, 4);
}
