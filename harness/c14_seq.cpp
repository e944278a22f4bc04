#include "rt.h"
extern "C" void harness()
{
    rg::init(1);
    __sym_print("started", rt_n_threads);
    int x=0;
    {
    rg::IOResource<int> a;
    rg::emplace_task([&x](auto a){ x++; }, a.write());
    }
    auto& w = rg::SingletonContext::get().worker_pool->get_worker(0);
    rg::SingletonContext::get().current_worker = w.shared_from_this();
    while(rg::Task* t = w.gather_task()) rg::SingletonContext::get().execute_task(*t);
    __sym_assert(x==1,"ran once");
    __sym_assert(rg::SingletonContext::get().root_space->empty(),"all done");
}
