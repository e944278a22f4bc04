// Stub of boost::context for the symbolic build, on top of the executor's own context switch.
#pragma once
#include <cstddef>
#include <utility>
extern "C"
{
    // create a context that will run fn(arg, from) when switched to; from is the context that switched to it
    void* __sym_ctx_new(void (*fn)(void*, void*), void* arg);
    // switch to a context; returns when somebody switches back, with that context (null if it has ended)
    void* __sym_ctx_switch(void* to);
    // end the current context and switch to another one
    void __sym_ctx_exit(void* to);
    void __sym_fail(char const* msg);
}
namespace boost
{
    namespace context
    {
        struct continuation
        {
            void* ctx = nullptr;
            continuation() = default;
            continuation(void* c) : ctx(c)
            {
            }
            continuation(continuation const&) = delete;
            continuation& operator=(continuation const&) = delete;
            continuation(continuation&& o) : ctx(o.ctx)
            {
                o.ctx = nullptr;
            }
            continuation& operator=(continuation&& o)
            {
                std::swap(ctx, o.ctx);
                return *this;
            }
            ~continuation()
            {
                if(ctx)
                    __sym_fail("a suspended context is destroyed");
            }
            explicit operator bool() const
            {
                return ctx != nullptr;
            }
            continuation resume();
        };
        inline continuation continuation::resume()
        {
            void* to = ctx;
            ctx = nullptr;
            return continuation(__sym_ctx_switch(to));
        }
        template<typename F>
        struct start_record
        {
            F fn;
        };
        template<typename F>
        void context_entry(void* p, void* from)
        {
            auto* r = (start_record<F>*) p;
            void* back;
            {
                F f(std::move(r->fn));
                delete r;
                continuation c = f(continuation(from));
                back = c.ctx;
                c.ctx = nullptr;
            }
            __sym_ctx_exit(back);
        }
        template<typename F>
        continuation callcc(F&& f)
        {
            using D = typename std::decay<F>::type;
            auto* r = new start_record<D>{std::forward<F>(f)};
            continuation c(__sym_ctx_new(&context_entry<D>, r));
            return c.resume();
        }
    } // namespace context
} // namespace boost
