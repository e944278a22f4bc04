// Stub of moodycamel::ConcurrentQueue for the symbolic build, by its documented contract: a queue in which every
// enqueued element is dequeued at most once, elements of one producer in order; operations are atomic here and the
// order is globally first-in first-out.
#pragma once
#include "sym.h"

#include <cstddef>
#include <limits>
namespace moodycamel
{
    namespace details
    {
        template<typename T>
        struct const_numeric_max
        {
            static const T value = std::numeric_limits<T>::max();
        };
    } // namespace details
    struct ConcurrentQueueDefaultTraits
    {
    };
    template<typename T, typename Traits = ConcurrentQueueDefaultTraits>
    struct ConcurrentQueue
    {
        static constexpr unsigned CAP = 8;
        T items[CAP];
        unsigned head = 0, tail = 0;

        ConcurrentQueue(size_t = 0)
        {
        }
        bool enqueue(T const& x)
        {
            __sym_atomic_begin();
            unsigned t = tail;
            __sym_assert(t < CAP, "bound of the queue stub (not a property of the code under test)");
            items[t] = x;
            tail = t + 1;
            __sym_atomic_end();
            return true;
        }
        bool try_dequeue(T& x)
        {
            __sym_atomic_begin();
            unsigned h = head;
            bool r = h < tail;
            if(r)
            {
                x = items[h];
                head = h + 1;
            }
            __sym_atomic_end();
            return r;
        }
        size_t size_approx() const
        {
            return tail - head;
        }
    };
} // namespace moodycamel
