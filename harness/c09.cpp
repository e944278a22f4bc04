// C09: the chunked list, every sequence of operations
#include "list.h"
#ifndef CS
#    define CS 2
#endif
#ifndef NOPS
#    define NOPS 5
#endif
using List = rg::ChunkedList<Elem, CS, HeapAlloc>;
static bool live[MAXE];
static unsigned value[MAXE];
static unsigned n_elem = 0;

// iteration visits exactly the live elements below `from`, newest first
template<typename It, typename End>
static void check_iteration(It it, End const& end, unsigned from)
{
    unsigned e = from;
    unsigned steps = 0;
    for(; it != end; ++it)
    {
        __sym_assert(++steps <= MAXE, "iteration ends");
        while(e > 0 && !live[e - 1])
            --e;
        __sym_assert(e > 0, "no removed element is visited, and none twice");
        --e;
        __sym_assert(it->magic == 0x600d, "visited elements are alive");
        __sym_assert((*it).id == e && it->value == value[e], "the live elements are visited newest first");
    }
    while(e > 0 && !live[e - 1])
        --e;
    __sym_assert(e == 0, "every live element is visited");
}
static void check_all(List& l)
{
    check_iteration(l.rbegin(), l.rend(), n_elem);
    check_iteration(l.crbegin(), l.crend(), n_elem);
}
static List::MutBackwardIterator push(List& l, unsigned v)
{
    unsigned id = n_elem;
    live[id] = true;
    value[id] = v;
    auto pos = l.push(Elem(id, v));
    ++n_elem;
    __sym_assert(pos.is_valid() && pos->id == id && pos->value == v, "push returns the position of the new element");
    return pos;
}
static void check_gone(bool iterators_held)
{
    for(unsigned i = 0; i < n_elem; ++i)
        if(live[i])
            __sym_assert(n_made[i] == n_gone[i] + 1, "a live element exists once");
        else if(!iterators_held)
            __sym_assert(n_made[i] == n_gone[i], "a removed element is destroyed");
}
static void end_check()
{
    for(unsigned i = 0; i < n_elem; ++i)
        __sym_assert(n_made[i] == n_gone[i], "every element is destroyed exactly once");
}

// pushes and removals in any order; positions are kept by their users (as tasks do)
extern "C" void c09_remove()
{
    {
        List l(HeapAlloc{});
        check_all(l);
        List::MutBackwardIterator* pos[NOPS] = {};
        for(unsigned op = 0; op < NOPS; ++op)
        {
            unsigned what = __sym_concrete(sym_range("op", 4, NOPS + 1));
            if(what < n_elem && live[what])
            {
                live[what] = false;
                l.remove(*pos[what]);
            }
            else
            {
                __sym_assume(what == NOPS); // push
                auto* p = new List::MutBackwardIterator(push(l, 0));
                pos[n_elem - 1] = p;
            }
            check_all(l);
            for(unsigned k = 0; k < n_elem; ++k)
                if(live[k])
                    check_iteration(*pos[k], l.rend(), k + 1);
            check_gone(true);
        }
        for(unsigned k = 0; k < n_elem; ++k)
            delete pos[k];
        check_all(l);
        check_gone(false);
        __sym_cover(n_elem > CS, "several chunks");
        __sym_cover(n_elem > CS + 1 && !live[0] && live[1], "removed the oldest");
    }
    end_check();
}
// removal through iterators of the list, without keeping positions, and by value
extern "C" void c09_erase()
{
    {
        List l(HeapAlloc{});
        bool removed_two = false;
        for(unsigned op = 0; op < NOPS; ++op)
        {
            unsigned what = __sym_concrete(sym_range("op", 3, 4));
            if(what < 2)
                push(l, what);
            else
            {
                __sym_assume(n_elem > 0);
                unsigned c = 0;
                for(unsigned i = 0; i < n_elem; ++i)
                    if(live[i] && value[i] == what - 2)
                        live[i] = false, ++c;
                removed_two |= c > 1;
                l.erase(Elem(MAXE - 1, what - 2));
            }
            check_all(l);
            check_gone(false);
        }
        __sym_cover(removed_two, "erased two equal elements");
        __sym_cover(n_elem > CS, "several chunks");
    }
    end_check();
}
// an iterator that refers to an element keeps it alive while it is removed, and finds the rest of the list
extern "C" void c09_hold()
{
    {
        List l(HeapAlloc{});
        unsigned n = 1 + __sym_concrete(sym_range("n", 3, NOPS));
        for(unsigned i = 0; i < n; ++i)
            push(l, 0);
        unsigned k = __sym_concrete(sym_range("k", 3, NOPS));
        __sym_assume(k < n);
        auto it = l.rbegin();
        for(unsigned i = n - 1; i > k; --i)
            ++it;
        __sym_assert(it.is_valid() && it->id == k, "iteration reaches the element");
        // remove any subset through other iterators
        for(auto j = l.rbegin(); j != l.rend(); ++j)
            if(__sym_concrete(sym_bool("rm")))
            {
                live[j->id] = false;
                l.remove(j);
            }
        __sym_assert(it->magic == 0x600d && n_made[k] == n_gone[k] + 1, "an element is kept while an iterator refers to it");
        unsigned more = __sym_concrete(sym_range("more", 2, 3));
        for(unsigned i = 0; i < more; ++i)
            push(l, 0);
        {
            auto it2 = it; // continue from here
            if(live[k])
            {
                // an assigned iterator refers to the element as well
                auto it3 = l.rend();
                it3 = it;
                __sym_assert(it3.is_valid() && it3->id == k, "an assigned iterator refers to the same element");
                auto it4 = it3;
                it3 = l.rend();
                __sym_assert(it4->magic == 0x600d && it->magic == 0x600d && n_made[k] == n_gone[k] + 1,
                             "an element is kept while an iterator refers to it");
                if(__sym_concrete(sym_bool("assign_back")))
                    it2 = it4;
            }
            ++it;
            bool was = live[k];
            live[k] = false;
            check_iteration(it, l.rend(), k);
            live[k] = was;
        }
        check_all(l);
        it = l.rend();
        check_gone(false);
        __sym_cover(n > CS && !live[k], "held element removed");
    }
    end_check();
}
// copies hold equal elements and are independent
extern "C" void c09_copy()
{
    {
        List l(HeapAlloc{});
        unsigned n = __sym_concrete(sym_range("n", 3, NOPS + 1));
        for(unsigned i = 0; i < n; ++i)
            push(l, i);
        for(auto j = l.rbegin(); j != l.rend(); ++j)
            if(__sym_concrete(sym_bool("rm")))
            {
                live[j->id] = false;
                l.remove(j);
            }
        List c(HeapAlloc{}, l);
        check_iteration(c.rbegin(), c.rend(), n_elem);
        for(auto j = c.rbegin(); j != c.rend(); ++j)
            c.remove(j);
        __sym_assert(!(c.rbegin() != c.rend()), "the copy is empty");
        check_all(l);
        List m(std::move(l));
        check_iteration(m.rbegin(), m.rend(), n_elem);
    }
    end_check();
}
