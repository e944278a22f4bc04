// C10: the chunked list under concurrent push, remove and iteration
#include "list.h"
#ifndef CS
#    define CS 2
#endif
using List = rg::ChunkedList<Elem, CS, HeapAlloc>;
static List* l;
static List::MutBackwardIterator* pos[MAXE];
static bool pushed[MAXE], rm_started[MAXE], rm_done[MAXE];
static unsigned val[MAXE]; // arbitrary values of the elements
static void push(unsigned id)
{
    auto* p = new List::MutBackwardIterator(l->push(Elem(id, val[id])));
    __sym_ghost_begin();
    __sym_assert(p->is_valid() && (*p)->id == id && (*p)->value == val[id], "push returns the position of the new element");
    pos[id] = p;
    pushed[id] = true;
    __sym_ghost_end();
}
static void remove(unsigned id, bool drop = true)
{
    __sym_ghost_begin();
    rm_started[id] = true;
    __sym_ghost_end();
    l->remove(*pos[id]);
    __sym_ghost_begin();
    rm_done[id] = true;
    __sym_ghost_end();
    if(drop)
    {
        delete pos[id];
        pos[id] = nullptr;
    }
}
static void check_alive(Elem const& e)
{
    __sym_ghost_begin();
    __sym_assert(e.magic == 0x600d, "an element is not destroyed while an iterator refers to it");
    __sym_assert(e.value == val[e.id], "the element has the value which was pushed");
    __sym_ghost_end();
}
static void iterate()
{
    unsigned seen[MAXE] = {};
    bool must[MAXE], never[MAXE];
    __sym_ghost_begin();
    for(unsigned i = 0; i < MAXE; ++i)
        must[i] = pushed[i] && !rm_started[i], never[i] = rm_done[i];
    __sym_ghost_end();
    for(auto it = l->rbegin(); it != l->rend(); ++it)
    {
        check_alive(*it);
        unsigned id = it->id;
        __sym_assert(++seen[id] == 1, "no element is visited twice");
        __sym_assert(!never[id], "an element is not visited after its removal");
    }
    __sym_ghost_begin();
    for(unsigned i = 0; i < MAXE; ++i)
        __sym_assert(!must[i] || rm_started[i] || seen[i] == 1, "every pushed element is visited");
    __sym_ghost_end();
}
static void final_check()
{
    unsigned live = 0;
    for(unsigned i = 0; i < MAXE; ++i)
        live += pushed[i] && !rm_done[i];
    unsigned n = 0;
    for(auto it = l->rbegin(); it != l->rend(); ++it)
    {
        __sym_assert(++n <= MAXE, "iteration ends");
        __sym_assert(pushed[it->id] && !rm_done[it->id], "only live elements remain");
        check_alive(*it);
    }
    __sym_assert(n == live, "no element is lost or duplicated");
    for(unsigned i = 0; i < MAXE; ++i)
        if(pos[i])
            delete pos[i], pos[i] = nullptr;
    for(unsigned i = 0; i < MAXE; ++i)
        if(pushed[i])
            __sym_assert(n_made[i] == n_gone[i] + (rm_done[i] ? 0 : 1), "a removed element is destroyed exactly once");
    delete l;
    for(unsigned i = 0; i < MAXE; ++i)
        __sym_assert(n_made[i] == n_gone[i], "every element is destroyed exactly once");
}
static unsigned which(unsigned n) // one of the first n elements
{
    return __sym_concrete(sym_range("which", 4, n));
}
static void start(unsigned n)
{
    for(unsigned i = 0; i < MAXE; ++i)
        val[i] = __sym_var("value", 32);
    // erase() removes by value
    for(unsigned i = 0; i < 12; ++i)
        for(unsigned j = 0; j < i; ++j)
            __sym_assume(val[i] != val[j]);
    l = new List(HeapAlloc{});
    for(unsigned i = 0; i < n; ++i)
        push(i);
}
static void t_push8(void*) { push(8); }
static void t_push9(void*) { push(9); }
static void t_push2(void*) { push(8); push(10); }
static void t_pushrm(void*) { push(8); remove(8); }
static void t_remove(void* p) { remove((unsigned long) p); }
static void t_iterate(void*) { iterate(); }
static void t_erase(void* p)
{
    unsigned id = (unsigned long) p;
    __sym_ghost_begin();
    rm_started[id] = true;
    __sym_ghost_end();
    l->erase(Elem(id, val[id]));
    __sym_ghost_begin();
    rm_done[id] = true;
    __sym_ghost_end();
}
static void go()
{
    __sym_join();
    final_check();
    __sym_cover(true, "end");
}
#ifndef N0
#    define N0 1
#endif
static unsigned ra, rb;
static void two_removals(bool fixed = false)
{
    unsigned a = fixed ? N0 - 2 : which(N0), b = fixed ? N0 - 1 : which(N0);
    __sym_assume(a < b);
    ra = a, rb = b;
    __sym_thread(t_remove, (void*) (unsigned long) a);
    __sym_thread(t_remove, (void*) (unsigned long) b);
}
extern "C" void c10_push_push() { start(N0); __sym_thread(t_push8, 0); __sym_thread(t_push9, 0); go(); }
extern "C" void c10_push_iterate() { start(N0); __sym_thread(t_push8, 0); __sym_thread(t_iterate, 0); go(); }
extern "C" void c10_push2_iterate() { start(N0); __sym_thread(t_push2, 0); __sym_thread(t_iterate, 0); go(); }
extern "C" void c10_push_remove() { start(N0); __sym_thread(t_push8, 0); __sym_thread(t_remove, (void*) (unsigned long) which(N0)); go(); }
extern "C" void c10_pushrm_push() { start(N0); __sym_thread(t_pushrm, 0); __sym_thread(t_push9, 0); go(); }
extern "C" void c10_pushrm_iterate() { start(N0); __sym_thread(t_pushrm, 0); __sym_thread(t_iterate, 0); go(); }
extern "C" void c10_remove_iterate() { start(N0); __sym_thread(t_remove, (void*) (unsigned long) which(N0)); __sym_thread(t_iterate, 0); go(); }
extern "C" void c10_remove_remove()
{
    start(N0);
    two_removals();
    go();
    __sym_cover(ra == 0 && rb == 1, "the first two");
    __sym_cover(ra == 0 && rb == N0 - 1, "the first and the last");
}
extern "C" void c10_erase_iterate() { start(N0); __sym_thread(t_erase, (void*) (unsigned long) which(N0)); __sym_thread(t_iterate, 0); go(); }
extern "C" void c10_push_remove_iterate() { start(N0); __sym_thread(t_push8, 0); __sym_thread(t_remove, (void*) (unsigned long) which(N0)); __sym_thread(t_iterate, 0); go(); }
extern "C" void c10_push_push_iterate() { start(N0); __sym_thread(t_push8, 0); __sym_thread(t_push9, 0); __sym_thread(t_iterate, 0); go(); }
extern "C" void c10_remove_remove_iterate() { start(N0); two_removals(N0 > 2); __sym_thread(t_iterate, 0); go(); }
// a chunk in the middle has been emptied: iterators unlink it
extern "C" void c10_unlink()
{
    start(3 * CS);
    for(unsigned i = CS; i < 2 * CS; ++i)
        remove(i);
    __sym_thread(t_iterate, 0);
    __sym_thread(t_iterate, 0);
    go();
}
extern "C" void c10_remove_unlink()
{
    start(3 * CS);
    for(unsigned i = CS + 1; i < 2 * CS; ++i)
        remove(i);
    __sym_thread(t_remove, (void*) CS);
    __sym_thread(t_iterate, 0);
    __sym_thread(t_iterate, 0);
    go();
}
static void t_rm_iterate(void* p)
{
    remove((unsigned long) p);
    iterate();
}
extern "C" void c10_unlink_again()
{
    start(4 * CS);
    for(unsigned i = 2 * CS; i < 3 * CS; ++i)
        remove(i);
    for(unsigned i = CS + 1; i < 2 * CS; ++i)
        remove(i);
    __sym_thread(t_rm_iterate, (void*) CS);
    __sym_thread(t_iterate, 0);
    go();
}
