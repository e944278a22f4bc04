// A chunked list of tracked elements on top of the heap.
#pragma once
#include "sym.h"
#include <redGrapes/redGrapes.hpp>
namespace rg = redGrapes;
struct HeapAlloc
{
    rg::memory::Block allocate(size_t n) const
    {
        return rg::memory::Block{(uintptr_t) malloc(n), n};
    }
    void deallocate(rg::memory::Block b) const
    {
        free((void*) b.ptr);
    }
};
static constexpr unsigned MAXE = 16;
static unsigned n_made[MAXE], n_gone[MAXE]; // instances of each element constructed / destroyed
struct Elem
{
    alignas(8) unsigned id;
    unsigned value;
    unsigned magic = 0x600d;
    Elem(unsigned id, unsigned value) : id(id), value(value)
    {
        n_made[id]++;
    }
    Elem(Elem const& o) : id(o.id), value(o.value)
    {
        __sym_assert(o.magic == 0x600d, "only constructed elements are copied");
        n_made[id]++;
    }
    Elem& operator=(Elem const& o)
    {
        __sym_assert(magic == 0x600d, "only constructed elements are assigned to");
        n_gone[id]++;
        id = o.id, value = o.value;
        n_made[id]++;
        return *this;
    }
    ~Elem()
    {
        __sym_assert(magic == 0x600d, "only constructed elements are destroyed, and only once");
        magic = 0xdead;
        n_gone[id]++;
    }
    bool operator==(Elem const& o) const
    {
        return value == o.value;
    }
};
