// C05: field guards, any indices and areas
#include "rt.h"
#include <redGrapes/resource/fieldresource.hpp>
// containers of unlimited extent which record the accessed index
template<size_t D>
struct Grid
{
    mutable std::array<size_t, D> got;
    mutable unsigned n = 0;
    int item = 0;
};
namespace redGrapes
{
    namespace trait
    {
        template<size_t D>
        struct Field<Grid<D>>
        {
            using Item = int;
            static constexpr size_t dim = D;
            static int& get(Grid<D>& g, std::array<size_t, D> i)
            {
                g.got = i;
                g.n++;
                return g.item;
            }
        };
    } // namespace trait
} // namespace redGrapes

template<size_t D>
struct Box
{
    std::array<size_t, D> lo, hi;
    bool contains(std::array<size_t, D> i) const
    {
        bool r = true;
        for(size_t d = 0; d < D; ++d)
            r = r && lo[d] <= i[d] && i[d] < hi[d];
        return r;
    }
    bool covers(Box const& o) const
    {
        bool r = true;
        for(size_t d = 0; d < D; ++d)
            r = r && lo[d] <= o.lo[d] && o.hi[d] <= hi[d];
        return r;
    }
};
template<size_t D>
static std::array<size_t, D> index(char const* n)
{
    std::array<size_t, D> i;
    for(size_t d = 0; d < D; ++d)
        i[d] = sym_u64(n);
    return i;
}
template<size_t D>
static Box<D> box(char const* n)
{
    Box<D> b;
    for(size_t d = 0; d < D; ++d)
    {
        b.lo[d] = sym_u64(n);
        b.hi[d] = sym_u64(n);
        __sym_assume(b.lo[d] < b.hi[d]);
    }
    return b;
}

// the reported access is the given mode on exactly the box
template<size_t D, typename G>
static void check_access(G const& g, rg::ResourceBase const* r, rg::access::IOAccess::Mode mode, Box<D> const& b)
{
    rg::ResourceAccess a = g;
    __sym_assert(a.get_resource().get() == r, "the access belongs to the resource of the field");
    using FA = rg::access::FieldAccess<D>;
    std::array<rg::access::AreaAccess, D> arr;
    for(size_t d = 0; d < D; ++d)
        arr[d] = rg::access::AreaAccess({b.lo[d], b.hi[d]});
    rg::ResourceAccess want
        = g.make_access(FA(rg::access::IOAccess(mode), rg::access::ArrayAccess<rg::access::AreaAccess, D>(arr)));
    __sym_assert(a == want, "the reported access is the mode and area of the guard");
}
template<size_t D, typename G>
static void check_index(G& g, Grid<D>& c, Box<D> const& b)
{
    auto i = index<D>("i");
    unsigned n = c.n;
    bool thrown = false;
    try
    {
        auto& x = g[i];
        __sym_assert(&x == &c.item && c.n == n + 1 && c.got == i, "the element at the index is accessed");
    }
    catch(std::out_of_range const&)
    {
        thrown = true;
        __sym_assert(c.n == n, "the container is not touched outside of the area");
    }
    __sym_assert(thrown == !b.contains(i), "exactly the indices inside the area are admitted");
    __sym_assert(g.contains(i) == b.contains(i), "contains() agrees");
    __sym_cover(thrown, "rejected");
    __sym_cover(!thrown, "admitted");
}

template<size_t D, bool write>
static void field()
{
    rg::init(1);
    auto* c = new Grid<D>();
    rg::FieldResource<Grid<D>> f(c);
    rg::ResourceBase const* r = f.base.get();
    constexpr auto mode = write ? rg::access::IOAccess::write : rg::access::IOAccess::read;
    Box<D> all;
    for(size_t d = 0; d < D; ++d)
        all.lo[d] = 0, all.hi[d] = ~size_t(0);
    // the undivided field: everything
    auto top = [&]
    {
        if constexpr(write)
            return f.write();
        else
            return f.read();
    }();
    check_access<D>(top, r, mode, all);
    // first and second derivation
    Box<D> b1 = box<D>("b1"), b2 = box<D>("b2");
    auto g1 = top.area(b1.lo, b1.hi);
    check_access<D>(g1, r, mode, b1);
    check_index<D>(g1, *c, b1);
    bool thrown = false;
    try
    {
        auto g2 = g1.area(b2.lo, b2.hi);
        check_access<D>(g2, r, mode, b2);
        check_index<D>(g2, *c, b2);
    }
    catch(std::out_of_range const&)
    {
        thrown = true;
    }
    __sym_assert(thrown == !b1.covers(b2), "a sub-area can be derived exactly if it lies inside the area");
    __sym_cover(thrown, "sub-area rejected");
    __sym_cover(!thrown, "sub-area derived");
}
template<size_t D, bool write>
static void field_at()
{
    rg::init(1);
    auto* c = new Grid<D>();
    rg::FieldResource<Grid<D>> f(c);
    constexpr auto mode = write ? rg::access::IOAccess::write : rg::access::IOAccess::read;
    auto top = [&]
    {
        if constexpr(write)
            return f.write();
        else
            return f.read();
    }();
    Box<D> b1 = box<D>("b1");
    auto g1 = top.area(b1.lo, b1.hi);
    auto p = index<D>("p");
    bool max = false;
    for(size_t d = 0; d < D; ++d)
        max |= p[d] == ~size_t(0);
    __sym_assume(!max); // the largest index has no half-open area around it
    bool thrown = false;
    try
    {
        auto g2 = g1.at(p);
        Box<D> b2;
        b2.lo = p;
        for(size_t d = 0; d < D; ++d)
            b2.hi[d] = p[d] + 1;
        check_access<D>(g2, f.base.get(), mode, b2);
        check_index<D>(g2, *c, b2);
        // reading through a writing guard
        auto rd = g2.read();
        check_access<D>(rd, f.base.get(), rg::access::IOAccess::read, b2);
    }
    catch(std::out_of_range const&)
    {
        thrown = true;
    }
    __sym_assert(thrown == !b1.contains(p), "at() is possible exactly for positions inside the area");
    __sym_cover(thrown, "at rejected");
    __sym_cover(!thrown, "at derived");
}
extern "C" void c05_read1() { field<1, false>(); }
extern "C" void c05_write1() { field<1, true>(); }
extern "C" void c05_read2() { field<2, false>(); }
extern "C" void c05_write2() { field<2, true>(); }
extern "C" void c05_at_read1() { field_at<1, false>(); }
extern "C" void c05_at_write1() { field_at<1, true>(); }
extern "C" void c05_at_read2() { field_at<2, false>(); }
extern "C" void c05_at_write2() { field_at<2, true>(); }

// the predefined containers: the element at the index
extern "C" void c05_containers()
{
    rg::init(1);
    {
        rg::FieldResource<std::vector<int>> f(4);
        unsigned i = __sym_concrete(sym_range("i", 3, 4));
        auto g = f.write().area({0}, {4});
        __sym_assert(&g[{i}] == &(*f.obj)[i], "vector element");
    }
    {
        rg::FieldResource<std::array<int, 3>> f;
        unsigned i = __sym_concrete(sym_range("i", 3, 3));
        auto g = f.write().area({0}, {3});
        __sym_assert(&g[{i}] == &(*f.obj)[i], "array element");
    }
    {
        rg::FieldResource<std::array<std::array<int, 3>, 2>> f;
        unsigned x = __sym_concrete(sym_range("x", 3, 3)), y = __sym_concrete(sym_range("y", 3, 2));
        auto g = f.write().area({0, 0}, {3, 2});
        __sym_assert(&g[{x, y}] == &(*f.obj)[y][x], "element of a nested array");
        // two different elements are different objects, hence two areas never alias
        unsigned x2 = __sym_concrete(sym_range("x2", 3, 3)), y2 = __sym_concrete(sym_range("y2", 3, 2));
        __sym_assert((x == x2 && y == y2) || &g[{x, y}] != &g[{x2, y2}], "different indices denote different elements");
    }
}
extern "C" void c05_write3() { field<3, true>(); }
extern "C" void c05_at_read3() { field_at<3, false>(); }
// an area that is empty or inverted in some dimension, if it can be derived at all, admits no index
template<size_t D, bool write>
static void field_empty()
{
    rg::init(1);
    auto* c = new Grid<D>();
    rg::FieldResource<Grid<D>> f(c);
    auto top = [&]
    {
        if constexpr(write)
            return f.write();
        else
            return f.read();
    }();
    Box<D> b;
    bool empty = false;
    for(size_t d = 0; d < D; ++d)
    {
        b.lo[d] = sym_u64("b"), b.hi[d] = sym_u64("b");
        empty = empty || b.lo[d] >= b.hi[d];
    }
    __sym_assume(empty);
    try
    {
        auto g = top.area(b.lo, b.hi);
        auto i = index<D>("i");
        bool thrown = false;
        try
        {
            g[i];
        }
        catch(std::out_of_range const&)
        {
            thrown = true;
        }
        __sym_assert(thrown && c->n == 0, "an empty area admits no index");
        __sym_assert(!g.contains(i), "contains() agrees");
        __sym_cover(true, "empty area derived");
    }
    catch(std::out_of_range const&)
    {
    }
    __sym_cover(true, "empty area tried");
}
extern "C" void c05_empty_read1() { field_empty<1, false>(); }
extern "C" void c05_empty_write2() { field_empty<2, true>(); }
