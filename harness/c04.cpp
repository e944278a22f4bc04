// C04: conflicts and containment of resource accesses and resource users; copies.
#include "rt.h"
#include <redGrapes/resource/fieldresource.hpp>
using rg::access::AreaAccess;
using rg::access::FieldAccess;
using rg::access::IOAccess;
using ModeRes = rg::Resource<IOAccess>;
using AreaRes = rg::Resource<AreaAccess>;

static ModeRes* io[2];
static AreaRes* ar[2];

static bool interfere(unsigned a, unsigned b)
{
    return a == IOAccess::write || b == IOAccess::write || a != b;
}

// an arbitrary access: one of two resources of two kinds, any mode or any non-empty area
struct Acc
{
    unsigned res; // 0, 1: io   2, 3: area
    unsigned mode;
    size_t lo, hi;
    rg::ResourceAccess acc;
};
static Acc sym_acc(char const* n, unsigned kinds = 4)
{
    unsigned r = __sym_concrete(sym_range(n, 2, kinds));
    if(r < 2)
    {
        unsigned m = sym_range(n, 2, 4);
        return Acc{r, m, 0, 0, io[r]->make_access(IOAccess((IOAccess::Mode) m))};
    }
    size_t lo = __sym_var(n, 8), hi = __sym_var(n, 8);
    __sym_assume(lo < hi);
    return Acc{r, 0, lo, hi, ar[r - 2]->make_access(AreaAccess(std::array<size_t, 2>{lo, hi}))};
}
static bool conflict(Acc const& a, Acc const& b)
{
    if(a.res != b.res)
        return false;
    return a.res < 2 ? interfere(a.mode, b.mode) : (a.lo < b.hi) & (b.lo < a.hi);
}
static bool covers(Acc const& a, Acc const& b)
{
    if(a.res != b.res)
        return false;
    return a.res < 2 ? (a.mode == IOAccess::write) | (a.mode == b.mode) : (a.lo <= b.lo) & (b.hi <= a.hi);
}
static bool equal(Acc const& a, Acc const& b)
{
    if(a.res != b.res)
        return false;
    return a.res < 2 ? a.mode == b.mode : (a.lo == b.lo) & (a.hi == b.hi);
}
static void setup()
{
    rg::init(1);
    for(unsigned i = 0; i < 2; ++i)
    {
        io[i] = new ModeRes();
        ar[i] = new AreaRes();
    }
}
extern "C" void c04_access()
{
    setup();
    Acc a = sym_acc("a"), b = sym_acc("b");
    __sym_assert(rg::ResourceAccess::is_serial(a.acc, b.acc) == conflict(a, b), "accesses conflict iff they are on the same resource and their policies conflict");
    __sym_assert(a.acc.is_superset_of(b.acc) == covers(a, b), "accesses contain each other only on the same resource, as their policies do");
    __sym_assert((a.acc == b.acc) == equal(a, b), "access equality is exact");
    __sym_assert(a.acc.is_same_resource(b.acc) == (a.res == b.res), "accesses are on the same resource iff they were made from the same one");
    __sym_assert((a.acc.resource_id() == b.acc.resource_id()) == (a.res == b.res), "resource ids identify resources");
    rg::ResourceAccess c(a.acc);
    __sym_assert(c == a.acc && rg::ResourceAccess::is_serial(c, b.acc) == conflict(a, b), "a copied access is the same access");
    rg::ResourceAccess d(std::move(c));
    __sym_assert(d == a.acc, "a moved access is the same access");
    d = b.acc;
    __sym_assert(d == b.acc, "an assigned access is the same access");
    __sym_cover(conflict(a, b), "conflict");
    __sym_cover(covers(a, b) && !equal(a, b), "proper containment");
}
extern "C" void c04_handles()
{
    setup();
    ModeRes r2(*io[0]);
    unsigned m = sym_range("m", 2, 4), n = sym_range("n", 2, 4);
    auto a = io[0]->make_access(IOAccess((IOAccess::Mode) m)), b = r2.make_access(IOAccess((IOAccess::Mode) n));
    __sym_assert(rg::ResourceAccess::is_serial(a, b) == interfere(m, n), "a copy of a resource denotes the same resource");
    __sym_assert(a.is_same_resource(b), "a copy of a resource denotes the same resource");
    rg::IOResource<int> x(3), y(3), z(static_cast<rg::IOResource<int> const&>(x));
    rg::ResourceAccess xr = x.read(), xw = x.write(), yw = y.write(), zr = z.read(), zw = z;
    __sym_assert(!rg::ResourceAccess::is_serial(xr, zr), "two reads of an object do not conflict");
    __sym_assert(rg::ResourceAccess::is_serial(xw, zr) && rg::ResourceAccess::is_serial(xr, zw), "a write of an object conflicts with reads through its copies");
    __sym_assert(!rg::ResourceAccess::is_serial(xw, yw), "writes of different objects do not conflict");
    __sym_assert(xw.is_superset_of(zr) && !xr.is_superset_of(zw), "write access covers read access, not vice versa");
    __sym_cover(true, "end");
}
static constexpr unsigned MAXA = 2;
struct User
{
    unsigned n;
    Acc* a[MAXA + 1];
    rg::ResourceUser* u;
};
static User sym_user(char const* n, unsigned kinds)
{
    User x;
    x.u = new rg::ResourceUser();
    x.n = __sym_concrete(sym_range(n, 2, MAXA + 1));
    for(unsigned i = 0; i < x.n; ++i)
    {
        x.a[i] = new Acc(sym_acc(n, kinds));
        x.u->add_resource_access(x.a[i]->acc);
    }
    return x;
}
static void check_lists(rg::ResourceUser const& u, User const& x, char const* msg)
{
    unsigned k = 0;
    for(auto it = u.access_list.rbegin(); it != u.access_list.rend(); ++it, ++k)
    {
        if(k >= x.n)
            __sym_fail(msg);
        __sym_assert(*it == x.a[x.n - 1 - k]->acc, msg);
    }
    __sym_assert(k == x.n, msg);
}
static void check_pair(User const& x, User const& y)
{
    bool c = false, s = true;
    for(unsigned i = 0; i < y.n; ++i)
    {
        bool f = y.a[i]->acc.scope_level() > x.u->scope_level;
        for(unsigned j = 0; j < x.n; ++j)
        {
            f = f | covers(*x.a[j], *y.a[i]);
            c = c | conflict(*x.a[j], *y.a[i]);
        }
        s = s & f;
    }
    __sym_assert(rg::ResourceUser::is_serial(*x.u, *y.u) == c, "users conflict iff two of their accesses do");
    __sym_assert(rg::ResourceUser::is_serial(*y.u, *x.u) == c, "conflicts of users are symmetric");
    __sym_assert(x.u->is_superset_of(*y.u) == s, "a user covers another one iff it covers each of its accesses, those of deeper resources excepted");
    __sym_assert(rg::ResourceUser::is_superset(*x.u, *y.u) == s, "a user covers another one iff it covers each of its accesses, those of deeper resources excepted");
    __sym_cover(c, "users conflict");
    __sym_cover(!c, "users do not conflict");
    __sym_cover(s && y.n > 0, "user covers");
    __sym_cover(!s, "user does not cover");
}
extern "C" void c04_user()
{
    setup();
    User x = sym_user("x", 2), y = sym_user("y", 2);
    check_lists(*x.u, x, "a user has the accesses that were added to it");
    check_pair(x, y);
    unsigned r = __sym_concrete(sym_range("r", 2, 2));
    bool sync = false;
    for(unsigned i = 0; i < x.n; ++i)
        sync = sync | (x.a[i]->res == r & x.a[i]->mode == IOAccess::write);
    __sym_assert(x.u->has_sync_access(io[r]->base) == sync, "a user has a synchronising access to a resource iff it writes it");
}
extern "C" void c04_user_kinds()
{
    setup();
    User x;
    x.n = 1;
    x.a[0] = new Acc(sym_acc("x"));
    x.u = new rg::ResourceUser({x.a[0]->acc});
    User y = sym_user("y", 4);
    check_pair(x, y);
}
extern "C" void c04_scope()
{
    // resources and users of arbitrary scope depth
    setup();
    User x = sym_user("x", 2), y = sym_user("y", 2);
    for(unsigned i = 0; i < 2; ++i)
        io[i]->base->scope_level = sym_range("scope_r", 2, 4);
    x.u->scope_level = sym_range("scope_x", 2, 4);
    check_pair(x, y);
}
extern "C" void c04_copy()
{
    setup();
    User x = sym_user("x", 2);
    unsigned s = sym_range("scope", 2, 4);
    x.u->scope_level = s;
    rg::ResourceUser u(*x.u);
    check_lists(u, x, "a copied user has the accesses of the original");
    check_lists(*x.u, x, "copying a user leaves the original unchanged");
    __sym_assert(u.scope_level == s, "a copied user has the scope of the original");
    unsigned k = 0;
    for(auto it = u.unique_resources.rbegin(); it != u.unique_resources.rend(); ++it, ++k)
    {
        unsigned n = 0;
        for(unsigned i = 0; i < x.n; ++i)
            n += it->resource == x.a[i]->acc.get_resource();
        __sym_assert(n > 0, "a copied user uses only the resources of the original");
    }
    unsigned want = 0;
    for(auto it = x.u->unique_resources.rbegin(); it != x.u->unique_resources.rend(); ++it)
        ++want;
    __sym_assert(k == want, "a copied user uses all resources of the original");
    // removing an access from the copy
    if(x.n > 0)
    {
        u.rm_resource_access(x.a[0]->acc);
        check_lists(*x.u, x, "changing a copy leaves the original unchanged");
        unsigned left = 0;
        for(auto it = u.access_list.rbegin(); it != u.access_list.rend(); ++it)
        {
            __sym_assert(!(*it == x.a[0]->acc), "a removed access is gone");
            ++left;
        }
        unsigned expect = 0;
        for(unsigned i = 0; i < x.n; ++i)
            expect += !equal(*x.a[0], *x.a[i]);
        __sym_assert(left == expect, "removing an access leaves the others");
    }
    __sym_cover(x.n == 2, "two accesses");
}
