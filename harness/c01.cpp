// C01, C02, C03: access policies. All interval bounds are arbitrary 64-bit values, all modes arbitrary.
#include "sym.h"
#include <redGrapes/resource/access/area.hpp>
#include <redGrapes/resource/access/combine.hpp>
#include <redGrapes/resource/access/field.hpp>
#include <redGrapes/resource/access/io.hpp>
using namespace redGrapes::access;

// ---------------------------------------------------------------- accesses and what they mean
struct Area
{
    size_t lo, hi;
};
static Area sym_area(char const* n)
{
    Area a{sym_u64(n), sym_u64(n)};
    __sym_assume(a.lo < a.hi); // non-empty
    return a;
}
static AreaAccess make(Area a)
{
    return AreaAccess(std::array<size_t, 2>{a.lo, a.hi});
}
static bool overlap(Area a, Area b)
{
    size_t lo = a.lo > b.lo ? a.lo : b.lo, hi = a.hi < b.hi ? a.hi : b.hi;
    return lo < hi; // [lo, hi) is the set of common indices
}
static bool inside(Area big, Area small)
{
    return small.lo >= big.lo && small.hi <= big.hi;
}
static unsigned sym_mode(char const* n)
{
    return sym_range(n, 2, 4);
}
static IOAccess make(unsigned m)
{
    return IOAccess((IOAccess::Mode) m);
}
static bool interfere(unsigned a, unsigned b)
{
    return a == IOAccess::write || b == IOAccess::write || a != b;
}
static bool permits(unsigned big, unsigned small)
{
    return big == IOAccess::write || big == small;
}

template<size_t N, class Op>
struct Arr
{
    Area a[N];
    Arr(char const* n)
    {
        for(size_t i = 0; i < N; ++i)
            a[i] = sym_area(n);
    }
    ArrayAccess<AreaAccess, N, Op> acc() const
    {
        std::array<AreaAccess, N> r;
        for(size_t i = 0; i < N; ++i)
            r[i] = make(a[i]);
        return ArrayAccess<AreaAccess, N, Op>(r);
    }
};
template<size_t N, class Op>
static bool overlap(Arr<N, Op> const& x, Arr<N, Op> const& y)
{
    bool all = true, any = false;
    for(size_t i = 0; i < N; ++i)
    {
        bool o = overlap(x.a[i], y.a[i]);
        all = all & o;
        any = any | o;
    }
    return std::is_same<Op, And_t>::value ? all : any;
}
template<size_t N, class Op>
static bool inside(Arr<N, Op> const& x, Arr<N, Op> const& y)
{
    bool all = true;
    for(size_t i = 0; i < N; ++i)
        all = all & inside(x.a[i], y.a[i]);
    return all;
}
template<size_t N, class Op>
static bool same(Arr<N, Op> const& x, Arr<N, Op> const& y)
{
    bool all = true;
    for(size_t i = 0; i < N; ++i)
        all = all & (x.a[i].lo == y.a[i].lo) & (x.a[i].hi == y.a[i].hi);
    return all;
}
// a field access: mode and N-dimensional area
template<size_t N>
struct Fld
{
    unsigned m;
    Arr<N, And_t> a;
    Fld(char const* n) : m(sym_mode(n)), a(n)
    {
    }
    FieldAccess<N> acc() const
    {
        return FieldAccess<N>(make(m), a.acc());
    }
};
template<size_t N>
static bool interfere(Fld<N> const& x, Fld<N> const& y)
{
    return interfere(x.m, y.m) & overlap(x.a, y.a);
}
template<size_t N>
static bool permits(Fld<N> const& x, Fld<N> const& y)
{
    return permits(x.m, y.m) & inside(x.a, y.a);
}

// ---------------------------------------------------------------- C01
#define EXACT(A, x, y, expected)                                                                                     \
    {                                                                                                                \
        bool e = expected;                                                                                           \
        bool s = A::is_serial(x, y);                                                                                 \
        __sym_assert(s || !e, "interfering accesses are reported as conflicting");                                   \
        __sym_assert(!s || e, "accesses that cannot interfere are not reported as conflicting");                     \
        __sym_assert(A::is_serial(y, x) == s, "the conflict relation is symmetric");                                 \
        __sym_cover(s, "conflict");                                                                                  \
        __sym_cover(!s, "no conflict");                                                                              \
    }
extern "C" void c01_io()
{
    unsigned a = sym_mode("a"), b = sym_mode("b");
    EXACT(IOAccess, make(a), make(b), interfere(a, b));
    __sym_assert(IOAccess().mode == IOAccess::write, "an access without a mode is a write access");
}
extern "C" void c01_area()
{
    Area a = sym_area("a"), b = sym_area("b");
    EXACT(AreaAccess, make(a), make(b), overlap(a, b));
    size_t x = sym_u64("x");
    bool in_a = a.lo <= x && x < a.hi, in_b = b.lo <= x && x < b.hi;
    __sym_assert(!(in_a && in_b) || AreaAccess::is_serial(make(a), make(b)), "areas with a common index conflict");
    __sym_assert(AreaAccess::is_serial(AreaAccess(), make(a)), "the default area overlaps every area");
}
template<size_t N, class Op>
static void array()
{
    Arr<N, Op> a("a"), b("b");
    using A = ArrayAccess<AreaAccess, N, Op>;
    EXACT(A, a.acc(), b.acc(), overlap(a, b));
}
extern "C" void c01_and1() { array<1, And_t>(); }
extern "C" void c01_and2() { array<2, And_t>(); }
extern "C" void c01_and3() { array<3, And_t>(); }
extern "C" void c01_and4() { array<4, And_t>(); }
extern "C" void c01_or1() { array<1, Or_t>(); }
extern "C" void c01_or2() { array<2, Or_t>(); }
extern "C" void c01_or3() { array<3, Or_t>(); }
extern "C" void c01_or4() { array<4, Or_t>(); }
template<size_t N>
static void field()
{
    Fld<N> a("a"), b("b");
    EXACT(FieldAccess<N>, a.acc(), b.acc(), interfere(a, b));
}
extern "C" void c01_field1() { field<1>(); }
extern "C" void c01_field2() { field<2>(); }
extern "C" void c01_field3() { field<3>(); }
extern "C" void c01_combine()
{
    unsigned m = sym_mode("m"), n = sym_mode("n");
    Area a = sym_area("a"), b = sym_area("b");
    {
        using A = CombineAccess<IOAccess, AreaAccess, And_t>;
        EXACT(A, A(make(m), make(a)), A(make(n), make(b)), interfere(m, n) & overlap(a, b));
    }
    {
        using A = CombineAccess<IOAccess, AreaAccess, Or_t>;
        EXACT(A, A(make(m), make(a)), A(make(n), make(b)), interfere(m, n) | overlap(a, b));
    }
    {
        using A = CombineAccess<AreaAccess, IOAccess, And_t>;
        EXACT(A, A(make(a), make(m)), A(make(b), make(n)), interfere(m, n) & overlap(a, b));
    }
}
// compounds of compounds: an array of field accesses
template<class Op>
static void nested()
{
    Fld<1> a("a"), b("b"), c("c"), d("d");
    using A = ArrayAccess<FieldAccess<1>, 2, Op>;
    A x(std::array<FieldAccess<1>, 2>{a.acc(), b.acc()}), y(std::array<FieldAccess<1>, 2>{c.acc(), d.acc()});
    bool p = interfere(a, c), q = interfere(b, d);
    EXACT(A, x, y, (std::is_same<Op, And_t>::value ? p & q : p | q));
}
extern "C" void c01_nested_and() { nested<And_t>(); }
extern "C" void c01_nested_or() { nested<Or_t>(); }

// ---------------------------------------------------------------- C02
#define CONTAIN(A, x, y, z, expected, equal)                                                                         \
    {                                                                                                                \
        A X = x, Y = y, Z = z;                                                                                       \
        bool e = expected;                                                                                           \
        bool s = X.is_superset_of(Y);                                                                                \
        __sym_assert(s || !e, "an access that permits everything another one does contains it");                     \
        __sym_assert(!s || e, "an access that forbids something another one does, does not contain it");             \
        __sym_assert(X.is_superset_of(X), "containment is reflexive");                                               \
        bool eq = equal;                                                                                             \
        __sym_assert(!(s && Y.is_superset_of(X)) || eq, "containment is antisymmetric");                             \
        __sym_assert((X == Y) == eq, "equality is exact");                                                           \
        __sym_assert(!(s && Y.is_superset_of(Z)) || X.is_superset_of(Z), "containment is transitive");               \
        __sym_assert(!(s && A::is_serial(Y, Z)) || A::is_serial(X, Z), "containment keeps every conflict");          \
        __sym_cover(s && !eq, "proper containment");                                                                 \
        __sym_cover(!s, "no containment");                                                                           \
        __sym_cover(s && A::is_serial(Y, Z), "conflict with a contained access");                                    \
    }
extern "C" void c02_io()
{
    unsigned a = sym_mode("a"), b = sym_mode("b"), c = sym_mode("c");
    CONTAIN(IOAccess, make(a), make(b), make(c), permits(a, b), a == b);
}
extern "C" void c02_area()
{
    Area a = sym_area("a"), b = sym_area("b"), c = sym_area("c");
    CONTAIN(AreaAccess, make(a), make(b), make(c), inside(a, b), a.lo == b.lo && a.hi == b.hi);
    size_t x = sym_u64("x");
    __sym_assert(
        !(make(a).is_superset_of(make(b)) && b.lo <= x && x < b.hi) || (a.lo <= x && x < a.hi),
        "every index of a contained area belongs to the containing one");
    __sym_assert(AreaAccess().is_superset_of(make(a)), "the default area contains every area");
}
template<size_t N, class Op>
static void array2()
{
    Arr<N, Op> a("a"), b("b"), c("c");
    using A = ArrayAccess<AreaAccess, N, Op>;
    CONTAIN(A, a.acc(), b.acc(), c.acc(), inside(a, b), same(a, b));
}
extern "C" void c02_and2() { array2<2, And_t>(); }
extern "C" void c02_and3() { array2<3, And_t>(); }
extern "C" void c02_or2() { array2<2, Or_t>(); }
extern "C" void c02_or3() { array2<3, Or_t>(); }
template<size_t N>
static void field2()
{
    Fld<N> a("a"), b("b"), c("c");
    CONTAIN(FieldAccess<N>, a.acc(), b.acc(), c.acc(), permits(a, b), a.m == b.m && same(a.a, b.a));
}
extern "C" void c02_field1() { field2<1>(); }
extern "C" void c02_field2() { field2<2>(); }
extern "C" void c02_field3() { field2<3>(); }
extern "C" void c02_combine_or()
{
    unsigned m = sym_mode("m"), n = sym_mode("n"), o = sym_mode("o");
    Area a = sym_area("a"), b = sym_area("b"), c = sym_area("c");
    using A = CombineAccess<IOAccess, AreaAccess, Or_t>;
    CONTAIN(
        A,
        A(make(m), make(a)),
        A(make(n), make(b)),
        A(make(o), make(c)),
        permits(m, n) & inside(a, b),
        m == n && a.lo == b.lo && a.hi == b.hi);
}

// ---------------------------------------------------------------- C03
#define SYNC(A, x, y)                                                                                                \
    {                                                                                                                \
        A X = x, Y = y;                                                                                              \
        bool s = X.is_synchronizing();                                                                               \
        __sym_assert(!s || (A::is_serial(X, Y) && A::is_serial(Y, X)), "a synchronising access conflicts with every access");                 \
        __sym_cover(s, "synchronising");                                                                             \
        __sym_cover(!s, "not synchronising");                                                                        \
    }
extern "C" void c03_io()
{
    SYNC(IOAccess, make(sym_mode("a")), make(sym_mode("b")));
}
extern "C" void c03_area()
{
    SYNC(AreaAccess, make(sym_area("a")), make(sym_area("b")));
}
template<size_t N, class Op>
static void array3()
{
    Arr<N, Op> a("a"), b("b");
    using A = ArrayAccess<AreaAccess, N, Op>;
    SYNC(A, a.acc(), b.acc());
}
extern "C" void c03_and2() { array3<2, And_t>(); }
extern "C" void c03_and3() { array3<3, And_t>(); }
extern "C" void c03_or2() { array3<2, Or_t>(); }
extern "C" void c03_or3() { array3<3, Or_t>(); }
template<size_t N>
static void field3()
{
    Fld<N> a("a"), b("b");
    SYNC(FieldAccess<N>, a.acc(), b.acc());
}
extern "C" void c03_field1() { field3<1>(); }
extern "C" void c03_field2() { field3<2>(); }
extern "C" void c03_field3() { field3<3>(); }
extern "C" void c03_combine()
{
    unsigned m = sym_mode("m"), n = sym_mode("n");
    Area a = sym_area("a"), b = sym_area("b");
    {
        using A = CombineAccess<IOAccess, AreaAccess, Or_t>;
        SYNC(A, A(make(m), make(a)), A(make(n), make(b)));
    }
    {
        using A = CombineAccess<AreaAccess, IOAccess, And_t>;
        SYNC(A, A(make(a), make(m)), A(make(b), make(n)));
    }
}
