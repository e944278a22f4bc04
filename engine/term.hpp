// Hash-consed terms over fixed-width bit-vectors (width 1 = Bool), with constant folding and guarded unions of
// constants ("UNION": a value that is one of finitely many constants, each under a guard; guards are disjoint).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum class Op : uint8_t
{
    CONST, VAR, NOT, AND, XOR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR,
    EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT, UNION, BVAND, BVOR, BVNOT
};

struct Term;
using T = Term const*;

struct UVal
{
    uint64_t v;
    T g;
};

struct Term
{
    Op op;
    uint16_t w;
    uint32_t id;
    uint64_t c; // CONST value / EXTRACT low bit / VAR index
    T a, b, k;
    std::vector<UVal> const* u; // UNION
    size_t h;
};

inline uint64_t maskw(unsigned w)
{
    return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
inline int64_t sext64(uint64_t v, unsigned w)
{
    if(w >= 64)
        return (int64_t) v;
    uint64_t m = 1ull << (w - 1);
    return (int64_t) ((v ^ m) - m);
}

struct TermMgr
{
    struct H
    {
        size_t operator()(T t) const
        {
            return t->h;
        }
    };
    struct E
    {
        bool operator()(T x, T y) const
        {
            if(x->op != y->op || x->w != y->w || x->c != y->c || x->a != y->a || x->b != y->b || x->k != y->k)
                return false;
            if(x->op == Op::UNION)
            {
                if(x->u->size() != y->u->size())
                    return false;
                for(size_t i = 0; i < x->u->size(); ++i)
                    if((*x->u)[i].v != (*y->u)[i].v || (*x->u)[i].g != (*y->u)[i].g)
                        return false;
            }
            return true;
        }
    };
    std::unordered_set<T, H, E> table;
    std::vector<T> all;
    std::vector<std::string> varNames;
    std::vector<T> vars;
    std::unordered_map<std::string, T> varByName;
    T TRUE_, FALSE_;
    std::unordered_map<uint64_t, T> extMemo, eqMemo;
    // guarded unions larger than this fall back to plain ITE nodes
    size_t unionLimit = 96;

    TermMgr()
    {
        table.reserve(1 << 20);
        FALSE_ = cst(0, 1);
        TRUE_ = cst(1, 1);
    }

    static size_t mix(size_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        return h * 0xff51afd7ed558ccdull;
    }
    T intern(Term& t)
    {
        size_t h = mix((size_t) t.op * 131 + t.w, t.c);
        h = mix(h, t.a ? t.a->id + 1 : 0);
        h = mix(h, t.b ? t.b->id + 1 : 0);
        h = mix(h, t.k ? t.k->id + 1 : 0);
        if(t.op == Op::UNION)
            for(auto& x : *t.u)
                h = mix(mix(h, x.v), x.g->id);
        t.h = h;
        auto it = table.find(&t);
        if(it != table.end())
            return *it;
        Term* n = new Term(t);
        if(t.op == Op::UNION)
            n->u = new std::vector<UVal>(*t.u);
        n->id = all.size();
        all.push_back(n);
        table.insert(n);
        return n;
    }
    T node(Op op, unsigned w, T a = nullptr, T b = nullptr, T k = nullptr, uint64_t c = 0)
    {
        Term t{op, (uint16_t) w, 0, c, a, b, k, nullptr, 0};
        return intern(t);
    }
    T cst(uint64_t v, unsigned w)
    {
        return node(Op::CONST, w, nullptr, nullptr, nullptr, v & maskw(w));
    }
    T boolc(bool b)
    {
        return b ? TRUE_ : FALSE_;
    }
    T var(std::string const& name, unsigned w)
    {
        auto it = varByName.find(name);
        if(it != varByName.end())
            return it->second;
        T t = node(Op::VAR, w, nullptr, nullptr, nullptr, varNames.size());
        varNames.push_back(name);
        vars.push_back(t);
        varByName[name] = t;
        return t;
    }
    static bool isC(T t)
    {
        return t->op == Op::CONST;
    }
    static bool isU(T t)
    {
        return t->op == Op::UNION;
    }
    static bool isCU(T t)
    {
        return isC(t) || isU(t);
    }

    // ---------- booleans
    T mkNot(T a)
    {
        if(a->op == Op::CONST)
            return boolc(!a->c);
        if(a->op == Op::NOT)
            return a->a;
        return node(Op::NOT, 1, a);
    }
    static bool compl_(T a, T b)
    {
        return (a->op == Op::NOT && a->a == b) || (b->op == Op::NOT && b->a == a);
    }
    T mkAnd(T a, T b)
    {
        if(a == b)
            return a;
        if(isC(a))
            return a->c ? b : a;
        if(isC(b))
            return b->c ? a : b;
        if(compl_(a, b))
            return FALSE_;
        for(int i = 0; i < 2; ++i)
        {
            if(b->op == Op::AND)
            {
                if(b->a == a || b->b == a)
                    return b;
                if(compl_(b->a, a) || compl_(b->b, a))
                    return FALSE_;
            }
            else if(b->op == Op::NOT && b->a->op == Op::AND)
            {
                T p = b->a->a, q = b->a->b; // b = !(p & q)
                if(compl_(p, a) || compl_(q, a))
                    return a; // a -> !p -> b
                if(p == a)
                    return mkAnd(a, mkNot(q));
                if(q == a)
                    return mkAnd(a, mkNot(p));
            }
            else if(b->op == Op::ITE)
            {
                if(b->k == a)
                    return mkAnd(a, b->a);
                if(compl_(b->k, a))
                    return mkAnd(a, b->b);
            }
            // x==c1 & x==c2
            if(a->op == Op::EQ && b->op == Op::EQ && a->a == b->a && isC(a->b) && isC(b->b) && a->b != b->b)
                return FALSE_;
            std::swap(a, b);
        }
        // !(p&q) & !(p&!q) = !p
        if(a->op == Op::NOT && b->op == Op::NOT && a->a->op == Op::AND && b->a->op == Op::AND)
        {
            T p = a->a->a, q = a->a->b, r = b->a->a, s = b->a->b;
            if((p == r && compl_(q, s)) || (p == s && compl_(q, r)))
                return mkNot(p);
            if((q == s && compl_(p, r)) || (q == r && compl_(p, s)))
                return mkNot(q);
        }
        if(a->op == Op::AND && b->op == Op::AND)
        {
            if(compl_(a->a, b->a) || compl_(a->a, b->b) || compl_(a->b, b->a) || compl_(a->b, b->b))
                return FALSE_;
        }
        if(a->id > b->id)
            std::swap(a, b);
        return node(Op::AND, 1, a, b);
    }
    T mkOr(T a, T b)
    {
        return mkNot(mkAnd(mkNot(a), mkNot(b)));
    }
    T mkImplies(T a, T b)
    {
        return mkOr(mkNot(a), b);
    }
    T mkXorB(T a, T b)
    {
        if(a == b)
            return FALSE_;
        if(isC(a))
            return a->c ? mkNot(b) : b;
        if(isC(b))
            return b->c ? mkNot(a) : a;
        if(compl_(a, b))
            return TRUE_;
        bool neg = false;
        if(a->op == Op::NOT)
            neg = !neg, a = a->a;
        if(b->op == Op::NOT)
            neg = !neg, b = b->a;
        if(a->id > b->id)
            std::swap(a, b);
        T r = node(Op::XOR, 1, a, b);
        return neg ? mkNot(r) : r;
    }
    T mkIteB(T k, T a, T b)
    {
        if(isC(k))
            return k->c ? a : b;
        if(a == b)
            return a;
        if(k->op == Op::NOT)
            return mkIteB(k->a, b, a);
        if(isC(a))
            return a->c ? mkOr(k, b) : mkAnd(mkNot(k), b);
        if(isC(b))
            return b->c ? mkOr(mkNot(k), a) : mkAnd(k, a);
        if(a == k)
            return mkOr(k, b);
        if(b == k)
            return mkAnd(k, a);
        if(compl_(a, k))
            return mkAnd(mkNot(k), b);
        if(compl_(b, k))
            return mkOr(mkNot(k), a);
        if(compl_(a, b))
            return mkXorB(k, b);
        if(a->op == Op::ITE && a->k == k)
            a = a->a;
        if(b->op == Op::ITE && b->k == k)
            b = b->b;
        if(a == b)
            return a;
        return node(Op::ITE, 1, a, b, k);
    }

    // ---------- unions
    // build a value from (value, guard) entries: sorts, joins equal values
    T mkUnion(std::vector<UVal> v, unsigned w)
    {
        std::vector<UVal> r;
        std::sort(v.begin(), v.end(), [](UVal const& x, UVal const& y) { return x.v < y.v; });
        for(auto& e : v)
        {
            if(e.g == FALSE_)
                continue;
            if(!r.empty() && r.back().v == e.v)
                r.back().g = mkOr(r.back().g, e.g);
            else
                r.push_back(e);
        }
        if(r.empty())
            return cst(0, w); // unreachable value
        if(r.size() == 1)
            return cst(r[0].v, w);
        for(auto& e : r)
            if(e.g == TRUE_)
                return cst(e.v, w);
        if(w == 1)
            return r[1].g; // values 0 and 1
        Term t{Op::UNION, (uint16_t) w, 0, 0, nullptr, nullptr, nullptr, &r, 0};
        return intern(t);
    }
    std::vector<UVal> entries(T t)
    {
        if(isC(t))
            return {{t->c, TRUE_}};
        return *t->u;
    }
    size_t nEntries(T t)
    {
        return isC(t) ? 1 : t->u->size();
    }
    T mapU(T x, unsigned w, std::function<uint64_t(uint64_t)> f)
    {
        std::vector<UVal> r;
        for(auto& e : *x->u)
            r.push_back({f(e.v) & maskw(w), e.g});
        return mkUnion(std::move(r), w);
    }
    T mapUU(T x, T y, unsigned w, std::function<uint64_t(uint64_t, uint64_t)> f)
    {
        std::vector<UVal> r;
        auto ex = entries(x), ey = entries(y);
        for(auto& p : ex)
            for(auto& q : ey)
            {
                T g = mkAnd(p.g, q.g);
                if(g != FALSE_)
                    r.push_back({f(p.v, q.v) & maskw(w), g});
            }
        return mkUnion(std::move(r), w);
    }

    T mkIte(T k, T a, T b)
    {
        if(a->w != b->w)
        {
            fprintf(stderr, "mkIte width mismatch %d %d\n", a->w, b->w);
            abort();
        }
        if(a->w == 1)
            return mkIteB(k, a, b);
        if(isC(k))
            return k->c ? a : b;
        if(a == b)
            return a;
        if(k->op == Op::NOT)
            return mkIte(k->a, b, a);
        if(isCU(a) && isCU(b) && nEntries(a) + nEntries(b) <= unionLimit)
        {
            std::vector<UVal> r;
            auto ea = entries(a), eb = entries(b);
            T nk = mkNot(k);
            // both sorted by value: merge
            size_t i = 0, j = 0;
            while(i < ea.size() || j < eb.size())
            {
                if(j >= eb.size() || (i < ea.size() && ea[i].v < eb[j].v))
                {
                    r.push_back({ea[i].v, mkAnd(k, ea[i].g)});
                    ++i;
                }
                else if(i >= ea.size() || eb[j].v < ea[i].v)
                {
                    r.push_back({eb[j].v, mkAnd(nk, eb[j].g)});
                    ++j;
                }
                else
                {
                    r.push_back({ea[i].v, mkIteB(k, ea[i].g, eb[j].g)});
                    ++i, ++j;
                }
            }
            return mkUnion(std::move(r), a->w);
        }
        if(a->op == Op::CONCAT || b->op == Op::CONCAT)
        {
            unsigned lo = a->op == Op::CONCAT ? a->b->w : b->b->w;
            bool ok = true;
            for(T x : {a, b})
                if(!(x->op == Op::CONCAT && x->b->w == lo) && !isCU(x) && x->op != Op::VAR)
                    ok = false;
            if(ok)
            {
                unsigned w = a->w;
                return mkConcat(
                    mkIte(k, mkExtract(a, lo, w - lo), mkExtract(b, lo, w - lo)),
                    mkIte(k, mkExtract(a, 0, lo), mkExtract(b, 0, lo)));
            }
        }
        if(a->op == Op::ITE && a->k == k)
            a = a->a;
        if(b->op == Op::ITE && b->k == k)
            b = b->b;
        if(a->op == Op::ITE && compl_(a->k, k))
            a = a->b;
        if(b->op == Op::ITE && compl_(b->k, k))
            b = b->a;
        if(a == b)
            return a;
        return node(Op::ITE, a->w, a, b, k);
    }

    // ---------- bit-vector arithmetic
    static uint64_t fold(Op op, uint64_t x, uint64_t y, unsigned w)
    {
        uint64_t m = maskw(w);
        switch(op)
        {
        case Op::ADD: return (x + y) & m;
        case Op::SUB: return (x - y) & m;
        case Op::MUL: return (x * y) & m;
        case Op::UDIV: return y ? x / y : m;
        case Op::UREM: return y ? x % y : x;
        case Op::SDIV:
        {
            int64_t p = sext64(x, w), q = sext64(y, w);
            if(q == 0)
                return p < 0 ? 1 : m;
            if(q == -1)
                return (uint64_t) (-(uint64_t) p) & m;
            return (uint64_t) (p / q) & m;
        }
        case Op::SREM:
        {
            int64_t p = sext64(x, w), q = sext64(y, w);
            if(q == 0)
                return x;
            if(q == -1)
                return 0;
            return (uint64_t) (p % q) & m;
        }
        case Op::BVAND: return x & y;
        case Op::BVOR: return x | y;
        case Op::XOR: return x ^ y;
        case Op::SHL: return y >= w ? 0 : (x << y) & m;
        case Op::LSHR: return y >= w ? 0 : x >> y;
        case Op::ASHR: return (uint64_t) (sext64(x, w) >> (y >= w ? w - 1 : y)) & m;
        default: abort();
        }
    }
    T mkBin(Op op, T a, T b)
    {
        unsigned w = a->w;
        if(a->w != b->w)
        {
            fprintf(stderr, "mkBin width mismatch op=%d %d %d\n", (int) op, a->w, b->w);
            abort();
        }
        if(w == 1)
        {
            switch(op)
            {
            case Op::BVAND: case Op::MUL: return mkAnd(a, b);
            case Op::BVOR: return mkOr(a, b);
            case Op::XOR: case Op::ADD: case Op::SUB: return mkXorB(a, b);
            case Op::SHL: case Op::LSHR: return mkAnd(a, mkNot(b));
            case Op::ASHR: return a;
            default: break;
            }
        }
        if(isC(a) && isC(b))
            return cst(fold(op, a->c, b->c, w), w);
        bool comm = op == Op::ADD || op == Op::MUL || op == Op::BVAND || op == Op::BVOR || op == Op::XOR;
        if(comm && isC(a))
            std::swap(a, b);
        if(isC(b))
        {
            uint64_t v = b->c, m = maskw(w);
            switch(op)
            {
            case Op::ADD: case Op::SUB: case Op::SHL: case Op::LSHR: case Op::ASHR:
                if(v == 0)
                    return a;
                break;
            case Op::MUL:
                if(v == 0)
                    return b;
                if(v == 1)
                    return a;
                if((v & (v - 1)) == 0)
                    return mkBin(Op::SHL, a, cst(__builtin_ctzll(v), w));
                break;
            case Op::UDIV:
                if(v == 1)
                    return a;
                if(v && (v & (v - 1)) == 0)
                    return mkBin(Op::LSHR, a, cst(__builtin_ctzll(v), w));
                break;
            case Op::UREM:
                if(v == 1)
                    return cst(0, w);
                if(v && (v & (v - 1)) == 0)
                    return mkBin(Op::BVAND, a, cst(v - 1, w));
                break;
            case Op::BVAND:
                if(v == 0)
                    return b;
                if(v == m)
                    return a;
                break;
            case Op::BVOR:
                if(v == 0)
                    return a;
                if(v == m)
                    return b;
                break;
            case Op::XOR:
                if(v == 0)
                    return a;
                break;
            default: break;
            }
            if((op == Op::SHL || op == Op::LSHR) && v >= w)
                return cst(0, w);
        }
        if(isCU(a) && isCU(b) && nEntries(a) * nEntries(b) <= unionLimit * 4)
        {
            T r = nullptr;
            if(isC(b))
                r = mapU(a, w, [&](uint64_t x) { return fold(op, x, b->c, w); });
            else if(isC(a))
                r = mapU(b, w, [&](uint64_t y) { return fold(op, a->c, y, w); });
            else
            {
                r = mapUU(a, b, w, [&](uint64_t x, uint64_t y) { return fold(op, x, y, w); });
                if(nEntries(r) > unionLimit)
                    r = nullptr;
            }
            if(r)
                return r;
        }
        if(op == Op::SUB && a == b)
            return cst(0, w);
        if(op == Op::XOR && a == b)
            return cst(0, w);
        if((op == Op::BVAND || op == Op::BVOR) && a == b)
            return a;
        if(op == Op::SUB && isC(b))
            return mkBin(Op::ADD, a, cst(-b->c, w));
        if(op == Op::ADD && isC(b) && a->op == Op::ADD && isC(a->b))
            return mkBin(Op::ADD, a->a, cst(a->b->c + b->c, w));
        if(op == Op::XOR && isC(b) && b->c == maskw(w))
        {
            if(a->op == Op::BVNOT)
                return a->a;
            return node(Op::BVNOT, w, a);
        }
        // constant shifts and masks as structure
        if(op == Op::SHL && isC(b))
            return mkConcat(mkExtract(a, 0, w - b->c), cst(0, b->c));
        if(op == Op::LSHR && isC(b))
            return mkConcat(cst(0, b->c), mkExtract(a, b->c, w - b->c));
        if(op == Op::BVAND && isC(b))
        {
            uint64_t v = b->c;
            // contiguous mask
            if(v)
            {
                unsigned lo = __builtin_ctzll(v);
                uint64_t sh = v >> lo;
                if((sh & (sh + 1)) == 0)
                {
                    unsigned n = __builtin_popcountll(sh);
                    T r = mkExtract(a, lo, n);
                    if(lo)
                        r = mkConcat(r, cst(0, lo));
                    if(lo + n < w)
                        r = mkConcat(cst(0, w - lo - n), r);
                    return r;
                }
            }
        }
        if((op == Op::BVOR || op == Op::XOR || op == Op::BVAND || op == Op::ADD)
           && (a->op == Op::CONCAT || b->op == Op::CONCAT))
        {
            // bitwise ops distribute over concat at a's/b's cut
            if(op != Op::ADD)
            {
                unsigned lo = a->op == Op::CONCAT ? a->b->w : b->b->w;
                if((a->op == Op::CONCAT && b->op == Op::CONCAT) || isCU(a) || isCU(b))
                    return mkConcat(
                        mkBin(op, mkExtract(a, lo, w - lo), mkExtract(b, lo, w - lo)),
                        mkBin(op, mkExtract(a, 0, lo), mkExtract(b, 0, lo)));
            }
        }
        if(comm && !isC(b) && a->id > b->id)
            std::swap(a, b);
        return node(op, w, a, b);
    }
    T mkBvNot(T a)
    {
        if(a->w == 1)
            return mkNot(a);
        return mkBin(Op::XOR, a, cst(maskw(a->w), a->w));
    }

    T mkEq(T a, T b)
    {
        if(a == b)
            return TRUE_;
        if(a->w != b->w)
        {
            fprintf(stderr, "mkEq width mismatch\n");
            abort();
        }
        if(a->w == 1)
            return mkNot(mkXorB(a, b));
        if(isC(a))
            std::swap(a, b);
        if(isC(a) && isC(b))
            return boolc(a->c == b->c);
        if(isU(a) && isC(b))
        {
            for(auto& e : *a->u)
                if(e.v == b->c)
                    return e.g;
            return FALSE_;
        }
        if(isU(a) && isU(b))
        {
            T r = FALSE_;
            size_t i = 0, j = 0;
            while(i < a->u->size() && j < b->u->size())
            {
                auto &x = (*a->u)[i], &y = (*b->u)[j];
                if(x.v < y.v)
                    ++i;
                else if(y.v < x.v)
                    ++j;
                else
                {
                    r = mkOr(r, mkAnd(x.g, y.g));
                    ++i, ++j;
                }
            }
            return r;
        }
        if(isCU(b) || a->op == Op::CONCAT)
        {
            if(a->op == Op::ZEXT)
            {
                unsigned iw = a->a->w;
                return mkAnd(
                    mkEq(mkExtract(b, iw, a->w - iw), cst(0, a->w - iw)),
                    mkEq(a->a, mkExtract(b, 0, iw)));
            }
            if(a->op == Op::CONCAT)
            {
                unsigned lo = a->b->w;
                return mkAnd(mkEq(a->a, mkExtract(b, lo, a->w - lo)), mkEq(a->b, mkExtract(b, 0, lo)));
            }
        }
        if(b->op == Op::CONCAT && isCU(a))
            return mkEq(b, a);
        if(isC(b) && a->op == Op::ITE && (isC(a->a) || isC(a->b)))
        {
            uint64_t key = ((uint64_t) a->id << 32) | b->id;
            auto it = eqMemo.find(key);
            if(it != eqMemo.end())
                return it->second;
            T r = mkIteB(a->k, mkEq(a->a, b), mkEq(a->b, b));
            eqMemo[key] = r;
            return r;
        }
        if(isC(b) && a->op == Op::ADD && isC(a->b))
            return mkEq(a->a, cst(b->c - a->b->c, a->w));
        if(!isC(b) && a->id > b->id)
            std::swap(a, b);
        return node(Op::EQ, 1, a, b);
    }
    T mkCmp(Op op, T a, T b) // ULT / SLT
    {
        unsigned w = a->w;
        auto f = [&](uint64_t x, uint64_t y) -> bool
        { return op == Op::ULT ? x < y : sext64(x, w) < sext64(y, w); };
        if(a == b)
            return FALSE_;
        if(isC(a) && isC(b))
            return boolc(f(a->c, b->c));
        if(w == 1)
        {
            if(op == Op::ULT)
                return mkAnd(mkNot(a), b);
            return mkAnd(a, mkNot(b));
        }
        if(isCU(a) && isCU(b) && nEntries(a) * nEntries(b) <= 1024)
        {
            T r = FALSE_;
            for(auto& p : entries(a))
                for(auto& q : entries(b))
                    if(f(p.v, q.v))
                        r = mkOr(r, mkAnd(p.g, q.g));
            return r;
        }
        if(op == Op::ULT && isC(b) && b->c == 0)
            return FALSE_;
        if(op == Op::ULT && isC(a) && a->c == maskw(w))
            return FALSE_;
        if(op == Op::ULT && isC(b) && b->c == 1)
            return mkEq(a, cst(0, w));
        if(op == Op::ULT && isC(a) && a->c == 0)
            return mkNot(mkEq(b, a));
        if(a->op == Op::CONCAT && isC(a->a) && a->a->c == 0 && isC(b) && op == Op::ULT)
        {
            unsigned lo = a->b->w;
            if(b->c >> lo)
                return TRUE_;
            return mkCmp(op, a->b, cst(b->c, lo));
        }
        if(a->op == Op::ZEXT && isC(b) && op == Op::ULT)
        {
            unsigned lo = a->a->w;
            if(lo < 64 && (b->c >> lo))
                return TRUE_;
            return mkCmp(op, a->a, cst(b->c, lo));
        }
        return node(op, 1, a, b);
    }
    T mkExtract(T a, unsigned lo, unsigned n)
    {
        if(lo == 0 && n == a->w)
            return a;
        if(n == 0 || lo + n > a->w)
        {
            fprintf(stderr, "bad extract lo=%u n=%u w=%u\n", lo, n, a->w);
            abort();
        }
        if(isC(a))
            return cst(a->c >> lo, n);
        if(isU(a))
            return mapU(a, n, [&](uint64_t v) { return v >> lo; });
        switch(a->op)
        {
        case Op::CONCAT:
        {
            unsigned lw = a->b->w;
            if(lo >= lw)
                return mkExtract(a->a, lo - lw, n);
            if(lo + n <= lw)
                return mkExtract(a->b, lo, n);
            return mkConcat(mkExtract(a->a, 0, lo + n - lw), mkExtract(a->b, lo, lw - lo));
        }
        case Op::EXTRACT: return mkExtract(a->a, a->c + lo, n);
        case Op::ZEXT:
        {
            unsigned iw = a->a->w;
            if(lo >= iw)
                return cst(0, n);
            if(lo + n <= iw)
                return mkExtract(a->a, lo, n);
            return mkConcat(cst(0, lo + n - iw), mkExtract(a->a, lo, iw - lo));
        }
        case Op::SEXT:
            if(lo + n <= a->a->w)
                return mkExtract(a->a, lo, n);
            break;
        case Op::ITE:
        {
            uint64_t key = ((uint64_t) a->id << 16) | (lo << 8) | n;
            auto it = extMemo.find(key);
            if(it != extMemo.end())
                return it->second;
            T r = mkIte(a->k, mkExtract(a->a, lo, n), mkExtract(a->b, lo, n));
            extMemo[key] = r;
            return r;
        }
        case Op::BVNOT: return mkBvNot(mkExtract(a->a, lo, n));
        case Op::BVAND: case Op::BVOR: case Op::XOR:
            return mkBin(a->op, mkExtract(a->a, lo, n), mkExtract(a->b, lo, n));
        case Op::ADD:
            if(lo == 0)
                return mkBin(Op::ADD, mkExtract(a->a, 0, n), mkExtract(a->b, 0, n));
            break;
        default: break;
        }
        return node(Op::EXTRACT, n, a, nullptr, nullptr, lo);
    }
    T mkConcat(T hi, T lo)
    {
        unsigned w = hi->w + lo->w;
        if(isC(hi) && isC(lo))
            return cst((lo->w >= 64 ? 0 : hi->c << lo->w) | lo->c, w);
        if(w <= 64 && isCU(hi) && isCU(lo) && nEntries(hi) * nEntries(lo) <= 16)
        {
            unsigned lw = lo->w;
            if(isC(hi))
                return lo->w == 1 ? mkIte(lo, cst(hi->c << 1 | 1, w), cst(hi->c << 1, w))
                                  : mapU(lo, w, [&](uint64_t v) { return (hi->c << lw) | v; });
            if(isC(lo) && hi->w > 1)
                return mapU(hi, w, [&](uint64_t v) { return (v << lw) | lo->c; });
            if(hi->w > 1 && lo->w > 1)
                return mapUU(hi, lo, w, [&](uint64_t x, uint64_t y) { return (x << lw) | y; });
        }
        // normalise to right-nested concat
        if(hi->op == Op::CONCAT)
            return mkConcat(hi->a, mkConcat(hi->b, lo));
        if(lo->op == Op::CONCAT && isC(hi) && isC(lo->a))
            return mkConcat(mkConcat(hi, lo->a), lo->b);
        if(hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w)
            return mkExtract(hi->a, lo->c, w);
        if(hi->op == Op::EXTRACT && lo->op == Op::CONCAT && lo->a->op == Op::EXTRACT && hi->a == lo->a->a
           && hi->c == lo->a->c + lo->a->w)
            return mkConcat(mkExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
        // complete byte-wise reassembly of an extract of the full term
        if(hi->op == Op::EXTRACT && hi->a == lo && hi->c == lo->w)
            return hi->a->w == w ? hi->a : node(Op::CONCAT, w, hi, lo);
        return node(Op::CONCAT, w, hi, lo);
    }
    T mkZext(T a, unsigned w)
    {
        if(w == a->w)
            return a;
        if(a->w == 1)
            return mkIte(a, cst(1, w), cst(0, w));
        return mkConcat(cst(0, w - a->w), a);
    }
    T mkSext(T a, unsigned w)
    {
        if(w == a->w)
            return a;
        unsigned aw = a->w;
        if(aw == 1)
            return mkIte(a, cst(~0ull, w), cst(0, w));
        if(isC(a))
            return cst((uint64_t) sext64(a->c, aw), w);
        if(isU(a))
            return mapU(a, w, [&](uint64_t v) { return (uint64_t) sext64(v, aw); });
        if(a->op == Op::CONCAT && isC(a->a) && !(a->a->c >> (a->a->w - 1)))
            return mkZext(a, w);
        return node(Op::SEXT, w, a);
    }
};

std::string termStr(T t, TermMgr& tm, int depth = 6);
