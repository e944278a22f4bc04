// Term -> z3 translation, incremental queries under assumption literals, model cache, evaluation.
#pragma once
#include "term.hpp"

#include <chrono>
#include <deque>
#include <z3++.h>

struct Model
{
    std::vector<uint64_t> val; // by var index (missing = 0)
    std::vector<uint8_t> have; // eval cache by term id
    std::vector<uint64_t> cache;
};

struct Solver
{
    TermMgr& tm;
    z3::context ctx;
    z3::solver s;
    std::vector<Z3_ast> zast; // by term id
    std::vector<z3::expr> hold;
    std::unordered_map<T, z3::expr> lits;
    std::unordered_map<T, int> memo; // 1 sat 0 unsat
    std::deque<Model> models;
    size_t maxModels = 24;

    uint64_t nQueries = 0, nSat = 0, nUnsat = 0, nModelHits = 0, nMemo = 0, nTrivial = 0;
    double time = 0;
    double deadline = 0; // absolute seconds; 0 = none
    unsigned timeoutMs = 0;
    Model last; // model of the last satisfiable query

    Solver(TermMgr& tm) : tm(tm), s(ctx, "QF_FD")
    {
    }

    static double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    z3::expr toBV(T t)
    {
        z3::expr e = tr(t);
        if(t->w == 1)
            return z3::ite(e, ctx.bv_val(1, 1), ctx.bv_val(0, 1));
        return e;
    }
    z3::expr tr(T t)
    {
        if(zast.size() <= t->id)
            zast.resize(tm.all.size() + 1024, nullptr);
        if(zast[t->id])
            return z3::expr(ctx, zast[t->id]);
        z3::expr r(ctx);
        switch(t->op)
        {
        case Op::CONST: r = t->w == 1 ? ctx.bool_val(t->c != 0) : ctx.bv_val((uint64_t) t->c, t->w); break;
        case Op::VAR:
        {
            std::string n = "v" + std::to_string(t->c);
            r = t->w == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), t->w);
            break;
        }
        case Op::NOT: r = !tr(t->a); break;
        case Op::AND: r = tr(t->a) && tr(t->b); break;
        case Op::XOR: r = t->w == 1 ? (tr(t->a) != tr(t->b)) : (tr(t->a) ^ tr(t->b)); break;
        case Op::ADD: r = tr(t->a) + tr(t->b); break;
        case Op::SUB: r = tr(t->a) - tr(t->b); break;
        case Op::MUL: r = tr(t->a) * tr(t->b); break;
        case Op::UDIV: r = z3::udiv(tr(t->a), tr(t->b)); break;
        case Op::SDIV: r = tr(t->a) / tr(t->b); break;
        case Op::UREM: r = z3::urem(tr(t->a), tr(t->b)); break;
        case Op::SREM: r = z3::srem(tr(t->a), tr(t->b)); break;
        case Op::SHL: r = z3::shl(tr(t->a), tr(t->b)); break;
        case Op::LSHR: r = z3::lshr(tr(t->a), tr(t->b)); break;
        case Op::ASHR: r = z3::ashr(tr(t->a), tr(t->b)); break;
        case Op::BVAND: r = tr(t->a) & tr(t->b); break;
        case Op::BVOR: r = tr(t->a) | tr(t->b); break;
        case Op::BVNOT: r = ~tr(t->a); break;
        case Op::EQ: r = tr(t->a) == tr(t->b); break;
        case Op::ULT: r = z3::ult(tr(t->a), tr(t->b)); break;
        case Op::SLT: r = z3::slt(tr(t->a), tr(t->b)); break;
        case Op::ITE: r = z3::ite(tr(t->k), tr(t->a), tr(t->b)); break;
        case Op::CONCAT: r = z3::concat(toBV(t->a), toBV(t->b)); break;
        case Op::EXTRACT:
        {
            r = tr(t->a).extract(t->c + t->w - 1, t->c);
            if(t->w == 1)
                r = r == ctx.bv_val(1, 1);
            break;
        }
        case Op::ZEXT: r = z3::zext(toBV(t->a), t->w - t->a->w); break;
        case Op::SEXT: r = z3::sext(toBV(t->a), t->w - t->a->w); break;
        case Op::UNION:
        {
            auto& u = *t->u;
            r = ctx.bv_val((uint64_t) u.back().v, t->w);
            for(size_t i = u.size() - 1; i-- > 0;)
                r = z3::ite(tr(u[i].g), ctx.bv_val((uint64_t) u[i].v, t->w), r);
            break;
        }
        }
        if(zast.size() <= t->id)
            zast.resize(tm.all.size() + 1024, nullptr);
        Z3_inc_ref(ctx, r);
        zast[t->id] = r;
        return r;
    }

    uint64_t eval(T t, Model& m)
    {
        if(t->op == Op::CONST)
            return t->c;
        if(t->op == Op::VAR)
            return t->c < m.val.size() ? m.val[t->c] & maskw(t->w) : 0;
        if(m.have.size() <= t->id)
        {
            m.have.resize(tm.all.size() + 4096, 0);
            m.cache.resize(tm.all.size() + 4096, 0);
        }
        if(m.have[t->id])
            return m.cache[t->id];
        uint64_t r = 0;
        auto A = [&] { return eval(t->a, m); };
        auto B = [&] { return eval(t->b, m); };
        switch(t->op)
        {
        case Op::NOT: r = !A(); break;
        case Op::AND: r = A() && B(); break;
        case Op::BVNOT: r = ~A() & maskw(t->w); break;
        case Op::EQ: r = A() == B(); break;
        case Op::ULT: r = A() < B(); break;
        case Op::SLT: r = sext64(A(), t->a->w) < sext64(B(), t->a->w); break;
        case Op::ITE: r = eval(t->k, m) ? A() : B(); break;
        case Op::CONCAT: r = (t->b->w >= 64 ? 0 : A() << t->b->w) | B(); break;
        case Op::EXTRACT: r = (A() >> t->c) & maskw(t->w); break;
        case Op::ZEXT: r = A(); break;
        case Op::SEXT: r = (uint64_t) sext64(A(), t->a->w) & maskw(t->w); break;
        case Op::UNION:
        {
            auto& u = *t->u;
            r = u.back().v;
            for(size_t i = 0; i + 1 < u.size(); ++i)
                if(eval(u[i].g, m))
                {
                    r = u[i].v;
                    break;
                }
            break;
        }
        default: r = TermMgr::fold(t->op, A(), B(), t->w); break;
        }
        if(m.have.size() <= t->id)
        {
            m.have.resize(tm.all.size() + 4096, 0);
            m.cache.resize(tm.all.size() + 4096, 0);
        }
        m.have[t->id] = 1;
        m.cache[t->id] = r;
        return r;
    }

    z3::expr lit(T t)
    {
        auto it = lits.find(t);
        if(it != lits.end())
            return it->second;
        z3::expr e = tr(t);
        if(t->op == Op::VAR)
        {
            lits.emplace(t, e);
            return e;
        }
        std::string n = "p" + std::to_string(t->id);
        z3::expr p = ctx.bool_const(n.c_str());
        s.add(z3::implies(p, e));
        lits.emplace(t, p);
        return p;
    }

    // is t satisfiable?
    bool sat(T t, bool wantModel = false)
    {
        if(t->op == Op::CONST && (!wantModel || !t->c))
        {
            nTrivial++;
            return t->c;
        }
        if(!wantModel)
        {
            auto it = memo.find(t);
            if(it != memo.end())
            {
                nMemo++;
                return it->second;
            }
        }
        for(size_t i = 0; i < models.size(); ++i)
        {
            if(eval(t, models[i]))
            {
                nModelHits++;
                memo[t] = 1;
                if(wantModel)
                    last = models[i];
                if(i > 0)
                    std::swap(models[i], models[i - 1]);
                return true;
            }
        }
        double t0 = now();
        z3::expr_vector as(ctx);
        // split top-level conjuncts so that literals are shared between queries
        as.push_back(lit(t));
        if(deadline > 0)
        {
            double left = deadline - t0;
            if(left < 1)
                left = 1;
            unsigned ms = (unsigned) (left * 1000);
            s.set("timeout", ms);
        }
        z3::check_result r = s.check(as);
        time += now() - t0;
        nQueries++;
        if(r == z3::unknown)
        {
            throw std::runtime_error("solver returned unknown: " + s.reason_unknown());
        }
        if(r == z3::unsat)
        {
            nUnsat++;
            memo[t] = 0;
            return false;
        }
        nSat++;
        memo[t] = 1;
        Model m;
        z3::model zm = s.get_model();
        m.val.resize(tm.vars.size(), 0);
        for(T v : tm.vars)
            if(zast.size() > v->id && zast[v->id])
            {
                z3::expr e = zm.eval(z3::expr(ctx, zast[v->id]), false);
                if(v->w == 1)
                    m.val[v->c] = e.is_true();
                else if(e.is_numeral())
                    m.val[v->c] = e.get_numeral_uint64();
            }
        if(!eval(t, m))
        {
            fprintf(stderr, "internal: model does not satisfy the query (translation mismatch)\n");
            abort();
        }
        if(wantModel)
            last = m;
        models.push_front(std::move(m));
        if(models.size() > maxModels)
            models.pop_back();
        return true;
    }
};
