// Library models (allocation, locks, condition variables, exceptions, harness interface), thread runs, and the
// layered exploration of all interleavings.
#include "engine.hpp"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static uint64_t mix64(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
static uint64_t hashStr(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for(char c : s)
        h = (h ^ (unsigned char) c) * 1099511628211ull;
    return h;
}
[[noreturn]] static void die(std::string const& m)
{
    throw std::runtime_error(m);
}
static bool startsWith(std::string const& s, char const* p)
{
    return s.compare(0, strlen(p), p) == 0;
}

void Engine::cut(State& s, T cond)
{
    removed = tm.mkOr(removed, tm.mkAnd(s.guard, cond));
    s.guard = tm.mkAnd(s.guard, tm.mkNot(cond));
}
uint64_t Engine::siteOf(Frame const& f)
{
    return mix64(
        mix64(f.shash, f.fi->id),
        ((uint64_t) f.fi->rpo.find(f.bb)->second << 16) | f.fi->iidx.find(f.pc)->second);
}
std::string Engine::cstr(State& s, T p)
{
    if(p->op != Op::CONST)
        return "?";
    std::string r;
    for(uint64_t a = p->c; r.size() < 400; ++a)
    {
        if(!findObj(a))
            break;
        T b = rd(s, a, 1);
        if(b->op != Op::CONST || b->c == 0)
            break;
        r += (char) b->c;
    }
    return r;
}
Engine::R Engine::forkValues(SP& s, CallBase* cb, unsigned arg, T v, std::function<R(SP&, uint64_t)> k)
{
    if(v->op == Op::CONST)
        return k(s, v->c);
    std::vector<UVal> es;
    if(!enumerate(*s, v, es, 64))
    {
        incompleteAt(*s, "call with a symbolic argument of more than 64 values");
        return GONE;
    }
    std::vector<std::pair<uint64_t, T>> feas;
    for(auto& e : es)
    {
        T g = tm.mkAnd(s->guard, e.g);
        if(solver.sat(g))
            feas.push_back({e.v, g});
    }
    if(feas.size() == 1)
        return k(s, feas[0].first);
    st.forks++;
    for(auto& [x, g] : feas)
    {
        SP o = clone(*s);
        o->guard = g;
        R r = k(o, x);
        if(r == CONT || r == JUMP)
            pushWork(std::move(o));
        else if(r == STOP)
            stopAt(std::move(o));
    }
    return GONE;
}
void Engine::stopAt(SP s)
{
    if(s->guard == tm.FALSE_)
        return;
    for(auto& fp : s->th[s->cur].fr)
    {
        bool need = false;
        for(auto& [L, n] : fp->iters)
            if(n != 1)
                need = true;
        if(need)
        {
            if(fp.use_count() > 1)
                fp = std::make_shared<Frame>(*fp);
            for(auto& [L, n] : fp->iters)
                n = 1;
        }
    }
    stops->push_back(std::move(s));
}

static std::set<std::string> const ignored
    = {"atexit", "__cxa_atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev",
       "sched_yield", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD0Ev", "_ZNSt13runtime_errorD1Ev",
       "_ZNSt13runtime_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12out_of_rangeD2Ev", "_ZNSt12out_of_rangeC1EPKc",
       "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev",
       "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12length_errorC1EPKc",
       "_ZNSt12length_errorD1Ev", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev",
       "_ZNSt18condition_variableC2Ev", "_ZNSt18condition_variableD2Ev", "usleep", "nanosleep",
       "_ZdlPvS_", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy",
       "_ZNKSt9type_info4nameEv", "fflush", "fprintf", "printf", "puts", "putchar", "_ZSt16__throw_bad_castv_"};

static std::map<std::string, char const*> const throwers
    = {{"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
       {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
       {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
       {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
       {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
       {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
       {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
       {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
       {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
       {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"},
       {"_ZSt20__throw_future_errori", "_ZTISt12future_error"}};

Engine::R Engine::external(SP& s, CallBase* cb, Function* F, std::string const& n)
{
    Frame& f = s->th[s->cur].top();
    unsigned tid = s->th[s->cur].tid;
    auto A = [&](unsigned i) { return i == 0 && arg0 ? arg0 : op1(*s, s->th[s->cur].top(), cb->getArgOperand(i)); };
    auto ret = [&](T v) -> R
    {
        if(!cb->getType()->isVoidTy())
            setReg(s->th[s->cur].top(), cb, v);
        return finishCall(s, cb);
    };
    auto zero = [&]() -> R
    {
        if(cb->getType()->isVoidTy())
            return finishCall(s, cb);
        std::vector<std::pair<uint64_t, Type*>> ls;
        leaves(cb->getType(), 0, ls);
        std::vector<T> v;
        for(auto& l : ls)
            v.push_back(tm.cst(0, bits(l.second)));
        setRegs(s->th[s->cur].top(), cb, v);
        return finishCall(s, cb);
    };
    auto C = [&](uint64_t v, unsigned w) { return tm.cst(v, w); };
    auto blockIf = [&](T cond) // the thread waits while cond holds
    {
        if(!s->par)
        {
            T c = tm.mkAnd(s->guard, cond);
            if(c != tm.FALSE_ && solver.sat(c))
            {
                violation(*s, c, "deadlock", "the only running thread blocks");
                cut(*s, cond);
            }
        }
        else
            s->guard = tm.mkAnd(s->guard, tm.mkNot(cond));
        return s->guard != tm.FALSE_ && solver.sat(s->guard);
    };

    // ---------------- harness interface
    if(startsWith(n, "__sym_"))
    {
        if(n == "__sym_var")
        {
            std::string name = cstr(*s, A(0));
            unsigned w = A(1)->c;
            unsigned k = s->bump(hashStr(name) ^ 0x5a5a);
            name += "#" + std::to_string(k);
            T v;
            if(opt.replay)
            {
                auto it = opt.fixed.find(name);
                v = tm.cst(it == opt.fixed.end() ? 0 : it->second, w);
            }
            else
                v = tm.var(name, w);
            return ret(tm.mkZext(v, 64));
        }
        if(n == "__sym_assume")
        {
            T c = A(0);
            if(c->w > 1)
                c = tm.mkNot(tm.mkEq(c, C(0, c->w)));
            cut(*s, tm.mkNot(c));
            if(s->guard == tm.FALSE_ || !solver.sat(s->guard))
                return GONE;
            return finishCall(s, cb);
        }
        if(n == "__sym_assert")
        {
            T c = A(0);
            if(c->w > 1)
                c = tm.mkNot(tm.mkEq(c, C(0, c->w)));
            std::string msg = cstr(*s, A(1));
            st.asserts++;
            assertCount[msg]++;
            T bad = tm.mkAnd(s->guard, tm.mkNot(c));
            if(solver.sat(bad))
            {
                violation(*s, bad, "assert", msg);
                cut(*s, tm.mkNot(c));
                if(s->guard == tm.FALSE_ || !solver.sat(s->guard))
                    return GONE;
            }
            return finishCall(s, cb);
        }
        if(n == "__sym_cover")
        {
            T c = A(0);
            if(c->w > 1)
                c = tm.mkNot(tm.mkEq(c, C(0, c->w)));
            std::string msg = cstr(*s, A(1));
            bool& b = covers[msg];
            if(!b)
                b = solver.sat(tm.mkAnd(s->guard, c));
            return finishCall(s, cb);
        }
        if(n == "__sym_thread")
        {
            T fn = A(0), arg = A(1);
            unsigned id = s->th.size();
            addThread(*s, fn, arg);
            return ret(C(id, 32));
        }
        if(n == "__sym_ctx_new")
        {
            uint64_t id = allocKeyed(*s, 16, Obj::HEAP, "context", true, siteOf(s->th[s->cur].top()));
            T fn = A(0), arg = A(1);
            Obj* o = fn->op == Op::CONST ? findObj(fn->c) : nullptr;
            if(!o || !o->fn || o->fn->isDeclaration())
                die("context function must be a constant with a body");
            auto fr = makeFrame(o->fn, mix64(0x4321, id));
            fr->regs[fr->fi->num[o->fn->getArg(0)]] = arg;
            auto c = std::make_shared<Ctx>();
            c->fr.push_back(fr);
            s->ctxs[id] = c;
            return ret(C(id, 64));
        }
        if(n == "__sym_ctx_switch" || n == "__sym_ctx_exit")
        {
            bool exit = n == "__sym_ctx_exit";
            return forkValues(
                s,
                cb,
                0,
                A(0),
                [&, exit](SP& x, uint64_t to) -> R
                {
                    Thread& t = x->th[x->cur];
                    auto it = x->ctxs.find(to);
                    if(it == x->ctxs.end())
                    {
                        violation(*x, x->guard, "context", to ? "switch to a context which is running or has ended" : "switch to no context");
                        return GONE;
                    }
                    // handle of the context that is left
                    uint64_t own = t.ctx ? t.ctx : 0x7f0000000000ull + 16 * t.tid;
                    auto target = it->second;
                    x->ctxs.erase(it);
                    if(exit)
                    {
                        if(!t.ctx)
                            die("__sym_ctx_exit outside of a context");
                        for(auto& fp : t.fr)
                            wipeFrame(*x, *fp);
                        setAlive(*x, findObj(t.ctx), tm.FALSE_);
                    }
                    else
                    {
                        auto c = std::make_shared<Ctx>();
                        c->started = true;
                        c->fr = t.fr;
                        for(auto& fp : c->fr)
                            for(auto& l : fp->iters)
                                if(l.second != 1)
                                {
                                    fp = std::make_shared<Frame>(*fp);
                                    for(auto& [L, k] : fp->iters)
                                        k = 1;
                                    break;
                                }
                        c->caught = t.caught;
                        x->ctxs[own] = c;
                    }
                    t.fr = target->fr;
                    t.caught = target->caught;
                    t.ctx = to >= 0x7f0000000000ull && to < 0x7f0000001000ull ? 0 : to;
                    if(!t.ctx && to != 0x7f0000000000ull + 16 * t.tid)
                    {
                        violation(*x, x->guard, "context", "the context a thread started with is resumed by another thread");
                        return GONE;
                    }
                    Frame& f = t.top();
                    T v = tm.cst(exit ? 0 : own, 64);
                    if(!target->started)
                    {
                        f.regs[f.fi->num[f.fi->F->getArg(1)]] = v;
                        return JUMP;
                    }
                    auto* c2 = cast<CallBase>(f.pc);
                    setReg(f, c2, v);
                    R r = finishCall(x, c2);
                    return r == CONT ? JUMP : r;
                });
        }
        if(n == "__sym_join")
        {
            s->th[s->cur].joinReq = true;
            R r = finishCall(s, cb);
            return r == GONE ? GONE : STOP;
        }
        if(n == "__sym_tid")
            return ret(C(tid, 32));
        if(n == "__sym_atomic_begin")
        {
            s->th[s->cur].atomicDepth++;
            return finishCall(s, cb);
        }
        if(n == "__sym_atomic_end")
        {
            s->th[s->cur].atomicDepth--;
            return finishCall(s, cb);
        }
        if(n == "__sym_ghost_begin")
        {
            s->th[s->cur].ghost++;
            return finishCall(s, cb);
        }
        if(n == "__sym_ghost_end")
        {
            s->th[s->cur].ghost--;
            return finishCall(s, cb);
        }
        if(n == "__sym_sched_point")
            return finishCall(s, cb);
        if(n == "__sym_fail")
        {
            violation(*s, s->guard, "assert", cstr(*s, A(0)));
            return GONE;
        }
        if(n == "__sym_concrete") // fork over the feasible values
        {
            T v = A(0);
            return forkValues(
                s,
                cb,
                0,
                v,
                [&, w = v->w](SP& x, uint64_t c) -> R
                {
                    setReg(x->th[x->cur].top(), cb, tm.cst(c, w));
                    return finishCall(x, cb);
                });
        }
        if(n == "__sym_is_alive")
        {
            T p = A(0);
            std::vector<UVal> es;
            if(!enumerate(*s, p, es, 64))
                die("__sym_is_alive of a symbolic address");
            T r = tm.FALSE_;
            for(auto& e : es)
            {
                Obj* o = findObj(e.v);
                if(o && o->kind == Obj::HEAP)
                    r = tm.mkOr(r, tm.mkAnd(e.g, alive(*s, o)));
                else if(o)
                    r = tm.mkOr(r, e.g);
            }
            return ret(tm.mkZext(r, 32));
        }
        if(n == "__sym_zalloc")
        {
            T sz = A(0);
            return forkValues(
                s,
                cb,
                0,
                sz,
                [&](SP& x, uint64_t c) -> R
                {
                    uint64_t a = allocKeyed(*x, c, Obj::HEAP, "zalloc", true, siteOf(x->th[x->cur].top()));
                    setReg(x->th[x->cur].top(), cb, tm.cst(a, 64));
                    return finishCall(x, cb);
                });
        }
        if(n == "__sym_print")
        {
            if(opt.verbose || opt.replay)
            {
                T v = A(1);
                std::string l = cstr(*s, A(0));
                if(opt.replay)
                    notes.push_back(l + " = " + (v->op == Op::CONST ? std::to_string(v->c) : termStr(v, tm, 4)));
                if(opt.verbose)
                    fprintf(stderr, "[t%u] %s = %s\n", tid, l.c_str(), termStr(v, tm, 4).c_str());
            }
            return finishCall(s, cb);
        }
        die("unknown harness function " + n);
    }
    // ---------------- allocation
    bool alignedNew = n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t";
    if(n == "_Znwm" || n == "_Znam" || n == "malloc" || alignedNew || n == "_ZnwmRKSt9nothrow_t"
       || n == "_ZnamRKSt9nothrow_t")
    {
        T sz = A(0);
        return forkValues(
            s,
            cb,
            0,
            sz,
            [&](SP& x, uint64_t c) -> R
            {
                if(c > (1ull << 32))
                {
                    incompleteAt(*x, "allocation of more than 4 GiB");
                    return GONE;
                }
                uint64_t a = allocKeyed(*x, c, Obj::HEAP, "heap", false, siteOf(x->th[x->cur].top()));
                setReg(x->th[x->cur].top(), cb, tm.cst(a, 64));
                return finishCall(x, cb);
            });
    }
    if(n == "calloc")
    {
        T a = A(0), b = A(1);
        if(a->op != Op::CONST || b->op != Op::CONST)
            die("calloc of symbolic size");
        return ret(C(allocKeyed(*s, a->c * b->c, Obj::HEAP, "heap", true, siteOf(f)), 64));
    }
    if(n == "aligned_alloc")
    {
        T b = A(1);
        if(b->op != Op::CONST)
            die("aligned_alloc of symbolic size");
        return ret(C(allocKeyed(*s, b->c, Obj::HEAP, "heap", false, siteOf(f)), 64));
    }
    if(n == "free" || startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv"))
    {
        T p = A(0);
        std::vector<UVal> es;
        if(!enumerate(*s, p, es, 128))
        {
            incompleteAt(*s, "free of a symbolic address");
            return GONE;
        }
        for(auto& e : es)
        {
            if(e.v == 0)
                continue;
            T c = tm.mkAnd(s->guard, e.g);
            Obj* o = findObj(e.v);
            if(!o || o->kind != Obj::HEAP || o->base != e.v)
            {
                if(solver.sat(c))
                {
                    violation(*s, c, "memory", "free of an invalid address");
                    cut(*s, e.g);
                }
                continue;
            }
            T al = alive(*s, o);
            if(al != tm.TRUE_)
            {
                T b = tm.mkAnd(c, tm.mkNot(al));
                if(solver.sat(b))
                {
                    violation(*s, b, "memory", "double free of " + o->name);
                    cut(*s, tm.mkAnd(e.g, tm.mkNot(al)));
                }
            }
            if(o->size <= 4096)
                note(*s, o->base, o->size, true);
            else if(s->par && !s->th[s->cur].ghost)
                for(uint64_t w = o->base; w < o->base + o->size; w += 8)
                    if(foot.count(w))
                        note(*s, w, 8, true);
            setAlive(*s, o, tm.mkAnd(al, tm.mkNot(e.g)));
            if(opt.split && e.g == tm.TRUE_)
                for(uint64_t w = o->base & ~7ull; w < o->base + o->size; w += 8)
                    if(s->mem.get(w))
                        s->mem.set(w, nullptr);
        }
        if(s->guard == tm.FALSE_)
            return GONE;
        return ret(C(0, 64));
    }
    // ---------------- locks
    if(startsWith(n, "pthread_mutex_") || startsWith(n, "pthread_rwlock_") || n == "pthread_spin_lock")
    {
        if(ignored.count(n))
            return zero();
        T m = A(0);
        bool ok;
        T v = load(*s, m, 4, ok);
        if(!ok)
            return GONE;
        T isFree = tm.mkEq(v, C(0, 32));
        T wr_ = tm.mkNot(tm.mkEq(tm.mkBin(Op::BVAND, v, C(0x80000000u, 32)), C(0, 32)));
        T mine = C(0x80000000u | (tid + 1), 32);
        std::string op = n.substr(n.find('_', 8) + 1);
        if(op == "lock" || op == "wrlock")
        {
            if(!blockIf(tm.mkNot(isFree)))
                return GONE;
            if(!store(*s, m, 4, mine))
                return GONE;
            return ret(C(0, 32));
        }
        if(op == "trylock" || op == "trywrlock")
        {
            if(!store(*s, m, 4, tm.mkIte(isFree, mine, v)))
                return GONE;
            return ret(tm.mkIte(isFree, C(0, 32), C(16, 32)));
        }
        if(op == "rdlock")
        {
            if(!blockIf(wr_))
                return GONE;
            if(!store(*s, m, 4, tm.mkBin(Op::ADD, v, C(1, 32))))
                return GONE;
            return ret(C(0, 32));
        }
        if(op == "tryrdlock")
        {
            if(!store(*s, m, 4, tm.mkIte(wr_, v, tm.mkBin(Op::ADD, v, C(1, 32)))))
                return GONE;
            return ret(tm.mkIte(wr_, C(16, 32), C(0, 32)));
        }
        if(op == "unlock")
        {
            T notHeld = startsWith(n, "pthread_mutex") ? tm.mkNot(tm.mkEq(v, mine)) : isFree;
            T c = tm.mkAnd(s->guard, notHeld);
            if(solver.sat(c))
            {
                violation(*s, c, "lock", "unlock of a lock that is not held");
                cut(*s, notHeld);
                if(s->guard == tm.FALSE_)
                    return GONE;
            }
            T nv = tm.mkIte(wr_, C(0, 32), tm.mkBin(Op::SUB, v, C(1, 32)));
            if(!store(*s, m, 4, nv))
                return GONE;
            return ret(C(0, 32));
        }
        die("unsupported function " + n);
    }
    if(startsWith(n, "_ZNSt18condition_variable") && !ignored.count(n))
    {
        T cv = A(0);
        if(cv->op != Op::CONST)
            return forkValues(
                s,
                cb,
                0,
                cv,
                [&](SP& x, uint64_t v)
                {
                    arg0 = C(v, 64);
                    R r = external(x, cb, F, n);
                    arg0 = nullptr;
                    return r;
                });
        if(n == "_ZNSt18condition_variable10notify_allEv" || n == "_ZNSt18condition_variable10notify_oneEv")
        {
            bool all = n.find("notify_all") != std::string::npos;
            T before = tm.TRUE_; // no earlier thread was chosen
            unsigned k = s->th.size();
            if(k > 24)
                die("too many threads for a condition variable");
            std::vector<T> w(k), pick(k, tm.FALSE_);
            std::vector<UVal> dummy;
            if(!resolve(*s, cv, 48, "access", dummy))
                return GONE;
            note(*s, cv->c, 24, true);
            for(unsigned i = 0; i < k; ++i)
                w[i] = tm.mkEq(rd(*s, cv->c + i, 1), C(1, 8));
            if(all)
                pick = w;
            else
            {
                unsigned cnt = s->bump(0x77aa ^ tid);
                for(unsigned i = 0; i < k; ++i)
                {
                    // the last waiting thread is taken if no earlier one was
                    T later = tm.FALSE_;
                    for(unsigned j = i + 1; j < k; ++j)
                        later = tm.mkOr(later, w[j]);
                    T c;
                    std::string nm = "notify" + std::to_string(cnt) + "_by" + std::to_string(tid) + "_T" + std::to_string(i);
                    if(w[i] == tm.FALSE_)
                        continue;
                    if(later == tm.FALSE_)
                        c = tm.TRUE_;
                    else if(opt.replay)
                        c = tm.boolc(opt.fixed.count(nm) && opt.fixed[nm]);
                    else
                        c = tm.var(nm, 1);
                    c = tm.mkOr(c, tm.mkNot(later));
                    pick[i] = tm.mkAnd(before, tm.mkAnd(w[i], c));
                    before = tm.mkAnd(before, tm.mkNot(pick[i]));
                }
            }
            for(unsigned i = 0; i < k; ++i)
                if(pick[i] != tm.FALSE_)
                    wr(*s, cv->c + i, 1, tm.mkIte(pick[i], C(2, 8), rd(*s, cv->c + i, 1)));
            return finishCall(s, cb);
        }
        if(n == "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE")
        {
            T ul = A(1);
            bool ok;
            T m = load(*s, ul, 8, ok);
            if(!ok)
                return GONE;
            if(!s->par)
            {
                violation(*s, s->guard, "deadlock", "the only running thread waits on a condition variable");
                return GONE;
            }
            Thread& t = s->th[s->cur];
            if(t.sub == 0)
            {
                T v = load(*s, m, 4, ok);
                if(!ok)
                    return GONE;
                T nh = tm.mkNot(tm.mkEq(v, C(0x80000000u | (tid + 1), 32)));
                T c = tm.mkAnd(s->guard, nh);
                if(solver.sat(c))
                {
                    violation(*s, c, "lock", "wait on a condition variable without holding the lock");
                    cut(*s, nh);
                    if(s->guard == tm.FALSE_)
                        return GONE;
                }
                if(!store(*s, m, 4, C(0, 32)) || !store(*s, tm.mkBin(Op::ADD, cv, C(tid, 64)), 1, C(1, 8)))
                    return GONE;
                note(*s, cv->c, 24, true);
                s->th[s->cur].sub = 1;
                return STOP;
            }
            T w = load(*s, tm.mkBin(Op::ADD, cv, C(tid, 64)), 1, ok);
            if(!ok)
                return GONE;
            T v = load(*s, m, 4, ok);
            if(!ok)
                return GONE;
            T sig = tm.mkEq(w, C(2, 8));
            if(opt.spurious)
                sig = tm.TRUE_;
            if(!blockIf(tm.mkNot(tm.mkAnd(sig, tm.mkEq(v, C(0, 32))))))
                return GONE;
            if(!store(*s, m, 4, C(0x80000000u | (tid + 1), 32)) || !store(*s, tm.mkBin(Op::ADD, cv, C(tid, 64)), 1, C(0, 8)))
                return GONE;
            s->th[s->cur].sub = 0;
            return finishCall(s, cb);
        }
        die("unsupported function " + n);
    }
    if(startsWith(n, "_ZNSt10_Sp_locker"))
    {
        if(n[17] == 'C')
            s->th[s->cur].atomicDepth += 0x10000;
        else
            s->th[s->cur].atomicDepth -= 0x10000;
        return finishCall(s, cb);
    }
    // ---------------- static initialisation guards
    if(n == "__cxa_guard_acquire")
    {
        bool ok;
        T v = load(*s, A(0), 1, ok);
        if(!ok)
            return GONE;
        return ret(tm.mkZext(tm.mkEq(v, C(0, 8)), 32));
    }
    if(n == "__cxa_guard_release")
    {
        if(!store(*s, A(0), 1, C(1, 8)))
            return GONE;
        return finishCall(s, cb);
    }
    if(n == "__cxa_guard_abort")
        return finishCall(s, cb);
    // ---------------- exceptions
    if(n == "__cxa_allocate_exception")
    {
        T sz = A(0);
        uint64_t a = allocKeyed(*s, sz->c, Obj::HEAP, "exception", true, siteOf(f));
        return ret(C(a, 64));
    }
    if(n == "__cxa_free_exception")
        return finishCall(s, cb);
    if(n == "__cxa_throw")
    {
        T o = A(0), ti = A(1);
        if(o->op != Op::CONST || ti->op != Op::CONST)
            die("throw of a symbolic object");
        Thread& t = s->th[s->cur];
        t.excObj = o->c;
        t.excType = ti->c;
        return unwind(s);
    }
    if(n == "__cxa_begin_catch")
    {
        Thread& t = s->th[s->cur];
        t.caught.push_back({t.excObj, t.excType});
        T p = A(0);
        t.excObj = 0;
        return ret(p);
    }
    if(n == "__cxa_end_catch")
    {
        Thread& t = s->th[s->cur];
        if(!t.caught.empty())
            t.caught.pop_back();
        return finishCall(s, cb);
    }
    if(n == "__cxa_rethrow")
    {
        Thread& t = s->th[s->cur];
        if(t.caught.empty())
        {
            violation(*s, s->guard, "exception", "rethrow without an exception");
            return GONE;
        }
        t.excObj = t.caught.back().first;
        t.excType = t.caught.back().second;
        return unwind(s);
    }
    if(auto it = throwers.find(n); it != throwers.end())
    {
        GlobalVariable* g = M.getNamedGlobal(it->second);
        if(!g)
        {
            g = new GlobalVariable(M, Type::getInt64Ty(M.getContext()), true, GlobalValue::ExternalLinkage, nullptr, it->second);
        }
        Thread& t = s->th[s->cur];
        t.excObj = allocKeyed(*s, 16, Obj::HEAP, "exception", true, siteOf(f));
        t.excType = constAddr(g, s.get(), 0);
        return unwind(s);
    }
    if(n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "__cxa_pure_virtual" || n == "exit"
       || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__cxa_bad_cast" || n == "__clang_call_terminate")
    {
        std::string msg = n;
        if(n == "__assert_fail")
            msg = "assertion failed: " + cstr(*s, A(0));
        if(n == "_ZSt9terminatev")
            msg = "std::terminate called";
        violation(*s, s->guard, "abort", msg);
        return GONE;
    }
    // ---------------- strings
    if(n == "strlen")
    {
        T p = A(0);
        return forkValues(
            s,
            cb,
            0,
            p,
            [&](SP& x, uint64_t a) -> R
            {
                uint64_t k = 0;
                for(;; ++k)
                {
                    std::vector<UVal> d;
                    if(!resolve(*x, tm.cst(a + k, 64), 1, "read", d))
                        return GONE;
                    T b = rd(*x, a + k, 1);
                    if(b->op != Op::CONST)
                        die("strlen of a symbolic string");
                    if(b->c == 0)
                        break;
                }
                setReg(x->th[x->cur].top(), cb, tm.cst(k, 64));
                return finishCall(x, cb);
            });
    }
    if(n == "memcmp" || n == "bcmp")
    {
        T p = A(0), q = A(1), len = A(2);
        return forkValues(
            s,
            cb,
            2,
            len,
            [&](SP& x, uint64_t k) -> R
            {
                T r = tm.cst(0, 32);
                for(uint64_t i = k; i-- > 0;)
                {
                    bool ok;
                    T a = load(*x, tm.mkBin(Op::ADD, p, tm.cst(i, 64)), 1, ok);
                    if(!ok)
                        return GONE;
                    T b = load(*x, tm.mkBin(Op::ADD, q, tm.cst(i, 64)), 1, ok);
                    if(!ok)
                        return GONE;
                    r = tm.mkIte(
                        tm.mkEq(a, b),
                        r,
                        tm.mkBin(Op::SUB, tm.mkZext(a, 32), tm.mkZext(b, 32)));
                }
                setReg(x->th[x->cur].top(), cb, r);
                return finishCall(x, cb);
            });
    }
    if(ignored.count(n))
        return zero();
    for(auto& x : opt.noFail)
        if(n == x)
            return zero();
    die("unsupported external function " + demangle(n) + " (" + n + ") called from " + where(*s));
}

// ------------------------------------------------------------------ threads

std::shared_ptr<Frame> Engine::makeFrame(Function* F, uint64_t shash)
{
    FInfo* fi = info(F);
    executed.insert(fi->name);
    auto f = std::make_shared<Frame>();
    f->fi = fi;
    f->bb = &F->getEntryBlock();
    f->pc = &f->bb->front();
    f->regs.assign(fi->nslots, nullptr);
    f->shash = shash;
    return f;
}
void Engine::addThread(State& s, T fn, T arg)
{
    if(fn->op != Op::CONST)
        die("thread function must be constant");
    Obj* o = findObj(fn->c);
    if(!o || !o->fn || o->fn->isDeclaration())
        die("thread function has no body");
    Thread t;
    t.tid = s.th.size();
    if(t.tid >= 31)
        die("too many threads");
    nThreadsMax = std::max(nThreadsMax, t.tid + 1);
    auto f = makeFrame(o->fn, mix64(0x1234, t.tid));
    FInfo* fi = f->fi;
    if(o->fn->arg_size() == 1)
        f->regs[fi->num[o->fn->getArg(0)]] = arg;
    t.fr.push_back(f);
    s.th.push_back(std::move(t));
    unsigned save = s.cur;
    for(auto& G : M.globals())
        if(G.isThreadLocal())
        {
            uint64_t a = constAddr(&G, &s, s.th.back().tid);
            if(G.hasInitializer())
                storeConst(s, a, G.getInitializer());
        }
    s.cur = save;
}

std::vector<SP> Engine::runThread(std::vector<SP> init)
{
    Work w;
    std::vector<SP> out;
    Work* sw = work;
    auto* ss = stops;
    work = &w;
    stops = &out;
    for(auto& s : init)
        pushWork(std::move(s));
    while(!w.q.empty())
    {
        st.maxWork = std::max<uint64_t>(st.maxWork, w.q.size());
        SP s = std::move(w.q.begin()->second);
        w.q.erase(w.q.begin());
        for(;;)
        {
            Thread& t = s->th[s->cur];
            Instruction* I = t.topc().pc;
            if(s->par)
            {
                if(t.atomicDepth == 0 && isVisible(*s, I))
                {
                    if(t.quantum)
                        t.quantum = false;
                    else
                    {
                        schedInstrs.insert(I);
                        stopAt(std::move(s));
                        break;
                    }
                }
                if(opt.replay && t.ghost == 0 && replaySet.count(I))
                    events.push_back({t.tid, I});
            }
            R r = exec(s);
            if(r == CONT)
                continue;
            if(r == GONE)
                break;
            if(r == STOP)
            {
                stopAt(std::move(s));
                break;
            }
            if(s->guard == tm.FALSE_)
                break;
            if(w.q.empty())
                continue;
            pushWork(std::move(s));
            break;
        }
    }
    work = sw;
    stops = ss;
    return out;
}

std::string termStr(T t, TermMgr& tm, int d);
static bool const dbgDiff = getenv("RG_DIFF");
static bool sameThread(Thread const& a, Thread const& b)
{
    if(a.fr.size() != b.fr.size() || a.finished != b.finished || a.atomicDepth != b.atomicDepth || a.ghost != b.ghost
       || a.sub != b.sub || a.ctx != b.ctx || a.caught != b.caught || a.excObj != b.excObj)
        return false;
    for(size_t i = 0; i < a.fr.size(); ++i)
    {
        if(a.fr[i] == b.fr[i])
            continue;
        Frame const &x = *a.fr[i], &y = *b.fr[i];
        if(x.fi != y.fi || x.bb != y.bb || x.pc != y.pc)
            return false;
        for(size_t j = 0; j < x.regs.size(); ++j)
            if(x.regs[j] != y.regs[j])
                return false;
    }
    return true;
}
bool Engine::stutter(State const& a, State const& b, unsigned t)
{
    bool st = sameThread(a.th[t], b.th[t]);
    if(dbgDiff && st && !Mem::equal(a.mem, b.mem))
    {
        fprintf(stderr, "step of T%u at %s changed:\n", t, locStr(a.th[t].topc().pc).c_str());
        Mem::diff(
            a.mem,
            b.mem,
            [&](uint64_t w, T x, T y)
            {
                Obj* o = findObj(w);
                fprintf(
                    stderr,
                    "   %lx %s+%ld: %s -> %s\n",
                    (long) w,
                    o ? o->name.c_str() : "?",
                    o ? (long) (w - o->base) : 0,
                    x ? termStr(x, tm, 2).c_str() : "-",
                    y ? termStr(y, tm, 2).c_str() : "-");
            });
    }
    return st && a.ctxs == b.ctxs && Mem::equal(a.mem, b.mem);
}

// all interleavings of the threads that were started: layers of one scheduling quantum each, states merged by
// program position
std::vector<SP> Engine::runPar(SP s0)
{
    s0->par = true;
    s0->parPhase++;
    s0->lastT = -1;
    s0->budget = opt.budget;
    unsigned phase = s0->parPhase;
    auto put = [&](std::map<Key, SP>& m, SP s)
    {
        if(s->guard == tm.FALSE_)
            return;
        Key k = globalKey(*s);
        auto it = m.find(k);
        if(it == m.end())
            m.emplace(std::move(k), std::move(s));
        else
            merge(*it->second, *s);
    };
    auto live = [&](State const& s)
    {
        std::vector<unsigned> v;
        for(unsigned i = 1; i < s.th.size(); ++i)
            if(!s.th[i].finished)
                v.push_back(i);
        return v;
    };
    // split mode: the graph of all reached states; a state reached again is not explored again
    struct Node
    {
        T guard, sched;
        unsigned layer;
        bool good = false; // final, or ended by an assumption or a reported violation
        std::vector<unsigned> pred;
        std::vector<Instruction*> pcs;
    };
    std::vector<Node> nodes;
    std::map<Key, unsigned> visited;
    bool const graph = opt.split && !opt.replay;
    std::map<Key, SP> cur;
    {
        auto ts = live(*s0);
        cur[globalKey(*s0)] = std::move(s0);
        for(unsigned t : ts)
        {
            std::map<Key, SP> nx;
            for(auto& [k, s] : cur)
            {
                s->cur = t;
                s->th[t].quantum = false;
                std::vector<SP> in;
                in.push_back(std::move(s));
                for(auto& r : runThread(std::move(in)))
                    put(nx, std::move(r));
            }
            cur = std::move(nx);
        }
    }
    std::map<Key, SP> finals;
    auto step = [&](State const& s, unsigned t) -> std::vector<SP>
    {
        SP x = clone(s);
        x->cur = t;
        x->th[t].quantum = true;
        st.steps++;
        std::vector<SP> in;
        in.push_back(std::move(x));
        auto out = runThread(std::move(in));
        for(auto& o : out)
            o->th[t].quantum = false;
        return out;
    };
    unsigned layer = 0;
    auto addNode = [&](Key const& k, State const& s, unsigned lay)
    {
        Node n;
        n.guard = s.guard;
        n.sched = s.sched;
        n.layer = lay;
        for(auto& t : s.th)
            n.pcs.push_back(t.fr.empty() ? nullptr : t.topc().pc);
        visited[k] = nodes.size();
        nodes.push_back(std::move(n));
        return (unsigned) nodes.size() - 1;
    };
    if(graph)
        for(auto& [k, s] : cur)
            addNode(k, *s, 0);
    for(; !cur.empty() && layer < opt.maxLayers; ++layer)
    {
        st.layers++;
        if(opt.verbose)
            fprintf(
                stderr,
                "phase %u layer %u: %zu states, %zu terms, %llu queries, %.1fs solver, %.1fs\n",
                phase,
                layer,
                cur.size(),
                tm.all.size(),
                (unsigned long long) solver.nQueries,
                solver.time,
                Solver::now() - t0);
        std::map<Key, SP> next;
        for(auto& [k, s] : cur)
        {
            checkTime();
            auto ts = live(*s);
            unsigned self = graph ? visited[k] : 0;
            if(ts.empty())
            {
                if(graph)
                    nodes[self].good = true;
                put(finals, std::move(s));
                continue;
            }
            st.parStates++;
            T progress = tm.FALSE_, before = tm.TRUE_, lastProg = tm.FALSE_;
            removed = tm.FALSE_;
            bool lastLive = s->budget >= 0 && s->lastT > 0 && !s->th[s->lastT].finished;
            if(lastLive)
            {
                // the thread that ran last first: switching away from it while it can run costs a preemption
                ts.erase(std::find(ts.begin(), ts.end(), (unsigned) s->lastT));
                ts.insert(ts.begin(), s->lastT);
            }
            for(size_t i = 0; i < ts.size(); ++i)
            {
                unsigned t = ts[i];
                T sel;
                if(i + 1 < ts.size())
                {
                    std::string nm = "P" + std::to_string(phase) + "_L" + std::to_string(layer) + "_T" + std::to_string(t);
                    T c = opt.replay ? tm.boolc(opt.fixed.count(nm) && opt.fixed[nm]) : tm.var(nm, 1);
                    sel = tm.mkAnd(before, c);
                    before = tm.mkAnd(before, tm.mkNot(c));
                }
                else
                    sel = before;
                if(opt.replay && sel == tm.FALSE_)
                    continue;
                bool preempt = lastLive && i > 0;
                if(preempt && s->budget == 0 && !solver.sat(tm.mkAnd(s->guard, tm.mkNot(lastProg))))
                    continue;
                auto res = step(*s, t);
                T pt = tm.FALSE_;
                for(auto& r : res)
                {
                    bool stut = stutter(*s, *r, t);
                    if(stut && !opt.replay)
                        continue;
                    st.transitions++;
                    if(!stut)
                        pt = tm.mkOr(pt, r->guard);
                    auto emit = [&](SP x, int cost)
                    {
                        // the schedule variables of this layer are fresh: they cannot contradict the guard
                        bool same = !opt.replay && x->guard == s->guard;
                        if(opt.split)
                        {
                            same = true;
                            x->sched = tm.mkAnd(x->sched, sel);
                        }
                        else
                            x->guard = tm.mkAnd(x->guard, sel);
                        if(x->guard == tm.FALSE_ || (!same && !solver.sat(x->guard)))
                            return;
                        x->lastT = opt.budget >= 0 ? (int) t : -1;
                        if(x->budget >= 0)
                            x->budget -= cost;
                        if(graph)
                        {
                            Key k2 = globalKey(*x);
                            auto it = visited.find(k2);
                            unsigned id = it == visited.end() ? addNode(k2, *x, layer + 1) : it->second;
                            nodes[id].pred.push_back(self);
                            if(it != visited.end() && nodes[id].layer != layer + 1)
                                return;
                        }
                        put(next, std::move(x));
                    };
                    if(!preempt)
                        emit(std::move(r), 0);
                    else
                    {
                        SP fr = clone(*r);
                        fr->guard = tm.mkAnd(fr->guard, tm.mkNot(lastProg));
                        if(fr->guard != tm.FALSE_)
                            emit(std::move(fr), 0);
                        if(s->budget > 0)
                        {
                            r->guard = tm.mkAnd(r->guard, lastProg);
                            if(r->guard != tm.FALSE_)
                                emit(std::move(r), 1);
                        }
                    }
                }
                if(lastLive && i == 0)
                    lastProg = pt;
                progress = tm.mkOr(progress, pt);
            }
            if(graph && removed != tm.FALSE_)
                nodes[self].good = true;
            {
                T dl = tm.mkAnd(s->guard, tm.mkNot(tm.mkOr(progress, removed)));
                bool all = true;
                if(opt.replay)
                {
                    // in a replay only the chosen thread was run: a deadlock means that no thread can run
                    if(progress == tm.FALSE_ && removed == tm.FALSE_)
                    {
                        for(unsigned t : ts)
                        {
                            auto res = step(*s, t);
                            for(auto& r : res)
                                if(!stutter(*s, *r, t))
                                    all = false;
                        }
                        if(removed != tm.FALSE_)
                            all = false;
                    }
                    else
                        all = false;
                }
                if(all && solver.sat(dl))
                {
                    std::string m = "no thread can make progress";
                    unsigned sc = s->cur;
                    s->cur = ts[0];
                    violation(*s, dl, "deadlock", m);
                    s->cur = sc;
                    if(graph)
                        nodes[self].good = true;
                }
            }
        }
        cur = std::move(next);
    }
    if(!cur.empty())
    {
        // fair completion of the executions that are longer than the layer bound
        if(opt.verbose)
            fprintf(stderr, "layer bound reached with %zu states\n", cur.size());
        unfinished = true;
        unsigned idle = 0;
        for(unsigned r = 0; r < opt.fairLayers && !cur.empty(); ++r)
        {
            std::map<Key, SP> next;
            bool any = false;
            for(auto& [k, s] : cur)
            {
                checkTime();
                auto ts = live(*s);
                if(ts.empty())
                {
                    put(finals, std::move(s));
                    any = true;
                    continue;
                }
                unsigned t = ts[r % ts.size()];
                removed = tm.FALSE_;
                auto res = step(*s, t);
                T pt = removed;
                for(auto& x : res)
                {
                    if(stutter(*s, *x, t))
                        continue;
                    any = true;
                    pt = tm.mkOr(pt, x->guard);
                    put(next, std::move(x));
                }
                s->guard = tm.mkAnd(s->guard, tm.mkNot(pt));
                if(s->guard != tm.FALSE_ && solver.sat(s->guard))
                    put(next, std::move(s));
            }
            cur = std::move(next);
            idle = any ? 0 : idle + 1;
            if(idle > 8)
                break;
        }
        for(auto& [k, s] : cur)
        {
            auto ts = live(*s);
            if(ts.empty())
            {
                put(finals, std::move(s));
                continue;
            }
            s->cur = ts[0];
            if(solver.sat(s->guard))
                violation(
                    *s,
                    s->guard,
                    "no-termination",
                    "threads do not finish under fair scheduling within " + std::to_string(opt.maxLayers) + " steps and "
                        + std::to_string(opt.fairLayers) + " fair steps");
        }
    }
    if(graph && !unfinished)
    {
        // every reached state can be completed to a terminated one
        std::vector<unsigned> q;
        for(unsigned i = 0; i < nodes.size(); ++i)
            if(nodes[i].good)
                q.push_back(i);
        while(!q.empty())
        {
            unsigned i = q.back();
            q.pop_back();
            for(unsigned p : nodes[i].pred)
                if(!nodes[p].good)
                {
                    nodes[p].good = true;
                    q.push_back(p);
                }
        }
        for(auto& n : nodes)
            if(!n.good)
            {
                Violation v;
                v.kind = "no-termination";
                v.msg = "the program can no longer complete, whatever the schedule";
                v.layer = n.layer;
                for(unsigned t = 1; t < n.pcs.size(); ++t)
                    if(n.pcs[t])
                        v.trace.push_back("T" + std::to_string(t) + " at " + locStr(n.pcs[t]));
                v.where = "";
                if(!solver.sat(tm.mkAnd(n.guard, n.sched), true))
                    continue;
                v.model = modelMap(solver.last);
                violations[v.key()] = v;
                break;
            }
        st.graphNodes += nodes.size();
    }
    std::vector<SP> out;
    for(auto& [k, s] : finals)
    {
        s->par = false;
        s->cur = 0;
        s->lastT = -1;
        out.push_back(std::move(s));
    }
    return out;
}

bool Engine::runRound()
{
    violations.clear();
    covers.clear();
    assertCount.clear();
    incomplete.clear();
    spun = false;
    foot.clear();
    st.rounds++;
    removed = tm.FALSE_;
    unfinished = false;
    schedInstrs.clear();
    SP s = std::make_unique<State>();
    s->guard = tm.TRUE_;
    s->sched = tm.TRUE_;
    s->counts = std::make_shared<std::map<uint64_t, uint32_t>>();
    s->published = std::make_shared<std::set<uint64_t>>();
    Thread t;
    t.tid = 0;
    s->th.push_back(t);
    initGlobals(*s);
    std::vector<Function*> seq;
    if(auto* gc = M.getNamedGlobal("llvm.global_ctors"))
        if(auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for(auto& o : ca->operands())
            {
                auto* cs = cast<ConstantStruct>(o);
                if(auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    seq.push_back(f);
            }
    Function* E = M.getFunction(opt.entry);
    if(!E)
        die("no entry function " + opt.entry);
    seq.push_back(E);
    std::vector<SP> cur;
    cur.push_back(std::move(s));
    for(Function* F : seq)
    {
        std::vector<SP> done;
        for(auto& x : cur)
        {
            FInfo* fi = info(F);
            executed.insert(fi->name);
            auto f = std::make_shared<Frame>();
            f->fi = fi;
            f->bb = &F->getEntryBlock();
            f->pc = &f->bb->front();
            f->regs.assign(fi->nslots, nullptr);
            f->shash = mix64(0x99, fi->id);
            x->th[0].fr.clear();
            x->th[0].fr.push_back(f);
            x->th[0].finished = false;
        }
        while(!cur.empty())
        {
            auto outs = runThread(std::move(cur));
            cur.clear();
            // merge states that stopped at the same place
            std::map<Key, SP> m;
            for(auto& o : outs)
            {
                Key k = globalKey(*o);
                auto it = m.find(k);
                if(it == m.end())
                    m.emplace(std::move(k), std::move(o));
                else
                    merge(*it->second, *o);
            }
            for(auto& [k, o] : m)
            {
                if(o->th[0].joinReq)
                {
                    o->th[0].joinReq = false;
                    for(auto& r : runPar(std::move(o)))
                        cur.push_back(std::move(r));
                }
                else
                    done.push_back(std::move(o));
            }
        }
        cur = std::move(done);
    }
    finalStates = cur.size();
    // memory footprint: words touched by two threads, one of them writing
    bool grew = false;
    for(auto& [w, f] : foot)
    {
        if(f.plain && __builtin_popcount(f.r | f.w) >= 2 && f.w)
            if(conflict.insert(w).second)
                grew = true;
    }
    if(spinRounds < 2 && allAtomics) // back to the words known by now
        allAtomics = false, grew = true;
    else if(spun && !allAtomics && spinRounds < 2)
        allAtomics = true, ++spinRounds, grew = true;
    return grew;
}
bool Engine::runAll()
{
    for(unsigned r = 0;; ++r)
    {
        bool grew = runRound();
        if(opt.verbose)
            fprintf(stderr, "round %u: %zu shared words\n", r, conflict.size());
        if(opt.replay || !grew)
            break;
        if(r > 12)
            die("the set of shared words does not converge");
    }
    return violations.empty();
}
void Engine::adopt(Engine const& o)
{
    objs = o.objs;
    objByIdx.clear();
    objByIdx.resize(o.objByIdx.size());
    for(auto& [b, x] : objs)
        objByIdx[x.idx - 1] = &x;
    nextAddr = o.nextAddr;
    addrOfKey = o.addrOfKey;
    gaddr = o.gaddr;
    tlsAddr = o.tlsAddr;
    conflict = o.conflict;
    allAtomics = o.allAtomics;
    replaySet = o.schedInstrs;
}
