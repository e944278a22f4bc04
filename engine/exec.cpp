#include "engine.hpp"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static uint64_t mix64(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}

[[noreturn]] static void die(std::string const& m)
{
    throw std::runtime_error(m);
}

// ------------------------------------------------------------------ static info

unsigned Engine::slots(Type* t)
{
    if(auto* st = dyn_cast<StructType>(t))
    {
        unsigned n = 0;
        for(auto* e : st->elements())
            n += slots(e);
        return n;
    }
    if(auto* at = dyn_cast<ArrayType>(t))
        return at->getNumElements() * slots(at->getElementType());
    if(auto* vt = dyn_cast<FixedVectorType>(t))
        return vt->getNumElements() * slots(vt->getElementType());
    if(t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy())
        return 0;
    return 1;
}
void Engine::leaves(Type* t, uint64_t off, std::vector<std::pair<uint64_t, Type*>>& out)
{
    if(auto* stt = dyn_cast<StructType>(t))
    {
        auto* sl = DL.getStructLayout(stt);
        for(unsigned i = 0; i < stt->getNumElements(); ++i)
            leaves(stt->getElementType(i), off + (uint64_t) sl->getElementOffset(i), out);
    }
    else if(auto* at = dyn_cast<ArrayType>(t))
    {
        uint64_t es = DL.getTypeAllocSize(at->getElementType());
        for(uint64_t i = 0; i < at->getNumElements(); ++i)
            leaves(at->getElementType(), off + i * es, out);
    }
    else if(auto* vt = dyn_cast<FixedVectorType>(t))
    {
        uint64_t es = DL.getTypeAllocSize(vt->getElementType());
        for(uint64_t i = 0; i < vt->getNumElements(); ++i)
            leaves(vt->getElementType(), off + i * es, out);
    }
    else
        out.push_back({off, t});
}
unsigned Engine::bits(Type* t)
{
    if(t->isIntegerTy())
        return t->getIntegerBitWidth();
    if(t->isPointerTy())
        return 64;
    if(t->isFloatTy())
        return 32;
    if(t->isDoubleTy())
        return 64;
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    die("unsupported scalar type " + s);
}

FInfo* Engine::info(Function* F)
{
    auto it = finfo.find(F);
    if(it != finfo.end())
        return it->second;
    auto fi = std::make_unique<FInfo>();
    fi->F = F;
    if(fnIndex.empty())
    {
        unsigned n = 1;
        for(auto& g : M)
            fnIndex[&g] = n++;
    }
    fi->id = fnIndex[F];
    fi->name = F->getName().str();
    fi->dt = std::make_unique<DominatorTree>(*F);
    fi->li = std::make_unique<LoopInfo>(*fi->dt);
    // reverse post order, iterative
    std::vector<BasicBlock*> post;
    std::set<BasicBlock*> seen;
    std::vector<std::pair<BasicBlock*, unsigned>> stk;
    stk.push_back({&F->getEntryBlock(), 0});
    seen.insert(&F->getEntryBlock());
    while(!stk.empty())
    {
        auto& [bb, i] = stk.back();
        auto* ti = bb->getTerminator();
        if(i < ti->getNumSuccessors())
        {
            BasicBlock* n = ti->getSuccessor(i++);
            if(seen.insert(n).second)
                stk.push_back({n, 0});
        }
        else
        {
            post.push_back(bb);
            stk.pop_back();
        }
    }
    unsigned k = 0;
    for(auto i2 = post.rbegin(); i2 != post.rend(); ++i2)
        fi->rpo[*i2] = k++;
    for(auto& A : F->args())
    {
        fi->num[&A] = fi->nslots;
        fi->nslots += slots(A.getType());
    }
    for(auto& B : *F)
    {
        unsigned n = 0;
        std::vector<Loop*> ls;
        for(Loop* L = fi->li->getLoopFor(&B); L; L = L->getParentLoop())
            ls.insert(ls.begin(), L);
        fi->loops[&B] = ls;
        for(auto& I : B)
        {
            fi->iidx[&I] = n++;
            unsigned sl = slots(I.getType());
            if(sl)
            {
                fi->num[&I] = fi->nslots;
                fi->nslots += sl;
            }
        }
    }
    FInfo* r = fi.get();
    finfos.push_back(std::move(fi));
    finfo[F] = r;
    return r;
}

// ------------------------------------------------------------------ objects and globals

uint64_t Engine::newObj(uint64_t size, Obj::Kind k, std::string name, bool zero)
{
    Obj o;
    o.base = nextAddr;
    o.size = size;
    o.kind = k;
    o.zero = zero;
    o.name = name;
    uint64_t span = ((size + 63) / 64 + 1) * 64;
    nextAddr += span;
    o.idx = objByIdx.size() + 1;
    auto [it, _] = objs.emplace(o.base, o);
    objByIdx.push_back(&it->second);
    return o.base;
}
Obj* Engine::findObj(uint64_t a)
{
    auto it = objs.upper_bound(a);
    if(it == objs.begin())
        return nullptr;
    --it;
    Obj& o = it->second;
    if(a < o.base + o.size || (a == o.base && o.size == 0))
        return &o;
    return nullptr;
}
uint64_t Engine::constAddr(GlobalValue const* g, State* s, unsigned tid)
{
    if(auto* ga = dyn_cast<GlobalAlias>(g))
        return constAddr(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()), s, tid);
    if(g->isThreadLocal())
    {
        auto k = std::make_pair(g, tid);
        auto it = tlsAddr.find(k);
        if(it != tlsAddr.end())
            return it->second;
        uint64_t sz = DL.getTypeAllocSize(g->getValueType());
        uint64_t a = newObj(sz, Obj::TLS, g->getName().str(), true);
        objs[a].tid = tid;
        tlsAddr[k] = a;
        return a;
    }
    auto it = gaddr.find(g);
    if(it != gaddr.end())
        return it->second;
    uint64_t a;
    if(auto* f = dyn_cast<Function>(g))
    {
        a = newObj(16, Obj::FUNC, f->getName().str(), true);
        objs[a].fn = const_cast<Function*>(f);
    }
    else
    {
        uint64_t sz = g->getValueType()->isSized() ? (uint64_t) DL.getTypeAllocSize(g->getValueType()) : 64;
        if(cast<GlobalVariable>(g)->isDeclaration())
            sz = std::max<uint64_t>(sz, 64);
        a = newObj(sz, Obj::GLOBAL, g->getName().str(), true);
    }
    gaddr[g] = a;
    return a;
}
void Engine::constVals(Constant const* c, std::vector<T>& out, State* s)
{
    Type* t = c->getType();
    if(auto* ci = dyn_cast<ConstantInt>(c))
    {
        if(ci->getBitWidth() > 64)
            die("integer constant wider than 64 bits");
        out.push_back(tm.cst(ci->getZExtValue(), ci->getBitWidth()));
    }
    else if(isa<ConstantPointerNull>(c))
        out.push_back(tm.cst(0, 64));
    else if(auto* cf = dyn_cast<ConstantFP>(c))
        out.push_back(tm.cst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), bits(t)));
    else if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
    {
        std::vector<std::pair<uint64_t, Type*>> ls;
        leaves(t, 0, ls);
        for(auto& l : ls)
            out.push_back(tm.cst(0, bits(l.second)));
    }
    else if(auto* gv = dyn_cast<GlobalValue>(c))
        out.push_back(tm.cst(constAddr(gv, s, s ? s->th[s->cur].tid : 0), 64));
    else if(auto* ca = dyn_cast<ConstantDataSequential>(c))
    {
        for(unsigned i = 0; i < ca->getNumElements(); ++i)
            constVals(ca->getElementAsConstant(i), out, s);
    }
    else if(isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c))
    {
        for(auto& o : c->operands())
            constVals(cast<Constant>(o), out, s);
    }
    else if(auto* ce = dyn_cast<ConstantExpr>(c))
    {
        std::vector<T> a;
        switch(ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            APInt off(64, 0);
            constVals(ce->getOperand(0), a, s);
            if(!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off))
                die("constant gep");
            out.push_back(tm.mkBin(Op::ADD, a[0], tm.cst(off.getZExtValue(), 64)));
            break;
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast:
        case Instruction::Trunc:
        case Instruction::ZExt:
        {
            constVals(ce->getOperand(0), a, s);
            unsigned w = bits(t);
            if(a[0]->w > w)
                out.push_back(tm.mkExtract(a[0], 0, w));
            else
                out.push_back(tm.mkZext(a[0], w));
            break;
        }
        case Instruction::Add:
        case Instruction::Sub:
        case Instruction::Xor:
        {
            constVals(ce->getOperand(0), a, s);
            constVals(ce->getOperand(1), a, s);
            out.push_back(tm.mkBin(
                ce->getOpcode() == Instruction::Add   ? Op::ADD
                : ce->getOpcode() == Instruction::Sub ? Op::SUB
                                                      : Op::XOR,
                a[0],
                a[1]));
            break;
        }
        case Instruction::ICmp:
        {
            constVals(ce->getOperand(0), a, s);
            constVals(ce->getOperand(1), a, s);
            T e = tm.mkEq(a[0], a[1]);
            out.push_back(ce->getPredicate() == CmpInst::ICMP_EQ ? e : tm.mkNot(e));
            break;
        }
        default: die("constant expression " + std::string(ce->getOpcodeName()));
        }
    }
    else
        die("unsupported constant");
}
void Engine::storeConst(State& s, uint64_t addr, Constant const* c)
{
    if(c->isNullValue() || isa<UndefValue>(c))
        return;
    std::vector<std::pair<uint64_t, Type*>> ls;
    leaves(c->getType(), 0, ls);
    std::vector<T> v;
    constVals(c, v, &s);
    for(size_t i = 0; i < ls.size(); ++i)
    {
        unsigned w = v[i]->w, n = (w + 7) / 8;
        if(v[i] != tm.cst(0, w))
            wr(s, addr + ls[i].first, n, tm.mkZext(v[i], n * 8));
    }
}
void Engine::initGlobals(State& s)
{
    for(auto& G : M.globals())
    {
        if(G.isThreadLocal())
        {
            uint64_t a = constAddr(&G, &s, 0);
            if(G.hasInitializer())
                storeConst(s, a, G.getInitializer());
        }
        else
        {
            uint64_t a = constAddr(&G, &s, 0);
            if(G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used")
                storeConst(s, a, G.getInitializer());
        }
    }
}

// ------------------------------------------------------------------ memory

T Engine::rdWord(State& s, uint64_t wa, Obj* o)
{
    T w = s.mem.get(wa);
    if(w)
        return w;
    if(o && (o->zero || o->kind == Obj::GLOBAL || o->kind == Obj::TLS))
        return tm.cst(0, 64);
    char nb[96];
    if(o)
        snprintf(nb, sizeof nb, "uninit!%s!%llx+%llu", o->name.c_str(), (unsigned long long) o->key, (unsigned long long) (wa - o->base));
    else
        snprintf(nb, sizeof nb, "uninit!%llx", (unsigned long long) wa);
    std::string n = nb;
    if(opt.replay)
    {
        auto it = opt.fixed.find(n);
        return tm.cst(it == opt.fixed.end() ? 0 : it->second, 64);
    }
    return tm.var(n, 64);
}
T Engine::rd(State& s, uint64_t addr, unsigned n)
{
    uint64_t wa = addr & ~7ull;
    unsigned off = addr & 7;
    Obj* o = findObj(addr);
    if(off + n <= 8)
    {
        T w = rdWord(s, wa, o);
        return n == 8 ? w : tm.mkExtract(w, off * 8, n * 8);
    }
    unsigned n1 = 8 - off;
    T lo = tm.mkExtract(rdWord(s, wa, o), off * 8, n1 * 8);
    T hi = tm.mkExtract(rdWord(s, wa + 8, o), 0, (n - n1) * 8);
    return tm.mkConcat(hi, lo);
}
void Engine::wr(State& s, uint64_t addr, unsigned n, T v)
{
    uint64_t wa = addr & ~7ull;
    unsigned off = addr & 7;
    Obj* o = findObj(addr);
    if(off + n <= 8)
    {
        if(n == 8)
        {
            s.mem.set(wa, v);
            return;
        }
        T w = rdWord(s, wa, o);
        T r = v;
        if(off + n < 8)
            r = tm.mkConcat(tm.mkExtract(w, (off + n) * 8, 64 - (off + n) * 8), r);
        if(off)
            r = tm.mkConcat(r, tm.mkExtract(w, 0, off * 8));
        s.mem.set(wa, r);
        return;
    }
    unsigned n1 = 8 - off;
    wr(s, addr, n1, tm.mkExtract(v, 0, n1 * 8));
    wr(s, addr + n1, n - n1, tm.mkExtract(v, n1 * 8, (n - n1) * 8));
}
T Engine::alive(State& s, Obj* o)
{
    // word map shared with the memory, in a region of its own: negative indices of the object table
    T t = s.mem.get((uint64_t) o->idx * 8);
    return t ? t : tm.FALSE_;
}
void Engine::setAlive(State& s, Obj* o, T v)
{
    if((uint64_t) o->idx * 8 >= 0x100000)
        die("too many objects");
    s.mem.set((uint64_t) o->idx * 8, v);
}

bool Engine::enumerate(State& s, T v, std::vector<UVal>& out, unsigned limit)
{
    if(TermMgr::isCU(v) && v->w > 1)
    {
        out = tm.entries(v);
        return true;
    }
    T rest = s.guard;
    while(solver.sat(rest, true))
    {
        if(out.size() >= limit)
            return false;
        Model m = solver.last;
        uint64_t x = solver.eval(v, m);
        T g = tm.mkEq(v, tm.cst(x, v->w));
        out.push_back({x, g});
        rest = tm.mkAnd(rest, tm.mkNot(g));
        checkTime();
    }
    return true;
}

// resolves an address to the concrete places it can denote; reports invalid ones
bool Engine::resolve(State& s, T addr, unsigned n, char const* what, std::vector<UVal>& out)
{
    std::vector<UVal> es;
    bool all = enumerate(s, addr, es, 32);
    if(!all)
    {
        // far too many places, e.g. an address which was never initialised: does one of them show that it is invalid?
        for(auto& e : es)
        {
            Obj* o = findObj(e.v);
            if(!o || o->kind == Obj::FUNC || e.v + n > o->base + o->size)
            {
                char buf[160];
                snprintf(buf, sizeof buf, "%s of %u bytes at an undetermined address", what, n);
                violation(s, tm.mkAnd(s.guard, e.g), "memory", buf);
                s.guard = tm.FALSE_;
                return false;
            }
        }
        es.clear();
        all = enumerate(s, addr, es, 512);
    }
    if(!all)
    {
        incompleteAt(s, "symbolic address with more than 512 values");
        s.guard = tm.FALSE_;
        return false;
    }
    for(auto& e : es)
    {
        Obj* o = findObj(e.v);
        bool bad = !o || o->kind == Obj::FUNC || e.v + n > o->base + o->size;
        if(bad)
        {
            T c = tm.mkAnd(s.guard, e.g);
            if(solver.sat(c))
            {
                char buf[160];
                snprintf(
                    buf,
                    sizeof buf,
                    "%s of %u bytes at %s",
                    what,
                    n,
                    e.v < 4096        ? "a null pointer"
                    : findObj(e.v)    ? ("the end of object " + findObj(e.v)->name).c_str()
                                      : "an address outside of any object");
                violation(s, c, "memory", buf);
                s.guard = tm.mkAnd(s.guard, tm.mkNot(e.g));
            }
            continue;
        }
        if(o->kind == Obj::HEAP)
        {
            T al = alive(s, o);
            if(al != tm.TRUE_)
            {
                T c = tm.mkAnd(tm.mkAnd(s.guard, e.g), tm.mkNot(al));
                if(solver.sat(c))
                {
                    violation(s, c, "memory", std::string(what) + " after free of " + o->name);
                    s.guard = tm.mkAnd(s.guard, tm.mkNot(tm.mkAnd(e.g, tm.mkNot(al))));
                }
                if(al == tm.FALSE_)
                    continue;
            }
        }
        out.push_back(e);
    }
    if(s.guard == tm.FALSE_ || out.empty())
        return false;
    return true;
}
void Engine::note(State& s, uint64_t addr, unsigned n, bool write)
{
    if(!s.par)
        return;
    Thread const& t = s.th[s.cur];
    Instruction const* I = t.topc().pc;
    if(t.ghost || isQuiet(I))
        return;
    Obj* o = findObj(addr);
    if(o && o->kind == Obj::STACK && o->tid == t.tid && !s.published->count(o->base))
        return;
    if(o && o->kind == Obj::HEAP && o->parPhase == s.parPhase && !s.published->count(o->base))
        return;
    for(uint64_t w = addr & ~7ull; w < addr + n; w += 8)
    {
        Foot& f = foot[w];
        f.r |= 1u << t.tid;
        if(write)
            f.w |= 1u << t.tid;
        if((t.atomicDepth & 0xffff) == 0)
            f.plain = true;
    }
}
void Engine::publishObj(State& s, Obj* o)
{
    if(o->kind == Obj::STACK)
    {
        s.publish(o->base);
        return;
    }
    if(o->kind != Obj::HEAP || o->parPhase != s.parPhase || s.published->count(o->base))
        return;
    s.publish(o->base);
    for(uint64_t a = o->base; a < o->base + o->size; a += 8)
        if(T w = s.mem.get(a))
            publishVal(s, w);
}
void Engine::publishVal(State& s, T v)
{
    if(v->w < 32)
        return;
    auto one = [&](uint64_t x)
    {
        x &= ~0ull >> 1;
        if(Obj* o = findObj(x))
            publishObj(s, o);
    };
    if(v->op == Op::CONST)
        one(v->c);
    else if(v->op == Op::UNION)
        for(auto& e : *v->u)
            one(e.v);
    else if(v->op == Op::ITE)
    {
        publishVal(s, v->a);
        publishVal(s, v->b);
    }
}
T Engine::load(State& s, T addr, unsigned n, bool& ok)
{
    std::vector<UVal> es;
    ok = resolve(s, addr, n, "read", es);
    if(!ok)
        return nullptr;
    T r = nullptr;
    for(auto i = es.rbegin(); i != es.rend(); ++i)
    {
        note(s, i->v, n, false);
        T v = rd(s, i->v, n);
        r = r ? tm.mkIte(i->g, v, r) : v;
    }
    return r;
}
bool Engine::store(State& s, T addr, unsigned n, T v)
{
    std::vector<UVal> es;
    if(!resolve(s, addr, n, "write", es))
        return false;
    for(auto& e : es)
    {
        note(s, e.v, n, true);
        if(s.par)
        {
            // a pointer that is written to memory others can reach publishes its object
            Obj* o = findObj(e.v);
            bool priv = (o->kind == Obj::HEAP && o->parPhase == s.parPhase && !s.published->count(o->base))
                        || (o->kind == Obj::STACK && o->tid == s.th[s.cur].tid && !s.published->count(o->base))
                        || (o->kind == Obj::TLS && o->tid == s.th[s.cur].tid);
            if(!priv)
                publishVal(s, v);
        }
        if(es.size() == 1 && (e.g == tm.TRUE_))
            wr(s, e.v, n, v);
        else
            wr(s, e.v, n, tm.mkIte(e.g, v, rd(s, e.v, n)));
    }
    return true;
}
uint64_t Engine::allocKeyed(State& s, uint64_t size, Obj::Kind k, std::string const& name, bool zero, uint64_t site)
{
    Thread& t = s.th[s.cur];
    uint64_t key = mix64(mix64(mix64(site, t.tid), size), (uint64_t) k * 7 + s.parPhase);
    uint32_t n = k == Obj::HEAP ? s.bump(key) : 0;
    uint64_t full = mix64(key, n + 1);
    auto it = addrOfKey.find(full);
    uint64_t a;
    if(it != addrOfKey.end())
    {
        a = it->second;
        Obj& o = objs[a];
        if(o.size != size || o.kind != k)
            die("allocation key collision");
    }
    else
    {
        a = newObj(size, k, name, zero);
        addrOfKey[full] = a;
        Obj& o = objs[a];
        o.key = full;
        o.parPhase = s.par ? s.parPhase : 0;
        o.tid = t.tid;
    }
    if(k == Obj::HEAP)
        setAlive(s, &objs[a], tm.TRUE_);
    return a;
}

// ------------------------------------------------------------------ reports

static std::string locOf(Instruction const* I)
{
    DebugLoc d = I->getDebugLoc();
    if(!d)
        return I->getFunction()->getName().str();
    std::string r;
    DILocation const* l = d.get();
    // innermost location in the sources under test or the harness, if any
    for(DILocation const* x = l; x; x = x->getInlinedAt())
    {
        std::string f = x->getFilename().str();
        if(f.find("redGrapes") != std::string::npos || f.find("harness") != std::string::npos)
        {
            l = x;
            break;
        }
    }
    std::string f = l->getFilename().str();
    size_t p = f.find("redGrapes/");
    size_t q = f.rfind("redGrapes/redGrapes/");
    if(q != std::string::npos)
        f = f.substr(q + 10);
    else if(p != std::string::npos)
        f = f.substr(p);
    return f + ":" + std::to_string(l->getLine());
}
std::string Engine::locStr(Instruction const* I)
{
    return locOf(I);
}
std::string Engine::where(State& s)
{
    Thread const& t = s.th[s.cur];
    if(t.fr.empty())
        return "end";
    // first frame from the top that has a location in the code under test
    for(size_t i = t.fr.size(); i-- > 0;)
    {
        std::string l = locOf(t.fr[i]->pc);
        if(l.find("redGrapes") != std::string::npos || l.find("harness") != std::string::npos)
            return l;
    }
    return locOf(t.fr.back()->pc);
}
std::map<std::string, uint64_t> Engine::modelMap(Model& m)
{
    std::map<std::string, uint64_t> r;
    for(T v : tm.vars)
        r[tm.varNames[v->c]] = v->c < m.val.size() ? m.val[v->c] : 0;
    return r;
}
void Engine::violation(State& s, T cond, std::string kind, std::string msg)
{
    if(!solver.sat(tm.mkAnd(s.sched, cond), true))
        return;
    removed = tm.mkOr(removed, cond);
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = where(s);
    for(size_t i = s.th[s.cur].fr.size(); i-- > 0;)
        v.trace.push_back(demangle(s.th[s.cur].fr[i]->fi->name) + " @ " + locOf(s.th[s.cur].fr[i]->pc));
    std::string k = v.key();
    if(violations.count(k))
        return;
    v.model = modelMap(solver.last);
    if(opt.verbose)
    {
        fprintf(stderr, "violation: %s: %s at %s (thread %u)\n", kind.c_str(), msg.c_str(), v.where.c_str(), s.cur);
        for(auto& l : v.trace)
            fprintf(stderr, "    %s\n", l.c_str());
    }
    violations[k] = v;
    if(opt.stopOnFirst)
        throw 1;
}
void Engine::incompleteAt(State& s, std::string msg)
{
    std::string m = msg + " at " + where(s);
    removed = tm.mkOr(removed, s.guard);
    for(auto& x : incomplete)
        if(x == m)
            return;
    incomplete.push_back(m);
    if(opt.verbose)
        fprintf(stderr, "incomplete: %s\n", m.c_str());
}
void Engine::checkTime()
{
    if(opt.timeLimit > 0 && Solver::now() - t0 > opt.timeLimit)
        throw std::runtime_error("time limit reached");
}

// ------------------------------------------------------------------ scheduling points

static StringRef innermostFn(Instruction const* I)
{
    DebugLoc d = I->getDebugLoc();
    if(d)
        if(auto* sp = d->getScope()->getSubprogram())
            return sp->getName();
    return I->getFunction()->getName();
}
bool Engine::isQuiet(Instruction const* I)
{
    static DenseMap<Instruction const*, bool> memo;
    auto it = memo.find(I);
    if(it != memo.end())
        return it->second;
    bool q = false;
    StringRef n = innermostFn(I);
    for(auto& p : opt.quiet)
        if(n == p || (p.size() > 1 && p.back() == '*' && n.starts_with(p.substr(0, p.size() - 1))))
            q = true;
    memo[I] = q;
    return q;
}
bool Engine::touchesConflict(State& s, T addr, unsigned n)
{
    auto one = [&](uint64_t a)
    {
        bool hit = false;
        for(uint64_t w = a & ~7ull; w < a + n; w += 8)
            if(conflict.count(w))
                hit = true;
        if(!hit)
            return false;
        Obj* o = findObj(a);
        if(o && o->kind == Obj::HEAP && o->parPhase == s.parPhase && !s.published->count(o->base))
            return false;
        return true;
    };
    if(addr->op == Op::CONST)
        return one(addr->c);
    if(addr->op == Op::UNION)
    {
        for(auto& e : *addr->u)
            if(one(e.v))
                return true;
        return false;
    }
    return true; // unresolved symbolic address
}


bool Engine::isVisible(State& s, Instruction* I)
{
    Frame const& f = s.th[s.cur].topc();
    if(s.th[s.cur].ghost)
        return false;
    if(allAtomics && I->isAtomic() && !isQuiet(I))
        return true;
    switch(I->getOpcode())
    {
    case Instruction::Load:
        if(isQuiet(I))
            return false;
        return touchesConflict(
            s,
            op1(s, f, cast<LoadInst>(I)->getPointerOperand()),
            DL.getTypeStoreSize(I->getType()));
    case Instruction::Store:
        if(isQuiet(I))
            return false;
        return touchesConflict(
            s,
            op1(s, f, cast<StoreInst>(I)->getPointerOperand()),
            DL.getTypeStoreSize(cast<StoreInst>(I)->getValueOperand()->getType()));
    case Instruction::AtomicRMW:
        if(isQuiet(I))
            return false;
        return touchesConflict(
            s,
            op1(s, f, cast<AtomicRMWInst>(I)->getPointerOperand()),
            DL.getTypeStoreSize(I->getType()));
    case Instruction::AtomicCmpXchg:
        if(isQuiet(I))
            return false;
        return touchesConflict(
            s,
            op1(s, f, cast<AtomicCmpXchgInst>(I)->getPointerOperand()),
            DL.getTypeStoreSize(cast<AtomicCmpXchgInst>(I)->getCompareOperand()->getType()));
    case Instruction::Call:
    case Instruction::Invoke:
    {
        auto* cb = cast<CallBase>(I);
        Function* F = cb->getCalledFunction();
        if(!F)
            return false;
        if(auto* mi = dyn_cast<MemIntrinsic>(I))
        {
            T len = op1(s, f, mi->getLength());
            if(len->op != Op::CONST)
                return true;
            if(touchesConflict(s, op1(s, f, mi->getRawDest()), len->c))
                return true;
            if(auto* mt = dyn_cast<MemTransferInst>(I))
                return touchesConflict(s, op1(s, f, mt->getRawSource()), len->c);
            return false;
        }
        if(!F->isDeclaration())
            return false;
        StringRef n = F->getName();
        if(n == "__sym_atomic_begin" || n == "__sym_sched_point")
            return true;
        if(n.starts_with("pthread_mutex_") || n.starts_with("pthread_rwlock_"))
            return touchesConflict(s, op1(s, f, cb->getArgOperand(0)), 8);
        if(n.starts_with("_ZNSt18condition_variable"))
            return s.th[s.cur].sub || touchesConflict(s, op1(s, f, cb->getArgOperand(0)), 48);
        if(n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv"))
        {
            T p = op1(s, f, cb->getArgOperand(0));
            if(!TermMgr::isCU(p))
                return true;
            for(auto& e : tm.entries(p))
                if(Obj* o = findObj(e.v))
                    if(o->kind == Obj::HEAP && touchesConflict(s, tm.cst(o->base, 64), o->size))
                        return true;
            return false;
        }
        if(n.starts_with("_ZNSt10_Sp_lockerC"))
        {
            for(unsigned i = 1; i < cb->arg_size(); ++i)
                if(touchesConflict(s, op1(s, f, cb->getArgOperand(i)), 16))
                    return true;
            return false;
        }
        return false;
    }
    default: return false;
    }
}

// ------------------------------------------------------------------ operands

T Engine::op1(State& s, Frame const& f, Value* v)
{
    if(auto* c = dyn_cast<Constant>(v))
    {
        if(auto* ci = dyn_cast<ConstantInt>(c))
            if(ci->getBitWidth() <= 64)
                return tm.cst(ci->getZExtValue(), ci->getBitWidth());
        std::vector<T> o;
        constVals(c, o, &s);
        if(o.size() != 1)
            die("scalar operand expected");
        return o[0];
    }
    auto it = f.fi->num.find(v);
    if(it == f.fi->num.end())
        die("operand without slot");
    T t = f.regs[it->second];
    if(!t)
    {
        std::string n;
        raw_string_ostream os(n);
        v->print(os);
        die("read of an unset register in " + f.fi->name + ": " + n);
    }
    return t;
}
void Engine::operand(State& s, Frame const& f, Value* v, std::vector<T>& out)
{
    if(auto* c = dyn_cast<Constant>(v))
    {
        constVals(c, out, &s);
        return;
    }
    auto it = f.fi->num.find(v);
    if(it == f.fi->num.end())
        die("operand without slot");
    unsigned n = slots(v->getType());
    for(unsigned i = 0; i < n; ++i)
        out.push_back(f.regs[it->second + i]);
}
void Engine::setReg(Frame& f, Value* v, T t)
{
    f.regs[f.fi->num.find(v)->second] = t;
}
void Engine::setRegs(Frame& f, Value* v, std::vector<T> const& t)
{
    if(t.empty())
        return;
    unsigned b = f.fi->num.find(v)->second;
    for(size_t i = 0; i < t.size(); ++i)
        f.regs[b + i] = t[i];
}

// ------------------------------------------------------------------ keys, merging

static void framesKey(Key& k, std::vector<std::shared_ptr<Frame>> const& fr, bool withIters)
{
    for(auto& fp : fr)
    {
        Frame const& f = *fp;
        k.push_back(f.fi->id);
        if(withIters)
            for(auto& [L, n] : f.iters)
            {
                k.push_back(f.fi->rpo.find(L->getHeader())->second);
                k.push_back(n);
            }
        k.push_back(f.fi->rpo.find(f.bb)->second);
        k.push_back(f.fi->iidx.find(f.pc)->second);
    }
}
// the suspended contexts
void Engine::ctxKey(State const& s, Key& k)
{
    for(auto& [id, c] : s.ctxs)
    {
        k.push_back(0xfffffffe);
        k.push_back(id);
        k.push_back(id >> 32);
        framesKey(k, c->fr, false);
        for(auto& x : c->caught)
            k.push_back((uint32_t) x.first);
        if(opt.split)
        {
            uint64_t h = regDigest(c->fr);
            k.push_back(h);
            k.push_back(h >> 32);
        }
    }
}
Key Engine::keyOf(Thread const& t, bool withIters)
{
    Key k;
    k.reserve(t.fr.size() * 6 + 4);
    framesKey(k, t.fr, withIters);
    k.push_back((uint32_t) t.ctx);
    k.push_back(t.finished ? 1u : 0u);
    k.push_back(t.atomicDepth);
    k.push_back(t.sub);
    k.push_back(t.quantum | (t.ghost << 1) | (t.joinReq << 8));
    for(auto& c : t.caught)
        k.push_back((uint32_t) c.first);
    k.push_back((uint32_t) t.excObj);
    return k;
}
std::vector<unsigned> const& Engine::liveAt(FInfo* fi, Instruction* I)
{
    auto it = fi->liveAt.find(I);
    if(it != fi->liveAt.end())
        return it->second;
    auto use = [&](std::set<unsigned>& L, Value* v)
    {
        auto n = fi->num.find(v);
        if(n != fi->num.end())
            L.insert(n->second);
    };
    auto back = [&](std::set<unsigned>& L, Instruction& i)
    {
        auto n = fi->num.find(&i);
        if(n != fi->num.end())
            L.erase(n->second);
        if(isa<PHINode>(i))
            return;
        for(auto& o : i.operands())
            use(L, o.get());
    };
    auto liveOut = [&](BasicBlock* B)
    {
        std::set<unsigned> L;
        for(BasicBlock* S : successors(B))
        {
            auto& in = fi->liveIn[S];
            L.insert(in.begin(), in.end());
            for(auto& i : *S)
                if(auto* p = dyn_cast<PHINode>(&i))
                    use(L, p->getIncomingValueForBlock(B));
                else
                    break;
        }
        return L;
    };
    if(!fi->liveDone)
    {
        fi->liveDone = true;
        for(bool ch = true; ch;)
        {
            ch = false;
            for(auto b = fi->F->end(); b != fi->F->begin();)
            {
                --b;
                auto L = liveOut(&*b);
                for(auto i = b->end(); i != b->begin();)
                    back(L, *--i);
                auto& cur = fi->liveIn[&*b];
                if(cur != L)
                {
                    cur = std::move(L);
                    ch = true;
                }
            }
        }
    }
    BasicBlock* B = I->getParent();
    auto L = liveOut(B);
    for(auto i = B->end(); i != B->begin();)
    {
        --i;
        back(L, *i);
        if(&*i == I)
            break;
    }
    std::vector<unsigned> all;
    for(auto& [v, n] : fi->num)
        if(L.count(n))
            for(unsigned k = 0; k < slots(const_cast<Value*>(v)->getType()); ++k)
                all.push_back(n + k);
    std::sort(all.begin(), all.end());
    return fi->liveAt[I] = all;
}
uint64_t Engine::regDigest(std::vector<std::shared_ptr<Frame>> const& fr)
{
    uint64_t h = 0;
    for(auto& fp : fr)
        for(unsigned k : liveAt(fp->fi, fp->pc))
            h = hmix(h, fp->regs[k] ? fp->regs[k]->id + 1 : 0);
    return h;
}
void Engine::wipeFrame(State& s, Frame const& f)
{
    for(size_t i = 0; i + 1 < f.stackObjs.size(); i += 2)
        for(uint64_t a = f.stackObjs[i]; a <= f.stackObjs[i + 1]; a += 8)
            if(s.mem.get(a))
                s.mem.set(a, nullptr);
}
Key Engine::globalKey(State const& s)
{
    Key k;
    for(auto& t : s.th)
    {
        Key x = keyOf(t, false);
        k.push_back(0xffffffff);
        k.insert(k.end(), x.begin(), x.end());
        if(opt.split)
        {
            uint64_t h = regDigest(t.fr);
            k.push_back(h);
            k.push_back(h >> 32);
        }
    }
    ctxKey(s, k);
    if(opt.split)
    {
        uint64_t h = s.mem.digest();
        k.push_back(h);
        k.push_back(h >> 32);
        k.push_back(s.guard->id);
    }
    if(s.budget >= 0)
    {
        k.push_back(s.lastT);
        k.push_back(s.budget);
    }
    return k;
}
SP Engine::clone(State const& s)
{
    return std::make_unique<State>(s);
}
// a condition that holds in states of guard a and not in states of guard b (the guards are disjoint)
T Engine::selector(T a, T b)
{
    std::vector<T> ca, cb;
    std::unordered_set<T> sb;
    std::function<void(T, std::vector<T>&)> flat = [&](T t, std::vector<T>& o)
    {
        while(t->op == Op::AND)
        {
            if(t->a->op == Op::AND && t->b->op == Op::AND)
            {
                flat(t->b, o);
                t = t->a;
            }
            else if(t->a->op == Op::AND)
            {
                o.push_back(t->b);
                t = t->a;
            }
            else
            {
                o.push_back(t->a);
                t = t->b;
            }
        }
        o.push_back(t);
    };
    flat(a, ca);
    flat(b, cb);
    sb.insert(cb.begin(), cb.end());
    // a single complementary conjunct is enough
    for(T x : ca)
        if(sb.count(tm.mkNot(x)))
            return x;
    T r = tm.TRUE_;
    for(T x : ca)
        if(!sb.count(x))
            r = tm.mkAnd(r, x);
    if(r == tm.TRUE_)
    {
        // a's conjuncts are all in b: use the complement of b's remaining conjuncts
        std::unordered_set<T> sa(ca.begin(), ca.end());
        for(T x : cb)
            if(!sa.count(x))
                r = tm.mkAnd(r, x);
        return tm.mkNot(r);
    }
    return r;
}
void Engine::merge(State& A, State& B)
{
    st.merges++;
    T sel = A.guard == B.guard ? tm.FALSE_ : selector(A.guard, B.guard);
    bool same = opt.split && Mem::equal(A.mem, B.mem);
    if(opt.split && (!same || (A.sched != B.sched && A.guard != B.guard)))
        die("digest collision");
    // A.sched stays: one schedule that leads here is enough for a witness
    auto pick = [&](T x, T y) -> T
    {
        if(x == y)
            return x;
        if(!x)
            return y;
        if(!y)
            return x;
        if(x->w != y->w)
            die("merge of different widths");
        return tm.mkIte(sel, x, y);
    };
    // registers
    auto frames = [&](std::vector<std::shared_ptr<Frame>>& fa_, std::vector<std::shared_ptr<Frame>> const& fb_)
    {
        for(size_t j = 0; j < fa_.size(); ++j)
        {
            if(fa_[j] == fb_[j])
                continue;
            Frame const& fb = *fb_[j];
            bool diff = false;
            for(size_t r = 0; r < fb.regs.size() && !diff; ++r)
                diff = fa_[j]->regs[r] != fb.regs[r];
            if(!diff)
                continue;
            if(fa_[j].use_count() > 1)
                fa_[j] = std::make_shared<Frame>(*fa_[j]);
            Frame& fa = *fa_[j];
            for(size_t r = 0; r < fa.regs.size(); ++r)
                fa.regs[r] = pick(fa.regs[r], fb.regs[r]);
        }
    };
    for(size_t i = 0; i < A.th.size(); ++i)
    {
        Thread &ta = A.th[i], &tb = B.th[i];
        frames(ta.fr, tb.fr);
        ta.excType = ta.excType ? ta.excType : tb.excType;
    }
    for(auto& [id, c] : A.ctxs)
    {
        auto& d = B.ctxs.at(id);
        if(c == d)
            continue;
        if(c.use_count() > 1)
            c = std::make_shared<Ctx>(*c);
        frames(c->fr, d->fr);
    }
    // memory; object liveness lives below 0x10000*...: there a missing word means "not alive"
    std::vector<std::pair<uint64_t, T>> upd;
    if(!same)
        Mem::diff(
        A.mem,
        B.mem,
        [&](uint64_t a, T wa, T wb)
        {
            if((wa && wa->w == 1) || (wb && wb->w == 1))
            {
                if(!wa)
                    wa = tm.FALSE_;
                if(!wb)
                    wb = tm.FALSE_;
                upd.push_back({a, tm.mkIteB(sel, wa, wb)});
                return;
            }
            Obj* o;
            if((!wa || !wb) && (o = findObj(a)) && (o->zero || o->kind == Obj::GLOBAL || o->kind == Obj::TLS))
            {
                // a fresh object of one side only: no need to mix with zeros
                bool fresh = o->kind == Obj::HEAP
                             && (alive(A, o) == tm.FALSE_ || alive(B, o) == tm.FALSE_);
                if(!fresh)
                {
                    if(!wa)
                        wa = tm.cst(0, 64);
                    if(!wb)
                        wb = tm.cst(0, 64);
                }
            }
            upd.push_back({a, pick(wa, wb)});
        });
    for(auto& [a, t] : upd)
        A.mem.set(a, t);
    if(A.counts != B.counts)
    {
        auto c = std::make_shared<std::map<uint64_t, uint32_t>>(*A.counts);
        for(auto& [k, v] : *B.counts)
        {
            auto& x = (*c)[k];
            x = std::max(x, v);
        }
        A.counts = c;
    }
    if(A.published != B.published)
    {
        auto p = std::make_shared<std::set<uint64_t>>(*A.published);
        p->insert(B.published->begin(), B.published->end());
        A.published = p;
    }
    A.guard = tm.mkOr(A.guard, B.guard);
}

void Engine::pushWork(SP s)
{
    if(s->guard == tm.FALSE_)
        return;
    Key k = keyOf(s->th[s->cur], true);
    if(opt.split)
    {
        uint64_t h = hmix(s->mem.digest(), regDigest(s->th[s->cur].fr));
        k.push_back(h);
        k.push_back(h >> 32);
        k.push_back(s->sched->id);
    }
    ctxKey(*s, k);
    auto it = work->q.find(k);
    if(it != work->q.end())
    {
        // iteration counters of left loops differ never here: they are part of the key
        merge(*it->second, *s);
    }
    else
        work->q.emplace(std::move(k), std::move(s));
}

// ------------------------------------------------------------------ control flow

Engine::R Engine::br(SP& s, BasicBlock* to)
{
    execBlocks.insert(to);
    Frame& f = s->th[s->cur].top();
    BasicBlock* from = f.bb;
    // loop bookkeeping
    auto& ls = f.fi->loops[to];
    while(!f.iters.empty() && std::find(ls.begin(), ls.end(), f.iters.back().first) == ls.end())
        f.iters.pop_back(), f.iterGuard.pop_back();
    for(Loop* L : ls)
        if(L->getHeader() == to)
        {
            if(!f.iters.empty() && f.iters.back().first == L)
            {
                // a loop whose every iteration so far was decided without a choice may go on for much longer
                unsigned n = ++f.iters.back().second;
                bool straight = !s->par && f.iterGuard.back() == s->guard;
                if(straight && n > opt.unrollStraight)
                {
                    violation(*s, s->guard, "no-termination", "a loop has not ended after " + std::to_string(opt.unrollStraight) + " iterations");
                    return GONE;
                }
                if(!straight && n > opt.unroll)
                {
                    if(s->par)
                        spun = true;
                    if(solver.sat(s->guard))
                        incompleteAt(*s, "loop bound " + std::to_string(opt.unroll) + " exceeded");
                    return GONE;
                }
            }
            else
                f.iters.push_back({L, 1}), f.iterGuard.push_back(s->guard);
        }
        else if(std::find_if(f.iters.begin(), f.iters.end(), [&](auto& p) { return p.first == L; }) == f.iters.end())
            f.iters.push_back({L, 1}), f.iterGuard.push_back(s->guard);
    // phis, simultaneously
    std::vector<std::pair<Value*, std::vector<T>>> nv;
    BasicBlock::iterator it = to->begin();
    for(; auto* phi = dyn_cast<PHINode>(&*it); ++it)
    {
        std::vector<T> v;
        operand(*s, f, phi->getIncomingValueForBlock(from), v);
        nv.push_back({phi, std::move(v)});
    }
    for(auto& [p, v] : nv)
        setRegs(f, p, v);
    f.prev = from;
    f.bb = to;
    f.pc = &*it;
    return JUMP;
}

// splits the state on condition c; k(state, value) continues each feasible side and returns what to do with it
Engine::R Engine::forkOn(SP& s, T c, std::function<R(SP&, bool)> k)
{
    if(c->op == Op::CONST)
        return k(s, c->c);
    T gt = tm.mkAnd(s->guard, c), gf = tm.mkAnd(s->guard, tm.mkNot(c));
    bool bt = solver.sat(gt);
    if(!bt)
    {
        return k(s, false);
    }
    bool bf = solver.sat(gf);
    if(!bf)
        return k(s, true);
    st.forks++;
    checkTime();
    SP o = clone(*s);
    o->guard = gf;
    s->guard = gt;
    R r1 = k(s, true);
    if(r1 == STOP)
        stopAt(std::move(s));
    else if(r1 != GONE)
        pushWork(std::move(s));
    R r2 = k(o, false);
    if(r2 == STOP)
        stopAt(std::move(o));
    else if(r2 != GONE)
        pushWork(std::move(o));
    return GONE;
}

Engine::R Engine::finishCall(SP& s, CallBase* cb)
{
    if(auto* inv = dyn_cast<InvokeInst>(cb))
        return br(s, inv->getNormalDest());
    Frame& f = s->th[s->cur].top();
    f.pc = cb->getNextNode();
    return CONT;
}

Engine::R Engine::retFrom(SP& s, std::vector<T> const& vals)
{
    Thread& t = s->th[s->cur];
    wipeFrame(*s, *t.fr.back());
    t.fr.pop_back();
    if(t.fr.empty())
    {
        if(t.ctx)
            die("the function of a context returned");
        t.finished = true;
        return STOP;
    }
    Frame& f = t.top();
    auto* cb = cast<CallBase>(f.pc);
    if(!cb->getType()->isVoidTy())
        setRegs(f, cb, vals);
    R r = finishCall(s, cb);
    return r == CONT ? JUMP : r;
}

static std::map<std::string, std::string> const extBase
    = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"},   {"_ZTISt12length_error", "_ZTISt11logic_error"},
       {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
       {"_ZTISt13runtime_error", "_ZTISt9exception"},     {"_ZTISt12system_error", "_ZTISt13runtime_error"},
       {"_ZTISt9bad_alloc", "_ZTISt9exception"},          {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
       {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
       {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};

bool Engine::typeMatches(State& s, uint64_t thrown, uint64_t want)
{
    if(want == 0)
        return true;
    for(int guard = 0; thrown && guard < 16; ++guard)
    {
        if(thrown == want)
            return true;
        Obj* o = findObj(thrown);
        if(!o)
            return false;
        GlobalVariable* gv = M.getNamedGlobal(o->name);
        if(Obj* ow = findObj(want); ow && ow->name == o->name)
            return true;
        if(gv && gv->hasInitializer() && gv->getInitializer()->getNumOperands() >= 3)
        {
            T b = rd(s, thrown + 16, 8);
            thrown = b->op == Op::CONST ? b->c : 0;
        }
        else
        {
            auto it = extBase.find(o->name);
            if(it == extBase.end())
                return false;
            GlobalVariable* g2 = M.getNamedGlobal(it->second);
            if(g2)
                thrown = constAddr(g2, &s, 0);
            else
            {
                // base class type not mentioned in the module: continue by name
                auto it2 = extBase.find(it->second);
                if(it2 == extBase.end())
                    return false;
                GlobalVariable* g3 = M.getNamedGlobal(it2->second);
                if(!g3)
                    return false;
                thrown = constAddr(g3, &s, 0);
            }
        }
    }
    return false;
}

Engine::R Engine::unwind(SP& s)
{
    Thread& t = s->th[s->cur];
    while(!t.fr.empty())
    {
        Frame& f = t.top();
        if(auto* inv = dyn_cast<InvokeInst>(f.pc))
        {
            auto* lp = inv->getUnwindDest()->getLandingPadInst();
            uint32_t sel = 0;
            bool match = lp->isCleanup();
            for(unsigned i = 0; i < lp->getNumClauses(); ++i)
            {
                if(!lp->isCatch(i))
                {
                    match = true; // filter: enter the pad
                    continue;
                }
                std::vector<T> v;
                constVals(lp->getClause(i), v, s.get());
                if(typeMatches(*s, t.excType, v[0]->c))
                {
                    sel = v[0]->c ? (uint32_t) v[0]->c : 1;
                    match = true;
                    break;
                }
            }
            if(match)
            {
                R r = br(s, inv->getUnwindDest());
                if(r == GONE)
                    return r;
                Frame& f2 = s->th[s->cur].top();
                setRegs(f2, lp, {tm.cst(t.excObj, 64), tm.cst(sel, 32)});
                if(f2.pc == lp)
                    f2.pc = lp->getNextNode();
                return JUMP;
            }
        }
        if(t.fr.size() == 1) // also at the bottom of a context
        {
            Obj* o = findObj(t.excType);
            violation(*s, s->guard, "exception", "uncaught exception of type " + (o ? demangle(o->name) : "?"));
            return GONE;
        }
        wipeFrame(*s, *t.fr.back());
        t.fr.pop_back();
    }
    return GONE;
}

Engine::R Engine::enter(SP& s, CallBase* cb, Function* F, std::vector<std::vector<T>> const& args)
{
    Thread& t = s->th[s->cur];
    if(t.fr.size() > opt.maxDepth)
    {
        if(solver.sat(s->guard))
            incompleteAt(*s, "call depth exceeded");
        return GONE;
    }
    FInfo* fi = info(F);
    if(++execCount[fi->name] == 1)
        executed.insert(fi->name);
    auto f = std::make_shared<Frame>();
    f->fi = fi;
    f->bb = &F->getEntryBlock();
    f->pc = &F->getEntryBlock().front();
    f->regs.assign(fi->nslots, nullptr);
    Frame const& caller = t.topc();
    f->shash = mix64(caller.shash, ((uint64_t) caller.fi->id << 32) | (caller.fi->rpo.find(caller.bb)->second << 12) | caller.fi->iidx.find(caller.pc)->second);
    unsigned i = 0;
    for(auto& A : F->args())
    {
        if(i < args.size())
        {
            unsigned b = fi->num[&A];
            auto v = args[i];
            if(cb && cb->isByValArgument(i))
            {
                uint64_t sz = DL.getTypeAllocSize(cb->getParamByValType(i));
                uint64_t a = allocKeyed(*s, sz, Obj::STACK, "byval", false, mix64(f->shash, 77 + i));
                if(v[0]->op != Op::CONST)
                    die("byval argument with symbolic address");
                for(uint64_t o = 0; o < sz; o += 8)
                {
                    unsigned n = std::min<uint64_t>(8, sz - o);
                    if(n != 8)
                        for(unsigned j = 0; j < n; ++j)
                            wr(*s, a + o + j, 1, rd(*s, v[0]->c + o + j, 1));
                    else
                        wr(*s, a + o, n, rd(*s, v[0]->c + o, n));
                }
                v[0] = tm.cst(a, 64);
                f->stackObjs.push_back(a & ~7ull);
                f->stackObjs.push_back((a + sz - 1) & ~7ull);
            }
            for(size_t j = 0; j < v.size(); ++j)
                f->regs[b + j] = v[j];
        }
        ++i;
    }
    t.fr.push_back(f);
    return CONT;
}

// ------------------------------------------------------------------ instructions

static Op binOp(unsigned o)
{
    switch(o)
    {
    case Instruction::Add: return Op::ADD;
    case Instruction::Sub: return Op::SUB;
    case Instruction::Mul: return Op::MUL;
    case Instruction::UDiv: return Op::UDIV;
    case Instruction::SDiv: return Op::SDIV;
    case Instruction::URem: return Op::UREM;
    case Instruction::SRem: return Op::SREM;
    case Instruction::Shl: return Op::SHL;
    case Instruction::LShr: return Op::LSHR;
    case Instruction::AShr: return Op::ASHR;
    case Instruction::And: return Op::BVAND;
    case Instruction::Or: return Op::BVOR;
    case Instruction::Xor: return Op::XOR;
    default: return Op::CONST;
    }
}
static double asF(T t)
{
    if(t->op != Op::CONST)
        die("symbolic floating point value");
    if(t->w == 32)
    {
        float f;
        uint32_t u = t->c;
        memcpy(&f, &u, 4);
        return f;
    }
    double d;
    memcpy(&d, &t->c, 8);
    return d;
}
static uint64_t fromF(double d, unsigned w)
{
    if(w == 32)
    {
        float f = d;
        uint32_t u;
        memcpy(&u, &f, 4);
        return u;
    }
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}

static T icmp(TermMgr& tm, CmpInst::Predicate p, T a, T b)
{
    switch(p)
    {
    case CmpInst::ICMP_EQ: return tm.mkEq(a, b);
    case CmpInst::ICMP_NE: return tm.mkNot(tm.mkEq(a, b));
    case CmpInst::ICMP_ULT: return tm.mkCmp(Op::ULT, a, b);
    case CmpInst::ICMP_ULE: return tm.mkNot(tm.mkCmp(Op::ULT, b, a));
    case CmpInst::ICMP_UGT: return tm.mkCmp(Op::ULT, b, a);
    case CmpInst::ICMP_UGE: return tm.mkNot(tm.mkCmp(Op::ULT, a, b));
    case CmpInst::ICMP_SLT: return tm.mkCmp(Op::SLT, a, b);
    case CmpInst::ICMP_SLE: return tm.mkNot(tm.mkCmp(Op::SLT, b, a));
    case CmpInst::ICMP_SGT: return tm.mkCmp(Op::SLT, b, a);
    case CmpInst::ICMP_SGE: return tm.mkNot(tm.mkCmp(Op::SLT, a, b));
    default: die("icmp predicate");
    }
}

Engine::R Engine::exec(SP& s)
{
    Thread& t = s->th[s->cur];
    Frame& f = t.top();
    Instruction* I = f.pc;
    if((++st.instrs & 0xfff) == 0)
        checkTime();
    if(opt.trace)
    {
        std::string n;
        raw_string_ostream os(n);
        I->print(os);
        fprintf(stderr, "[t%u d%zu] %s: %s  ; %s\n", s->cur, t.fr.size(), f.fi->name.c_str(), n.c_str(), locOf(I).c_str());
    }
    auto next = [&]() -> R
    {
        s->th[s->cur].top().pc = I->getNextNode();
        return CONT;
    };
    unsigned opc = I->getOpcode();
    if(I->isBinaryOp() && !I->getType()->isFPOrFPVectorTy())
    {
        std::vector<T> a, b, r;
        operand(*s, f, I->getOperand(0), a);
        operand(*s, f, I->getOperand(1), b);
        for(size_t i = 0; i < a.size(); ++i)
        {
            if(opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem
               || opc == Instruction::SRem)
            {
                T z = tm.mkEq(b[i], tm.cst(0, b[i]->w));
                T c = tm.mkAnd(s->guard, z);
                if(solver.sat(c))
                {
                    violation(*s, c, "arithmetic", "division by zero");
                    s->guard = tm.mkAnd(s->guard, tm.mkNot(z));
                    if(s->guard == tm.FALSE_)
                        return GONE;
                }
            }
            r.push_back(tm.mkBin(binOp(opc), a[i], b[i]));
        }
        setRegs(f, I, r);
        return next();
    }
    switch(opc)
    {
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    {
        T a = op1(*s, f, I->getOperand(0)), b = op1(*s, f, I->getOperand(1));
        double x = asF(a), y = asF(b);
        double r = opc == Instruction::FAdd   ? x + y
                   : opc == Instruction::FSub ? x - y
                   : opc == Instruction::FMul ? x * y
                                              : x / y;
        setReg(f, I, tm.cst(fromF(r, a->w), a->w));
        return next();
    }
    case Instruction::FCmp:
    {
        double x = asF(op1(*s, f, I->getOperand(0))), y = asF(op1(*s, f, I->getOperand(1)));
        bool r;
        switch(cast<FCmpInst>(I)->getPredicate())
        {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break;
        default: die("fcmp");
        }
        setReg(f, I, tm.boolc(r));
        return next();
    }
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    {
        T a = op1(*s, f, I->getOperand(0));
        if(a->op != Op::CONST)
            die("symbolic int to float");
        double d = opc == Instruction::UIToFP ? (double) a->c : (double) sext64(a->c, a->w);
        unsigned w = bits(I->getType());
        setReg(f, I, tm.cst(fromF(d, w), w));
        return next();
    }
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    {
        double d = asF(op1(*s, f, I->getOperand(0)));
        setReg(f, I, tm.cst(opc == Instruction::FPToUI ? (uint64_t) d : (uint64_t) (int64_t) d, bits(I->getType())));
        return next();
    }
    case Instruction::FPExt:
    case Instruction::FPTrunc:
        setReg(f, I, tm.cst(fromF(asF(op1(*s, f, I->getOperand(0))), bits(I->getType())), bits(I->getType())));
        return next();
    case Instruction::Alloca:
    {
        auto* ai = cast<AllocaInst>(I);
        uint64_t sz = DL.getTypeAllocSize(ai->getAllocatedType());
        T n = op1(*s, f, ai->getArraySize());
        if(n->op != Op::CONST)
            die("alloca of symbolic size");
        sz *= n->c;
        uint64_t site = mix64(
            mix64(f.shash, f.fi->id),
            ((uint64_t) f.fi->rpo.find(f.bb)->second << 16) | f.fi->iidx.find(I)->second);
        uint64_t a = allocKeyed(*s, sz, Obj::STACK, "stack:" + f.fi->name, false, site);
        setReg(f, I, tm.cst(a, 64));
        f.stackObjs.push_back(a & ~7ull);
        f.stackObjs.push_back((a + sz - 1) & ~7ull);
        return next();
    }
    case Instruction::Load:
    {
        auto* li = cast<LoadInst>(I);
        T p = op1(*s, f, li->getPointerOperand());
        std::vector<std::pair<uint64_t, Type*>> ls;
        leaves(li->getType(), 0, ls);
        std::vector<T> r;
        for(auto& [off, ty] : ls)
        {
            unsigned w = bits(ty), n = (w + 7) / 8;
            bool ok;
            T v = load(*s, off ? tm.mkBin(Op::ADD, p, tm.cst(off, 64)) : p, n, ok);
            if(!ok)
                return GONE;
            r.push_back(v->w == w ? v : tm.mkExtract(v, 0, w));
        }
        setRegs(s->th[s->cur].top(), I, r);
        return next();
    }
    case Instruction::Store:
    {
        auto* si = cast<StoreInst>(I);
        T p = op1(*s, f, si->getPointerOperand());
        std::vector<T> v;
        operand(*s, f, si->getValueOperand(), v);
        std::vector<std::pair<uint64_t, Type*>> ls;
        leaves(si->getValueOperand()->getType(), 0, ls);
        for(size_t i = 0; i < v.size(); ++i)
        {
            unsigned w = v[i]->w, n = (w + 7) / 8;
            T a = ls[i].first ? tm.mkBin(Op::ADD, p, tm.cst(ls[i].first, 64)) : p;
            if(!store(*s, a, n, tm.mkZext(v[i], n * 8)))
                return GONE;
        }
        return next();
    }
    case Instruction::Fence: return next();
    case Instruction::AtomicRMW:
    {
        auto* ar = cast<AtomicRMWInst>(I);
        T p = op1(*s, f, ar->getPointerOperand()), v = op1(*s, f, ar->getValOperand());
        unsigned w = v->w, n = (w + 7) / 8;
        bool ok;
        T old = load(*s, p, n, ok);
        if(!ok)
            return GONE;
        if(old->w != w)
            old = tm.mkExtract(old, 0, w);
        T nv;
        switch(ar->getOperation())
        {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = tm.mkBin(Op::ADD, old, v); break;
        case AtomicRMWInst::Sub: nv = tm.mkBin(Op::SUB, old, v); break;
        case AtomicRMWInst::And: nv = tm.mkBin(Op::BVAND, old, v); break;
        case AtomicRMWInst::Or: nv = tm.mkBin(Op::BVOR, old, v); break;
        case AtomicRMWInst::Xor: nv = tm.mkBin(Op::XOR, old, v); break;
        case AtomicRMWInst::Nand: nv = tm.mkBvNot(tm.mkBin(Op::BVAND, old, v)); break;
        case AtomicRMWInst::UMax: nv = tm.mkIte(tm.mkCmp(Op::ULT, old, v), v, old); break;
        case AtomicRMWInst::UMin: nv = tm.mkIte(tm.mkCmp(Op::ULT, old, v), old, v); break;
        case AtomicRMWInst::Max: nv = tm.mkIte(tm.mkCmp(Op::SLT, old, v), v, old); break;
        case AtomicRMWInst::Min: nv = tm.mkIte(tm.mkCmp(Op::SLT, old, v), old, v); break;
        default: die("atomicrmw operation");
        }
        if(!store(*s, p, n, tm.mkZext(nv, n * 8)))
            return GONE;
        setReg(s->th[s->cur].top(), I, old);
        return next();
    }
    case Instruction::AtomicCmpXchg:
    {
        auto* cx = cast<AtomicCmpXchgInst>(I);
        T p = op1(*s, f, cx->getPointerOperand());
        T c = op1(*s, f, cx->getCompareOperand()), v = op1(*s, f, cx->getNewValOperand());
        unsigned w = v->w, n = (w + 7) / 8;
        bool ok;
        T old = load(*s, p, n, ok);
        if(!ok)
            return GONE;
        if(old->w != w)
            old = tm.mkExtract(old, 0, w);
        T eq = tm.mkEq(old, c);
        T nv = tm.mkIte(eq, v, old);
        if(nv != old && !store(*s, p, n, tm.mkZext(nv, n * 8)))
            return GONE;
        if(nv == old)
        {
            std::vector<UVal> es;
            enumerate(*s, p, es, 64);
            for(auto& e : es)
                note(*s, e.v, n, true);
        }
        setRegs(s->th[s->cur].top(), I, {old, eq});
        return next();
    }
    case Instruction::GetElementPtr:
    {
        auto* g = cast<GetElementPtrInst>(I);
        if(g->getType()->isVectorTy())
            die("vector gep");
        T p = op1(*s, f, g->getPointerOperand());
        uint64_t coff = 0;
        for(auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti)
        {
            Value* ix = gti.getOperand();
            if(StructType* stt = gti.getStructTypeOrNull())
            {
                coff += (uint64_t) DL.getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                continue;
            }
            uint64_t es = DL.getTypeAllocSize(gti.getIndexedType());
            T i = op1(*s, f, ix);
            if(i->w < 64)
                i = tm.mkSext(i, 64);
            if(i->op == Op::CONST)
                coff += i->c * es;
            else
                p = tm.mkBin(Op::ADD, p, tm.mkBin(Op::MUL, i, tm.cst(es, 64)));
        }
        if(coff)
            p = tm.mkBin(Op::ADD, p, tm.cst(coff, 64));
        setReg(f, I, p);
        return next();
    }
    case Instruction::ICmp:
    {
        std::vector<T> a, b, r;
        operand(*s, f, I->getOperand(0), a);
        operand(*s, f, I->getOperand(1), b);
        for(size_t i = 0; i < a.size(); ++i)
            r.push_back(icmp(tm, cast<ICmpInst>(I)->getPredicate(), a[i], b[i]));
        setRegs(f, I, r);
        return next();
    }
    case Instruction::Select:
    {
        auto* si = cast<SelectInst>(I);
        std::vector<T> c, a, b, r;
        operand(*s, f, si->getCondition(), c);
        operand(*s, f, si->getTrueValue(), a);
        operand(*s, f, si->getFalseValue(), b);
        for(size_t i = 0; i < a.size(); ++i)
            r.push_back(tm.mkIte(c.size() > 1 ? c[i] : c[0], a[i], b[i]));
        setRegs(f, I, r);
        return next();
    }
    case Instruction::Trunc:
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    {
        std::vector<T> a, r;
        operand(*s, f, I->getOperand(0), a);
        std::vector<std::pair<uint64_t, Type*>> ls;
        leaves(I->getType(), 0, ls);
        if(ls.size() != a.size())
        {
            // bitcast between scalars and vectors
            T all = a[0];
            for(size_t i = 1; i < a.size(); ++i)
                all = tm.mkConcat(a[i], all);
            unsigned lo = 0;
            for(auto& l : ls)
            {
                unsigned w = bits(l.second);
                r.push_back(tm.mkExtract(all, lo, w));
                lo += w;
            }
        }
        else
            for(size_t i = 0; i < a.size(); ++i)
            {
                unsigned w = bits(ls[i].second);
                if(w < a[i]->w)
                    r.push_back(tm.mkExtract(a[i], 0, w));
                else if(opc == Instruction::SExt)
                    r.push_back(tm.mkSext(a[i], w));
                else
                    r.push_back(tm.mkZext(a[i], w));
            }
        setRegs(f, I, r);
        return next();
    }
    case Instruction::Freeze:
    {
        std::vector<T> a;
        operand(*s, f, I->getOperand(0), a);
        setRegs(f, I, a);
        return next();
    }
    case Instruction::ExtractValue:
    {
        auto* ev = cast<ExtractValueInst>(I);
        std::vector<T> a;
        operand(*s, f, ev->getAggregateOperand(), a);
        unsigned off = 0;
        Type* ty = ev->getAggregateOperand()->getType();
        for(unsigned ix : ev->indices())
        {
            if(auto* stt = dyn_cast<StructType>(ty))
            {
                for(unsigned j = 0; j < ix; ++j)
                    off += slots(stt->getElementType(j));
                ty = stt->getElementType(ix);
            }
            else
            {
                ty = cast<ArrayType>(ty)->getElementType();
                off += ix * slots(ty);
            }
        }
        setRegs(f, I, std::vector<T>(a.begin() + off, a.begin() + off + slots(ty)));
        return next();
    }
    case Instruction::InsertValue:
    {
        auto* iv = cast<InsertValueInst>(I);
        std::vector<T> a, v;
        operand(*s, f, iv->getAggregateOperand(), a);
        operand(*s, f, iv->getInsertedValueOperand(), v);
        unsigned off = 0;
        Type* ty = iv->getAggregateOperand()->getType();
        for(unsigned ix : iv->indices())
        {
            if(auto* stt = dyn_cast<StructType>(ty))
            {
                for(unsigned j = 0; j < ix; ++j)
                    off += slots(stt->getElementType(j));
                ty = stt->getElementType(ix);
            }
            else
            {
                ty = cast<ArrayType>(ty)->getElementType();
                off += ix * slots(ty);
            }
        }
        for(size_t i = 0; i < v.size(); ++i)
            a[off + i] = v[i];
        setRegs(f, I, a);
        return next();
    }
    case Instruction::ExtractElement:
    {
        std::vector<T> a;
        operand(*s, f, I->getOperand(0), a);
        T i = op1(*s, f, I->getOperand(1));
        if(i->op != Op::CONST)
            die("extractelement with symbolic index");
        setReg(f, I, a.at(i->c));
        return next();
    }
    case Instruction::InsertElement:
    {
        std::vector<T> a;
        operand(*s, f, I->getOperand(0), a);
        T i = op1(*s, f, I->getOperand(2));
        if(i->op != Op::CONST)
            die("insertelement with symbolic index");
        a.at(i->c) = op1(*s, f, I->getOperand(1));
        setRegs(f, I, a);
        return next();
    }
    case Instruction::ShuffleVector:
    {
        auto* sv = cast<ShuffleVectorInst>(I);
        std::vector<T> a, r;
        operand(*s, f, sv->getOperand(0), a);
        operand(*s, f, sv->getOperand(1), a);
        for(int m : sv->getShuffleMask())
            r.push_back(m < 0 ? tm.cst(0, a[0]->w) : a[m]);
        setRegs(f, I, r);
        return next();
    }
    case Instruction::Br:
    {
        auto* b = cast<BranchInst>(I);
        if(b->isUnconditional())
            return br(s, b->getSuccessor(0));
        T c = op1(*s, f, b->getCondition());
        return forkOn(s, c, [&](SP& x, bool v) { return br(x, b->getSuccessor(v ? 0 : 1)); });
    }
    case Instruction::Switch:
    {
        auto* sw = cast<SwitchInst>(I);
        T v = op1(*s, f, sw->getCondition());
        if(v->op == Op::CONST)
        {
            for(auto& c : sw->cases())
                if(c.getCaseValue()->getZExtValue() == v->c)
                    return br(s, c.getCaseSuccessor());
            return br(s, sw->getDefaultDest());
        }
        T rest = s->guard;
        std::vector<std::pair<BasicBlock*, T>> dst;
        auto add = [&](BasicBlock* b, T g)
        {
            for(auto& d : dst)
                if(d.first == b)
                {
                    d.second = tm.mkOr(d.second, g);
                    return;
                }
            dst.push_back({b, g});
        };
        T def = tm.TRUE_;
        for(auto& c : sw->cases())
        {
            T e = tm.mkEq(v, tm.cst(c.getCaseValue()->getZExtValue(), v->w));
            add(c.getCaseSuccessor(), e);
            def = tm.mkAnd(def, tm.mkNot(e));
        }
        add(sw->getDefaultDest(), def);
        st.forks++;
        for(auto& [b, g] : dst)
        {
            T gg = tm.mkAnd(rest, g);
            if(!solver.sat(gg))
                continue;
            SP o = clone(*s);
            o->guard = gg;
            R r = br(o, b);
            if(r == JUMP)
                pushWork(std::move(o));
        }
        return GONE;
    }
    case Instruction::Ret:
    {
        std::vector<T> v;
        if(auto* rv = cast<ReturnInst>(I)->getReturnValue())
            operand(*s, f, rv, v);
        return retFrom(s, v);
    }
    case Instruction::Unreachable:
        violation(*s, s->guard, "unreachable", "unreachable code reached");
        return GONE;
    case Instruction::LandingPad: // entered by unwind(), which sets the value
        return next();
    case Instruction::Resume:
    {
        Thread& th = s->th[s->cur];
        if(th.fr.size() == 1)
        {
            violation(*s, s->guard, "exception", "uncaught exception");
            return GONE;
        }
        th.fr.pop_back();
        return unwind(s);
    }
    case Instruction::Call:
    case Instruction::Invoke: return call(s, cast<CallBase>(I));
    case Instruction::PHI: die("phi outside of block entry");
    default: die("unsupported instruction " + std::string(I->getOpcodeName()));
    }
}

// ------------------------------------------------------------------ calls

Engine::R Engine::call(SP& s, CallBase* cb)
{
    Frame& f = s->th[s->cur].top();
    if(auto* ii = dyn_cast<IntrinsicInst>(cb))
        return intrinsic(s, ii);
    if(cb->isInlineAsm())
        return finishCall(s, cb);
    Value* cv = cb->getCalledOperand()->stripPointerCasts();
    Function* F = dyn_cast<Function>(cv);
    if(auto* ga = dyn_cast<GlobalAlias>(cv))
        F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
    if(!F)
    {
        T p = op1(*s, f, cb->getCalledOperand());
        std::vector<UVal> es;
        if(!enumerate(*s, p, es, 64))
        {
            incompleteAt(*s, "indirect call with too many targets");
            return GONE;
        }
        auto go = [&](SP& x, uint64_t a) -> R
        {
            Obj* o = findObj(a);
            if(!o || o->kind != Obj::FUNC)
            {
                violation(*x, x->guard, "memory", "call through an invalid function pointer");
                return GONE;
            }
            std::vector<std::vector<T>> args;
            Frame& fx = x->th[x->cur].top();
            for(auto& A : cb->args())
            {
                args.emplace_back();
                operand(*x, fx, A, args.back());
            }
            if(o->fn->isDeclaration())
                return external(x, cb, o->fn, o->fn->getName().str());
            return enter(x, cb, o->fn, args);
        };
        if(es.size() == 1)
            return go(s, es[0].v);
        std::vector<std::pair<uint64_t, T>> feas;
        for(auto& e : es)
        {
            T g = tm.mkAnd(s->guard, e.g);
            if(solver.sat(g))
                feas.push_back({e.v, g});
        }
        if(feas.size() == 1)
            return go(s, feas[0].first);
        st.forks++;
        for(auto& [a, g] : feas)
        {
            SP o = clone(*s);
            o->guard = g;
            R r = go(o, a);
            if(r == CONT || r == JUMP)
                pushWork(std::move(o));
            else if(r == STOP)
                stopAt(std::move(o));
        }
        return GONE;
    }
    if(F->isDeclaration())
        return external(s, cb, F, F->getName().str());
    std::vector<std::vector<T>> args;
    for(auto& A : cb->args())
    {
        args.emplace_back();
        if(A->getType()->isMetadataTy())
            continue;
        operand(*s, f, A, args.back());
    }
    return enter(s, cb, F, args);
}

Engine::R Engine::intrinsic(SP& s, IntrinsicInst* ii)
{
    Frame& f = s->th[s->cur].top();
    auto A = [&](unsigned i) { return op1(*s, f, ii->getArgOperand(i)); };
    auto done = [&](T v) -> R
    {
        setReg(s->th[s->cur].top(), ii, v);
        return finishCall(s, ii);
    };
    switch(ii->getIntrinsicID())
    {
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_end:
    case Intrinsic::stackrestore:
    case Intrinsic::donothing:
    case Intrinsic::prefetch: return finishCall(s, ii);
    case Intrinsic::assume: return finishCall(s, ii);
    case Intrinsic::invariant_start: return done(tm.cst(0, 64));
    case Intrinsic::stacksave: return done(tm.cst(0, 64));
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation: return done(A(0));
    case Intrinsic::is_constant: return done(tm.FALSE_);
    case Intrinsic::objectsize: return done(tm.cst(~0ull, bits(ii->getType())));
    case Intrinsic::eh_typeid_for: return done(tm.mkExtract(A(0), 0, 32));
    case Intrinsic::threadlocal_address:
        return done(
            tm.cst(constAddr(cast<GlobalValue>(ii->getArgOperand(0)), s.get(), s->th[s->cur].tid), 64));
    case Intrinsic::trap:
        violation(*s, s->guard, "trap", "trap reached");
        return GONE;
    case Intrinsic::umin: { T a = A(0), b = A(1); return done(tm.mkIte(tm.mkCmp(Op::ULT, a, b), a, b)); }
    case Intrinsic::umax: { T a = A(0), b = A(1); return done(tm.mkIte(tm.mkCmp(Op::ULT, a, b), b, a)); }
    case Intrinsic::smin: { T a = A(0), b = A(1); return done(tm.mkIte(tm.mkCmp(Op::SLT, a, b), a, b)); }
    case Intrinsic::smax: { T a = A(0), b = A(1); return done(tm.mkIte(tm.mkCmp(Op::SLT, a, b), b, a)); }
    case Intrinsic::abs:
    {
        T a = A(0);
        return done(tm.mkIte(tm.mkCmp(Op::SLT, a, tm.cst(0, a->w)), tm.mkBin(Op::SUB, tm.cst(0, a->w), a), a));
    }
    case Intrinsic::ctpop:
    {
        T a = A(0), r = tm.cst(0, a->w);
        for(unsigned i = 0; i < a->w; ++i)
            r = tm.mkBin(Op::ADD, r, tm.mkZext(tm.mkExtract(a, i, 1), a->w));
        return done(r);
    }
    case Intrinsic::cttz:
    {
        T a = A(0), r = tm.cst(a->w, a->w);
        for(unsigned i = a->w; i-- > 0;)
            r = tm.mkIte(tm.mkExtract(a, i, 1), tm.cst(i, a->w), r);
        return done(r);
    }
    case Intrinsic::ctlz:
    {
        T a = A(0), r = tm.cst(a->w, a->w);
        for(unsigned i = 0; i < a->w; ++i)
            r = tm.mkIte(tm.mkExtract(a, i, 1), tm.cst(a->w - 1 - i, a->w), r);
        return done(r);
    }
    case Intrinsic::bswap:
    {
        T a = A(0), r = nullptr;
        for(unsigned i = 0; i < a->w; i += 8)
        {
            T b = tm.mkExtract(a, i, 8);
            r = r ? tm.mkConcat(r, b) : b;
        }
        return done(r);
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr:
    {
        T a = A(0), b = A(1), c = A(2);
        if(c->op != Op::CONST)
            die("funnel shift by symbolic amount");
        unsigned w = a->w, k = c->c % w;
        if(ii->getIntrinsicID() == Intrinsic::fshl)
        {
            if(k == 0)
                return done(a);
            return done(tm.mkConcat(tm.mkExtract(a, 0, w - k), tm.mkExtract(b, w - k, k)));
        }
        if(k == 0)
            return done(b);
        return done(tm.mkConcat(tm.mkExtract(a, 0, k), tm.mkExtract(b, k, w - k)));
    }
    case Intrinsic::usub_sat:
    {
        T a = A(0), b = A(1);
        return done(tm.mkIte(tm.mkCmp(Op::ULT, a, b), tm.cst(0, a->w), tm.mkBin(Op::SUB, a, b)));
    }
    case Intrinsic::uadd_sat:
    {
        T a = A(0), b = A(1), r = tm.mkBin(Op::ADD, a, b);
        return done(tm.mkIte(tm.mkCmp(Op::ULT, r, a), tm.cst(~0ull, a->w), r));
    }
    case Intrinsic::uadd_with_overflow:
    {
        T a = A(0), b = A(1), r = tm.mkBin(Op::ADD, a, b);
        setRegs(s->th[s->cur].top(), ii, {r, tm.mkCmp(Op::ULT, r, a)});
        return finishCall(s, ii);
    }
    case Intrinsic::usub_with_overflow:
    {
        T a = A(0), b = A(1), r = tm.mkBin(Op::SUB, a, b);
        setRegs(s->th[s->cur].top(), ii, {r, tm.mkCmp(Op::ULT, a, b)});
        return finishCall(s, ii);
    }
    case Intrinsic::umul_with_overflow:
    {
        T a = A(0), b = A(1), r = tm.mkBin(Op::MUL, a, b);
        if(a->op == Op::CONST)
            std::swap(a, b);
        if(b->op != Op::CONST)
            die("symbolic multiplication with overflow");
        T ov = b->c == 0 ? tm.FALSE_ : tm.mkCmp(Op::ULT, tm.cst(maskw(a->w) / b->c, a->w), a);
        setRegs(s->th[s->cur].top(), ii, {r, ov});
        return finishCall(s, ii);
    }
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove:
    {
        T dst = A(0), src = A(1), len = A(2);
        std::vector<UVal> ls;
        if(!enumerate(*s, len, ls, 64))
        {
            incompleteAt(*s, "memcpy with symbolic length");
            return GONE;
        }
        if(ls.size() > 1)
        {
            std::vector<std::pair<uint64_t, T>> feas;
            for(auto& e : ls)
                if(solver.sat(tm.mkAnd(s->guard, e.g)))
                    feas.push_back({e.v, tm.mkAnd(s->guard, e.g)});
            if(feas.size() > 1)
            {
                for(auto& [v, g] : feas)
                {
                    SP o = clone(*s);
                    o->guard = g;
                    // make the length concrete in this state and retry
                    if(auto* lv = dyn_cast<Instruction>(ii->getArgOperand(2)))
                        setReg(o->th[o->cur].top(), lv, tm.cst(v, len->w));
                    else if(auto* av = dyn_cast<Argument>(ii->getArgOperand(2)))
                        setReg(o->th[o->cur].top(), av, tm.cst(v, len->w));
                    // exploration continues at the same instruction: run it directly to avoid a merge
                    R r = intrinsic(o, ii);
                    if(r == CONT || r == JUMP)
                        pushWork(std::move(o));
                }
                return GONE;
            }
            ls = {{feas[0].first, tm.TRUE_}};
        }
        uint64_t n = ls[0].v;
        if(n == 0)
            return finishCall(s, ii);
        std::vector<UVal> ds, ss;
        if(!resolve(*s, src, n, "read", ss) || !resolve(*s, dst, n, "write", ds))
            return GONE;
        // read everything first (memmove)
        std::vector<std::pair<unsigned, T>> vals; // size, value (null: never written)
        for(uint64_t o = 0; o < n;)
        {
            unsigned k = n - o >= 8 ? 8 : 1;
            if(k == 8 && ss.size() == 1 && ((ss[0].v + o) & 7))
            {
                uint64_t mis = (ss[0].v + o) & 7;
                k = (mis & 3) == 0 ? 4 : (mis & 1) == 0 ? 2 : 1;
            }
            else if(k == 1 && n - o >= 4 && ss.size() == 1 && ((ss[0].v + o) & 3) == 0)
                k = 4;
            T v = nullptr;
            if(ss.size() == 1 && k == 8 && !s->mem.get(ss[0].v + o) && ds.size() == 1
               && !findObj(ss[0].v)->zero && findObj(ss[0].v)->kind != Obj::GLOBAL)
                v = nullptr; // uninitialised stays uninitialised
            else
                for(auto i = ss.rbegin(); i != ss.rend(); ++i)
                {
                    T x = rd(*s, i->v + o, k);
                    v = v ? tm.mkIte(i->g, x, v) : x;
                }
            vals.push_back({k, v});
            o += k;
        }
        for(auto& e : ss)
            note(*s, e.v, n, false);
        for(auto& e : ds)
            note(*s, e.v, n, true);
        for(auto& d : ds)
        {
            Obj* od = findObj(d.v);
            bool priv = !s->par
                        || (od->kind == Obj::HEAP && od->parPhase == s->parPhase && !s->published->count(od->base))
                        || (od->kind == Obj::STACK && od->tid == s->th[s->cur].tid && !s->published->count(od->base));
            uint64_t o = 0;
            for(auto& [k, v] : vals)
            {
                if(v)
                {
                    if(!priv)
                        publishVal(*s, v);
                    if(ds.size() == 1)
                        wr(*s, d.v + o, k, v);
                    else
                        wr(*s, d.v + o, k, tm.mkIte(d.g, v, rd(*s, d.v + o, k)));
                }
                o += k;
            }
        }
        return finishCall(s, ii);
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline:
    {
        T dst = A(0), val = A(1), len = A(2);
        std::vector<UVal> ls;
        if(!enumerate(*s, len, ls, 64) || ls.size() != 1)
        {
            incompleteAt(*s, "memset with symbolic length");
            return GONE;
        }
        uint64_t n = ls[0].v;
        if(n == 0)
            return finishCall(s, ii);
        std::vector<UVal> ds;
        if(!resolve(*s, dst, n, "write", ds))
            return GONE;
        T w = val;
        for(int i = 1; i < 8; ++i)
            w = tm.mkConcat(val, w);
        for(auto& d : ds)
        {
            note(*s, d.v, n, true);
            for(uint64_t o = 0; o < n;)
            {
                unsigned k = ((d.v + o) & 7) == 0 && n - o >= 8 ? 8 : 1;
                T v = k == 8 ? w : val;
                wr(*s, d.v + o, k, ds.size() == 1 ? v : tm.mkIte(d.g, v, rd(*s, d.v + o, k)));
                o += k;
            }
        }
        return finishCall(s, ii);
    }
    default: die("unsupported intrinsic " + ii->getCalledFunction()->getName().str());
    }
}
