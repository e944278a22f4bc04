// Program states: copy-on-write memory, threads, frames, and their merging.
#pragma once
#include "term.hpp"

#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <map>
#include <memory>
#include <set>

struct Page
{
    T w[8];
    mutable uint64_t h = 0; // cached digest, 0 = unknown
};
struct Dir
{
    std::shared_ptr<Page> p[64];
    mutable uint64_t h = 0;
};
inline uint64_t hmix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 29);
}

// word-addressed memory; a null word means "never written"
struct Mem
{
    std::vector<std::shared_ptr<Dir>> d;

    T get(uint64_t addr) const
    {
        uint64_t wi = addr >> 3, di = wi >> 9;
        if(di >= d.size() || !d[di])
            return nullptr;
        auto& p = d[di]->p[(wi >> 3) & 63];
        return p ? p->w[wi & 7] : nullptr;
    }
    void set(uint64_t addr, T v)
    {
        uint64_t wi = addr >> 3, di = wi >> 9;
        if(di >= d.size())
            d.resize(di + 64);
        if(!d[di])
            d[di] = std::make_shared<Dir>();
        else if(d[di].use_count() > 1)
            d[di] = std::make_shared<Dir>(*d[di]);
        auto& p = d[di]->p[(wi >> 3) & 63];
        if(!p)
        {
            p = std::make_shared<Page>();
            for(auto& x : p->w)
                x = nullptr;
        }
        else if(p.use_count() > 1)
            p = std::make_shared<Page>(*p);
        p->w[wi & 7] = v;
        p->h = 0;
        d[di]->h = 0;
    }
    uint64_t digest() const
    {
        uint64_t r = 0;
        for(size_t i = 0; i < d.size(); ++i)
        {
            if(!d[i])
                continue;
            if(!d[i]->h)
            {
                uint64_t x = 0;
                for(int j = 0; j < 64; ++j)
                {
                    Page const* p = d[i]->p[j].get();
                    if(!p)
                        continue;
                    if(!p->h)
                    {
                        uint64_t y = 0;
                        for(int k = 0; k < 8; ++k)
                            if(p->w[k])
                                y += hmix(0x1234567 + k, p->w[k]->id);
                        p->h = y + 1;
                    }
                    if(p->h != 1)
                        x += hmix(77 + j, p->h);
                }
                d[i]->h = x + 1;
            }
            if(d[i]->h != 1)
                r += hmix(0xabcdef + i, d[i]->h);
        }
        return r;
    }
    static bool equal(Mem const& a, Mem const& b)
    {
        size_t n = std::max(a.d.size(), b.d.size());
        for(size_t i = 0; i < n; ++i)
        {
            auto da = i < a.d.size() ? a.d[i].get() : nullptr, db = i < b.d.size() ? b.d[i].get() : nullptr;
            if(da == db)
                continue;
            for(int j = 0; j < 64; ++j)
            {
                auto pa = da ? da->p[j].get() : nullptr, pb = db ? db->p[j].get() : nullptr;
                if(pa == pb)
                    continue;
                for(int k = 0; k < 8; ++k)
                    if((pa ? pa->w[k] : nullptr) != (pb ? pb->w[k] : nullptr))
                        return false;
            }
        }
        return true;
    }
    // calls f(addr, wa, wb) for each differing word
    template<class F>
    static void diff(Mem const& a, Mem const& b, F f)
    {
        size_t n = std::max(a.d.size(), b.d.size());
        for(size_t i = 0; i < n; ++i)
        {
            auto da = i < a.d.size() ? a.d[i].get() : nullptr, db = i < b.d.size() ? b.d[i].get() : nullptr;
            if(da == db)
                continue;
            for(int j = 0; j < 64; ++j)
            {
                auto pa = da ? da->p[j].get() : nullptr, pb = db ? db->p[j].get() : nullptr;
                if(pa == pb)
                    continue;
                for(int k = 0; k < 8; ++k)
                {
                    T wa = pa ? pa->w[k] : nullptr, wb = pb ? pb->w[k] : nullptr;
                    if(wa != wb)
                        f((((uint64_t) i << 9) + j * 8 + k) << 3, wa, wb);
                }
            }
        }
    }
};

struct FInfo
{
    llvm::Function* F;
    unsigned id;
    std::string name;
    llvm::DenseMap<llvm::Value const*, unsigned> num; // first slot
    unsigned nslots = 0;
    llvm::DenseMap<llvm::BasicBlock const*, unsigned> rpo;
    llvm::DenseMap<llvm::BasicBlock const*, std::vector<llvm::Loop*>> loops; // outer -> inner
    llvm::DenseMap<llvm::Instruction const*, unsigned> iidx;
    std::unique_ptr<llvm::DominatorTree> dt;
    std::unique_ptr<llvm::LoopInfo> li;
    llvm::DenseMap<llvm::BasicBlock const*, std::set<unsigned>> liveIn; // first slots of live values
    bool liveDone = false;
    llvm::DenseMap<llvm::Instruction const*, std::vector<unsigned>> liveAt; // all live slots before an instruction
};

struct Frame
{
    FInfo* fi;
    llvm::BasicBlock* bb;
    llvm::BasicBlock* prev = nullptr;
    llvm::Instruction* pc;
    std::vector<T> regs;
    std::vector<std::pair<llvm::Loop*, unsigned>> iters;
    std::vector<T> iterGuard; // the guard with which each of these loops was entered
    uint64_t shash; // hash of the call stack down to this frame
    bool isCtorCall = false;
    std::vector<uint64_t> stackObjs; // word addresses [first, last] pairs of its allocas
};

// a suspended execution context (boost::context): its call stack
struct Ctx
{
    std::vector<std::shared_ptr<Frame>> fr;
    std::vector<std::pair<uint64_t, uint64_t>> caught;
    bool started = false;
};
struct Thread
{
    unsigned tid = 0;
    uint64_t ctx = 0; // the context that runs, 0 = the one the thread started with
    std::vector<std::shared_ptr<Frame>> fr;
    bool finished = false;
    unsigned atomicDepth = 0; // upper half: inside an atomic operation of a shared_ptr (one step, but visible to others)
    unsigned ghost = 0; // > 0: inside of ghost code (harness bookkeeping), no scheduling points
    bool joinReq = false;
    unsigned sub = 0; // sub-step of a multi-step library call (condition variable wait)
    // exception in flight / caught
    std::vector<std::pair<uint64_t, uint64_t>> caught; // (object, typeinfo)
    uint64_t excObj = 0, excType = 0;
    bool quantum = false; // the next visible operation may be executed

    Frame& top()
    {
        auto& p = fr.back();
        if(p.use_count() > 1)
            p = std::make_shared<Frame>(*p);
        return *p;
    }
    Frame const& topc() const
    {
        return *fr.back();
    }
};

using Key = std::vector<uint32_t>;

struct State
{
    T guard; // path condition (in split mode: over the inputs only)
    T sched = nullptr; // split mode: condition over the schedule variables
    Mem mem;
    std::shared_ptr<std::map<uint64_t, uint32_t>> counts; // allocation / variable counters
    std::shared_ptr<std::set<uint64_t>> published; // heap objects of the parallel phase that escaped their thread
    std::vector<Thread> th;
    std::map<uint64_t, std::shared_ptr<Ctx>> ctxs; // suspended contexts
    unsigned cur = 0;
    bool par = false;
    unsigned parPhase = 0;
    int lastT = -1; // thread that made the last step (context bounding)
    int budget = -1; // remaining preemptions, -1 = unbounded

    uint32_t bump(uint64_t k)
    {
        if(counts.use_count() > 1)
            counts = std::make_shared<std::map<uint64_t, uint32_t>>(*counts);
        return (*counts)[k]++;
    }
    uint32_t count(uint64_t k) const
    {
        auto it = counts->find(k);
        return it == counts->end() ? 0 : it->second;
    }
    void publish(uint64_t b)
    {
        if(published->count(b))
            return;
        if(published.use_count() > 1)
            published = std::make_shared<std::set<uint64_t>>(*published);
        published->insert(b);
    }
};
using SP = std::unique_ptr<State>;
