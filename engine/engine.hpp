#pragma once
#include "solver.hpp"
#include "state.hpp"

#include <functional>

struct Obj
{
    uint64_t base = 0, size = 0;
    enum Kind
    {
        GLOBAL,
        HEAP,
        STACK,
        FUNC,
        TLS
    } kind = HEAP;
    bool zero = false; // never-written words read as zero
    unsigned parPhase = 0; // parallel phase in which it was allocated (0: sequential)
    unsigned tid = 0;
    std::string name;
    unsigned idx = 0;
    uint64_t key = 0; // allocation key
    llvm::Function* fn = nullptr;
};

struct Violation
{
    std::string kind, msg, where, fn;
    std::map<std::string, uint64_t> model;
    std::vector<std::string> trace; // call stack
    std::vector<std::string> schedule; // from the concrete replay
    bool confirmed = false;
    std::string replayNote;
    unsigned layer = 0; // no-termination: the layer from which a replay schedules fairly
    std::string key() const
    {
        return kind + "|" + msg + "|" + where;
    }
};

struct Options
{
    std::string entry = "harness";
    unsigned unroll = 200;
    unsigned unrollStraight = 100000; // of loops without a choice, outside of parallel parts
    unsigned maxLayers = 400;
    unsigned fairLayers = 600;
    unsigned maxDepth = 200;
    int budget = -1;
    bool verbose = false, trace = false;
    bool stopOnFirst = false;
    double timeLimit = 0;
    std::vector<std::string> quiet; // innermost source functions whose accesses are not scheduling points
    std::vector<std::string> noFail; // functions that are no-ops if external
    std::map<std::string, uint64_t> fixed; // concrete replay: values of variables
    bool replay = false;
    bool split = false; // merge only states that agree in memory and live registers
    bool spurious = false; // condition variables may wake up spuriously
    std::string dumpSmt;
};

struct Stats
{
    uint64_t instrs = 0, forks = 0, merges = 0, steps = 0, layers = 0, asserts = 0, rounds = 0, parStates = 0,
             transitions = 0, graphNodes = 0, maxWork = 0;
};

struct Engine
{
    llvm::Module& M;
    llvm::DataLayout const& DL;
    TermMgr tm;
    Solver solver;
    Options opt;
    Stats st;

    std::map<uint64_t, Obj> objs; // by base
    std::vector<Obj*> objByIdx;
    uint64_t nextAddr = 0x100000; // words below are liveness flags of heap objects
    std::unordered_map<uint64_t, uint64_t> addrOfKey;
    llvm::DenseMap<llvm::GlobalValue const*, uint64_t> gaddr;
    std::map<std::pair<llvm::GlobalValue const*, unsigned>, uint64_t> tlsAddr;
    llvm::DenseMap<llvm::Function const*, FInfo*> finfo;
    std::vector<std::unique_ptr<FInfo>> finfos;
    llvm::DenseMap<llvm::Function const*, unsigned> fnIndex;
    std::set<std::string> executed; // functions executed (linkage names)
    std::map<std::string, uint64_t> execCount;

    std::set<uint64_t> conflict; // words that are scheduling points
    // a thread span on a word no other thread is known to use: make all atomic operations scheduling points for a round
    bool spun = false, allAtomics = false;
    unsigned spinRounds = 0;
    struct Foot
    {
        uint32_t r = 0, w = 0;
        bool plain = false; // accessed outside of atomic sections
    };
    std::unordered_map<uint64_t, Foot> foot;
    std::set<llvm::Instruction const*> schedInstrs;

    std::map<std::string, Violation> violations;
    std::map<std::string, bool> covers;
    std::map<std::string, unsigned> assertCount; // by message
    std::vector<std::string> incomplete;
    std::vector<std::string> schedLog; // replay only
    double t0;
    T removed = nullptr; // guard of paths cut by assumptions or reported violations since the last reset
    bool unfinished = false;
    std::set<llvm::Instruction const*> replaySet;
    size_t finalStates = 0;
    struct Ev { unsigned tid; llvm::Instruction const* I; };
    std::vector<Ev> events; // replay only: executed instructions that are scheduling points
    std::vector<std::string> notes;
    unsigned nThreadsMax = 0;
    T arg0 = nullptr; // replaces the first argument of an external call (case split)

    // worklist of the current thread run
    struct Work
    {
        std::map<Key, SP> q;
    }* work = nullptr;
    std::vector<SP>* stops = nullptr;

    Engine(llvm::Module& M, Options o) : M(M), DL(M.getDataLayout()), solver(tm), opt(o)
    {
        t0 = Solver::now();
    }

    // ---- helpers implemented in exec.cpp
    FInfo* info(llvm::Function* F);
    unsigned slots(llvm::Type* t);
    void leaves(llvm::Type* t, uint64_t off, std::vector<std::pair<uint64_t, llvm::Type*>>& out);
    unsigned bits(llvm::Type* t);
    uint64_t newObj(uint64_t size, Obj::Kind k, std::string name, bool zero);
    Obj* findObj(uint64_t a);
    void initGlobals(State& s);
    void storeConst(State& s, uint64_t addr, llvm::Constant const* c);
    uint64_t constAddr(llvm::GlobalValue const* g, State* s, unsigned tid);
    void constVals(llvm::Constant const* c, std::vector<T>& out, State* s);
    void operand(State& s, Frame const& f, llvm::Value* v, std::vector<T>& out);
    T op1(State& s, Frame const& f, llvm::Value* v);
    void setReg(Frame& f, llvm::Value* v, T t);
    void setRegs(Frame& f, llvm::Value* v, std::vector<T> const& t);

    T rdWord(State& s, uint64_t wa, Obj* o);
    T rd(State& s, uint64_t addr, unsigned n);
    void wr(State& s, uint64_t addr, unsigned n, T v);
    bool resolve(State& s, T addr, unsigned n, char const* what, std::vector<UVal>& out);
    bool enumerate(State& s, T v, std::vector<UVal>& out, unsigned limit);
    T load(State& s, T addr, unsigned n, bool& ok);
    bool store(State& s, T addr, unsigned n, T v);
    void note(State& s, uint64_t addr, unsigned n, bool write);
    void publishVal(State& s, T v);
    void publishObj(State& s, Obj* o);
    T alive(State& s, Obj* o);
    void setAlive(State& s, Obj* o, T v);
    uint64_t allocKeyed(State& s, uint64_t size, Obj::Kind k, std::string const& name, bool zero, uint64_t site);

    void violation(State& s, T cond, std::string kind, std::string msg);
    std::string where(State& s);
    std::string locStr(llvm::Instruction const* I);
    void incompleteAt(State& s, std::string msg);

    bool isQuiet(llvm::Instruction const* I);
    bool touchesConflict(State& s, T addr, unsigned n);
    bool isVisible(State& s, llvm::Instruction* I);

    enum R
    {
        CONT,
        JUMP,
        GONE, // state consumed (forked into the worklist, or dead)
        STOP
    };
    R exec(SP& s);
    R call(SP& s, llvm::CallBase* cb);
    R enter(SP& s, llvm::CallBase* cb, llvm::Function* F, std::vector<std::vector<T>> const& args);
    R external(SP& s, llvm::CallBase* cb, llvm::Function* F, std::string const& n);
    R forkValues(SP& s, llvm::CallBase* cb, unsigned arg, T v, std::function<R(SP&, uint64_t)> k);
    std::string cstr(State& s, T p);
    T nowPar(State& s);
    uint64_t siteOf(Frame const& f);
    void cut(State& s, T cond); // remove cond from the state's guard
    R intrinsic(SP& s, llvm::IntrinsicInst* ii);
    R finishCall(SP& s, llvm::CallBase* cb); // advance past a call/invoke (normal return)
    R unwind(SP& s);
    R br(SP& s, llvm::BasicBlock* to);
    R forkOn(SP& s, T c, std::function<R(SP&, bool)> k);
    R retFrom(SP& s, std::vector<T> const& vals);
    bool typeMatches(State& s, uint64_t thrown, uint64_t want);
    void pushWork(SP s);
    Key keyOf(Thread const& t, bool withIters);
    Key globalKey(State const& s);
    std::vector<unsigned> const& liveAt(FInfo* fi, llvm::Instruction* I);
    uint64_t regDigest(std::vector<std::shared_ptr<Frame>> const& fr);
    void ctxKey(State const& s, Key& k);
    std::shared_ptr<Frame> makeFrame(llvm::Function* F, uint64_t shash);
    void wipeFrame(State& s, Frame const& f);
    std::set<llvm::BasicBlock const*> execBlocks;
    SP clone(State const& s);
    void merge(State& into, State& from);
    T selector(T a, T b);

    std::vector<SP> runThread(std::vector<SP> init);
    std::vector<SP> stepThread(State const& s, unsigned t, bool first);
    std::vector<SP> runPar(SP s);
    bool runRound();
    void adopt(Engine const& o);
    void stopAt(SP s);
    bool stutter(State const& before, State const& after, unsigned t);
    void addThread(State& s, T fn, T arg);
    bool runAll();
    std::map<std::string, uint64_t> modelMap(Model& m);
    void checkTime();
};
