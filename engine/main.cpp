#include "engine.hpp"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <iostream>
#include <pthread.h>
#include <signal.h>
#include <sys/resource.h>

using namespace llvm;

std::string termStr(T t, TermMgr& tm, int d)
{
    static char const* nm[]
        = {"const", "var", "not", "and", "xor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr",
           "eq", "ult", "slt", "ite", "concat", "extract", "zext", "sext", "union", "bvand", "bvor", "bvnot"};
    if(t->op == Op::CONST)
        return std::to_string(t->c);
    if(t->op == Op::VAR)
        return tm.varNames[t->c];
    if(d == 0)
        return "...";
    std::string r = std::string("(") + nm[(int) t->op];
    if(t->op == Op::UNION)
    {
        for(auto& e : *t->u)
            r += " " + std::to_string(e.v) + "?" + termStr(e.g, tm, d - 1);
        return r + ")";
    }
    if(t->k)
        r += " " + termStr(t->k, tm, d - 1);
    if(t->a)
        r += " " + termStr(t->a, tm, d - 1);
    if(t->b)
        r += " " + termStr(t->b, tm, d - 1);
    if(t->op == Op::EXTRACT)
        r += " lo" + std::to_string(t->c) + " w" + std::to_string(t->w);
    return r + ")";
}

bool emitReplay(Module& M, Engine& e, Violation const& v, std::string const& base);

static Options opt;
static std::string jsonOut, replayOut;
static std::vector<std::string> inputs;
static int rc = 3;
static bool doReplay = true;

static json::Object report(Engine& e, std::string const& err)
{
    json::Object o;
    json::Array vs;
    for(auto& [k, v] : e.violations)
    {
        json::Object m;
        for(auto& [n, x] : v.model)
            m[n] = std::to_string(x);
        json::Array tr;
        for(auto& l : v.trace)
            tr.push_back(l);
        json::Array sc;
        for(auto& l : v.schedule)
            sc.push_back(l);
        vs.push_back(json::Object{
            {"kind", v.kind},
            {"msg", v.msg},
            {"where", v.where},
            {"stack", std::move(tr)},
            {"model", std::move(m)},
            {"schedule", std::move(sc)},
            {"concrete_replay", v.confirmed},
            {"replay_note", v.replayNote}});
    }
    o["violations"] = std::move(vs);
    json::Object cv;
    for(auto& [k, b] : e.covers)
        cv[k] = b;
    o["covers"] = std::move(cv);
    json::Object as;
    for(auto& [k, n] : e.assertCount)
        as[k] = (int64_t) n;
    o["asserts"] = std::move(as);
    json::Array fns;
    for(auto& n : e.executed)
        fns.push_back(demangle(n));
    o["functions"] = std::move(fns);
    // source functions of the code under test whose instructions were executed, inlined ones included
    std::set<std::string> src;
    auto addScope = [&](DISubprogram* sp)
    {
        if(!sp)
            return;
        std::string f = sp->getFilename().str();
        size_t p = f.rfind("redGrapes/");
        if(p == std::string::npos || f.find("harness") != std::string::npos)
            return;
        std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
        src.insert(f.substr(p) + ":" + std::to_string(sp->getLine()) + " " + n);
    };
    auto addBlock = [&](BasicBlock const* B)
    {
        for(auto& I : *B)
            for(DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
                addScope(l->getScope()->getSubprogram());
    };
    for(auto* B : e.execBlocks)
        addBlock(B);
    for(auto& n : e.executed)
        if(auto* F = e.M.getFunction(n); F && !F->empty())
            addBlock(&F->getEntryBlock());
    json::Array sfn;
    for(auto& n : src)
        sfn.push_back(n);
    o["source_functions"] = std::move(sfn);
    json::Array inc;
    for(auto& n : e.incomplete)
        inc.push_back(n);
    o["incomplete"] = std::move(inc);
    o["error"] = err;
    o["layer_bound_reached"] = e.unfinished;
    o["stats"] = json::Object{
        {"instructions", (int64_t) e.st.instrs},
        {"forks", (int64_t) e.st.forks},
        {"merges", (int64_t) e.st.merges},
        {"quanta", (int64_t) e.st.steps},
        {"layers", (int64_t) e.st.layers},
        {"graph_nodes", (int64_t) e.st.graphNodes},
        {"par_states", (int64_t) e.st.parStates},
        {"transitions", (int64_t) e.st.transitions},
        {"rounds", (int64_t) e.st.rounds},
        {"assert_executions", (int64_t) e.st.asserts},
        {"shared_words", (int64_t) e.conflict.size()},
        {"sched_points", (int64_t) e.schedInstrs.size()},
        {"threads", (int64_t) e.nThreadsMax},
        {"terms", (int64_t) e.tm.all.size()},
        {"variables", (int64_t) e.tm.vars.size()},
        {"final_states", (int64_t) e.finalStates},
        {"seconds", Solver::now() - e.t0}};
    o["solver"] = json::Object{
        {"queries", (int64_t) e.solver.nQueries},
        {"sat", (int64_t) e.solver.nSat},
        {"unsat", (int64_t) e.solver.nUnsat},
        {"answered_by_cached_model", (int64_t) e.solver.nModelHits},
        {"answered_by_memo", (int64_t) e.solver.nMemo},
        {"trivial", (int64_t) e.solver.nTrivial},
        {"seconds", e.solver.time}};
    json::Object bo{
        {"unroll", (int64_t) opt.unroll},
        {"max_layers", (int64_t) opt.maxLayers},
        {"preemptions", opt.budget < 0 ? json::Value("unbounded") : json::Value((int64_t) opt.budget)}};
    o["bounds"] = std::move(bo);
    return o;
}

static void* body(void*)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(inputs.at(0), err, ctx);
    if(!M)
    {
        err.print("rgsym", errs());
        rc = 3;
        return nullptr;
    }
    for(size_t i = 1; i < inputs.size(); ++i)
    {
        auto L = parseIRFile(inputs[i], err, ctx);
        if(!L || Linker::linkModules(*M, std::move(L), Linker::LinkOnlyNeeded))
        {
            err.print("rgsym", errs());
            return nullptr;
        }
    }
    // llvm helper functions that only wrap a termination
    Engine e(*M, opt);
    std::string error;
    try
    {
        e.runAll();
    }
    catch(int)
    {
    }
    catch(std::exception& x)
    {
        error = x.what();
    }
    if(doReplay)
    {
        int n = 0;
        for(auto& [k, v] : e.violations)
        {
            Options ro = opt;
            ro.replay = true;
            ro.fixed = v.model;
            ro.timeLimit = 120;
            ro.budget = -1;
            if(v.layer)
                ro.maxLayers = v.layer;
            else if(ro.split)
                ro.maxLayers = 1000000;
            Engine r(*M, ro);
            r.adopt(e);
            std::string rerr;
            try
            {
                r.runAll();
            }
            catch(int)
            {
            }
            catch(std::exception& x)
            {
                rerr = x.what();
            }
            v.confirmed = r.violations.count(k) > 0;
            if(v.kind == "no-termination")
                for(auto& [k2, v2] : r.violations)
                    v.confirmed |= v2.kind == "no-termination" || v2.kind == "deadlock";
            v.replayNote = rerr;
            if(!v.confirmed)
                for(auto& [k2, v2] : r.violations)
                    v.replayNote += " other: " + k2;
            unsigned last = 0;
            for(auto& ev : r.events)
            {
                std::string l = "T" + std::to_string(ev.tid) + ": " + e.locStr(ev.I);
                if(v.schedule.size() < 4000)
                    v.schedule.push_back(l);
                (void) last;
            }
            for(auto& l : r.notes)
                v.schedule.push_back("# " + l);
            if(!replayOut.empty() && n < 8)
                emitReplay(*M, r, v, replayOut + "." + std::to_string(n));
            ++n;
        }
    }
    json::Object o = report(e, error);
    std::string txt;
    raw_string_ostream os(txt);
    os << formatv("{0:2}", json::Value(std::move(o)));
    if(jsonOut.empty())
        std::cout << txt << "\n";
    else
        std::ofstream(jsonOut) << txt << "\n";
    rc = !error.empty() ? 3 : e.violations.empty() ? 0 : 1;
    std::cout.flush();
    std::cerr.flush();
    _exit(rc);
    return nullptr;
}

int main(int argc, char** argv)
{
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if(a == "--entry")
            opt.entry = nx();
        else if(a == "--unroll")
            opt.unroll = stoul(nx());
        else if(a == "--layers")
            opt.maxLayers = stoul(nx());
        else if(a == "--fair")
            opt.fairLayers = stoul(nx());
        else if(a == "--depth")
            opt.maxDepth = stoul(nx());
        else if(a == "--preemptions")
            opt.budget = stoi(nx());
        else if(a == "--quiet")
            opt.quiet.push_back(nx());
        else if(a == "--nop")
            opt.noFail.push_back(nx());
        else if(a == "--time")
            opt.timeLimit = stod(nx());
        else if(a == "--json")
            jsonOut = nx();
        else if(a == "--replay-out")
            replayOut = nx();
        else if(a == "--no-replay")
            doReplay = false;
        else if(a == "--stop-on-first")
            opt.stopOnFirst = true;
        else if(a == "--split")
            opt.split = true;
        else if(a == "--spurious")
            opt.spurious = true;
        else if(a == "-v")
            opt.verbose = true;
        else if(a == "--trace")
            opt.trace = true;
        else
            inputs.push_back(a);
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4ull << 30);
    pthread_t th;
    pthread_create(&th, &at, body, nullptr);
    pthread_join(th, nullptr);
    return rc;
}
