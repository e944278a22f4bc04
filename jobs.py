"""The jobs of each property: which harness entry is executed symbolically, with which bounds."""

COMMON_ASSUMPTIONS = [
    "clang's -O1 IR of the sources is what is decided (assertions enabled), sequentially consistent memory",
    "fmt, spdlog, hwloc and moodycamel::ConcurrentQueue are replaced by the small models in /verif/stubs",
    "operator new does not fail; library functions outside /repo behave as documented (models in engine/run.cpp, harness/rtlib.cpp)",
]


def many(src, entries, what="", **kw):
    return [dict(name=e, src=src, entry=e, what=what, **kw) for e in entries]


PROPS = {}

PROPS["C01"] = dict(
    level="model_checking",
    technique="symbolic execution of the real code (LLVM IR), SMT-decided assertions",
    note="IOAccess, AreaAccess, ArrayAccess, CombineAccess, FieldAccess: all modes, all 64-bit interval bounds; arrays "
         "up to 4 parts, fields up to 3 dimensions, compounds nested twice",
    bounds="array sizes 1..4, dimensions 1..3, nesting depth 2; interval bounds are unrestricted 64-bit values",
    outside="empty areas (begin >= end), user-defined policies",
    jobs=many("c01.cpp", ["c01_io", "c01_area", "c01_and1", "c01_and2", "c01_and3", "c01_and4", "c01_or1", "c01_or2",
                          "c01_or3", "c01_or4", "c01_field1", "c01_field2", "c01_field3", "c01_combine",
                          "c01_nested_and", "c01_nested_or"], "conflict relation against its definition"))
PROPS["C02"] = dict(
    level="model_checking",
    technique="symbolic execution of the real code (LLVM IR), SMT-decided assertions",
    note="as C01, three arbitrary accesses: exactness, partial order, and inheritance of conflicts",
    bounds="array sizes 2..3, dimensions 1..3; interval bounds are unrestricted 64-bit values",
    outside="empty areas, user-defined policies",
    jobs=many("c01.cpp", ["c02_io", "c02_area", "c02_and2", "c02_or2", "c02_field1", "c02_field2",
                          "c02_combine_or"], "containment relation against its definition")
    + many("c01.cpp", ["c02_and3", "c02_or3", "c02_field3"], "containment relation against its definition", weight=30))
PROPS["C03"] = dict(
    level="model_checking",
    technique="symbolic execution of the real code (LLVM IR), SMT-decided assertions",
    note="every synchronising access of every policy against an arbitrary non-empty access",
    bounds="array sizes 2..3, dimensions 1..3; interval bounds are unrestricted 64-bit values",
    outside="empty areas, user-defined policies",
    jobs=many("c01.cpp", ["c03_io", "c03_area", "c03_and2", "c03_and3", "c03_or2", "c03_or3", "c03_field1",
                          "c03_field2", "c03_field3", "c03_combine"], "synchronising accesses"))


def matrix(src, entries, defs, what="", **kw):
    """one job per (entry, define set); `defs` is a list of lists of defines"""
    out = []
    for d in defs:
        tag = "_".join(x.replace("=", "") for x in d)
        for e in entries:
            out.append(dict(name=e + ("." + tag if tag else ""), src=src, entry=e, defs=list(d), what=what, **kw))
    return out


SE = "symbolic execution of the real code (LLVM IR), SMT-decided assertions"
SC = "symbolic execution of the real code (LLVM IR) with symbolic schedules, SMT-decided assertions"
SPLIT = {"split": True}
CONC = {"split": True, "layers": 100000}

PROPS["C04"] = dict(
    level="model_checking", technique=SE,
    note="the value semantics of ResourceAccess/ResourceAccessPair and of ResourceUser: equality, copies, which users "
         "conflict, superset, over symbolic accesses, resources and scope levels",
    bounds="2 users with up to 2 accesses each over 2 resources; access modes and 64-bit area bounds symbolic",
    outside="more than two accesses per user",
    jobs=many("c04.cpp", ["c04_access", "c04_handles", "c04_user", "c04_user_kinds", "c04_scope", "c04_copy"],
              "resource users against their definition", opts=SPLIT))
PROPS["C05"] = dict(
    level="model_checking", technique=SE,
    note="FieldResource guards (read/write/at, one to three dimensions, containers): the accesses a guard declares cover "
         "exactly the elements it hands out",
    bounds="1 to 3 dimensions; positions, areas and extents unrestricted 64-bit values (except at(SIZE_MAX))",
    outside="more than 3 dimensions, position SIZE_MAX",
    jobs=many("c05.cpp", ["c05_read1", "c05_write1", "c05_read2", "c05_write2", "c05_at_read1", "c05_at_write1",
                          "c05_at_read2", "c05_at_write2", "c05_write3", "c05_at_read3", "c05_containers",
                          "c05_empty_read1", "c05_empty_write2"],
              "guards of fields and containers against their declared accesses", opts=SPLIT))
PROPS["C06"] = dict(
    level="model_checking", technique=SE,
    note="AtomicBitfield and WorkerPool::probe_worker_by_state: returned previous value, exact set, search finds a "
         "matching worker exactly if there is one which is not excluded",
    bounds="3, 64, 65 and 130 workers, all bit patterns and start positions; search predicates rejecting up to two bits",
    outside="concurrent changes of the bitfield during a search (each operation is one atomic instruction per word)",
    jobs=matrix("c06.cpp", ["c06_set", "c06_init", "c06_first_one", "c06_find", "c06_find_pool"],
                [["SZ=3"], ["SZ=64"], ["SZ=65"]], "bitfield operations and search")
    + matrix("c06.cpp", ["c06_set", "c06_init", "c06_first_one", "c06_find", "c06_find_pool"], [["SZ=130"]],
             "bitfield operations and search", weight=20)
    + matrix("c06.cpp", ["c06_find_filter"], [["SZ=3", "NREJ=2"], ["SZ=6", "NREJ=2"], ["SZ=16", "NREJ=1"]],
             "search with a predicate that rejects bits", weight=5)
    + matrix("c06.cpp", ["c06_find_filter"], [["SZ=64", "NREJ=1"]], "search with a predicate that rejects bits", weight=30)
    + matrix("c06.cpp", ["c06_find_subset"], [["SZ=6"]], "search with an arbitrary predicate", weight=15)
    + matrix("c06.cpp", ["c06_find_filter"], [["SZ=16", "NREJ=2"], ["SZ=65", "NREJ=1"]],
             "search with a predicate that rejects bits", weight=70, tier="thorough"))
PROPS["C07"] = dict(
    level="model_checking", technique=SE,
    note="ChunkedBumpAlloc: blocks aligned, inside their chunk, disjoint from every live block, contents kept, nothing "
         "leaked; every sequence of allocations and frees",
    bounds="up to 3 blocks of symbolic size; histories of up to 4 operations; chunks of one page, and chunk sizes around the "
           "largest request they can hold",
    outside="longer histories",
    jobs=matrix("c07.cpp", ["c07_blocks"], [["NB=2"], ["NB=2", "AR_CHUNK=65536"]], "blocks of symbolic sizes", opts=SPLIT)
    + matrix("c07.cpp", ["c07_blocks"], [["NB=3"]], "blocks of symbolic sizes", opts=SPLIT, weight=16)
    + matrix("c07.cpp", ["c07_bump"], [["NB=2"]], "one chunk anywhere in memory", opts=SPLIT, weight=12)
    + [dict(x, tier="thorough") for x in matrix("c07.cpp", ["c07_bump"], [["NB=3"]], "one chunk anywhere in memory", opts=SPLIT)]
    + matrix("c07.cpp", ["c07_limit"], [[]], "one request of any size, chunk sizes around a power of two", opts=SPLIT, weight=4)
    + matrix("c07.cpp", ["c07_history"], [["NH=3"], ["NH=4"]], "arbitrary histories", opts=SPLIT, weight=7))
PROPS["C08"] = dict(
    level="model_checking", technique=SC,
    note="two and three threads allocating and freeing blocks of one arena, all interleavings at the level of single "
         "memory accesses: live blocks stay disjoint and intact, no chunk is given back twice, too early or never",
    bounds="2 threads x 2 operations, 3 threads x 1 operation, arenas with 1, 2 or 3 live blocks in the newest or an older chunk; "
           "block sizes of three classes (at least one fits into a chunk), any of the blocks is freed",
    outside="more threads or operations; weak memory",
    jobs=matrix("c07.cpp", ["c07_return"], [["NH=4"]], "chunks are given back at once", opts=SPLIT)
    + matrix("c08.cpp", ["c08_alloc_alloc", "c08_alloc_free", "c08_alloc2_free", "c08_allocfree_allocfree",
                            "c08_allocfree_free"], [["N0=1"], ["N0=2"], ["N0=3"]], "threads on one arena", opts=CONC,
                weight=5)
    + matrix("c08.cpp", ["c08_alloc_alloc_free"], [["N0=1"], ["N0=2", "NSZ=1"]], "threads on one arena", opts=CONC, weight=20)
    + matrix("c08.cpp", ["c08_free_free_old", "c08_free_all_old"], [["N0=2"]], "threads on a chunk which is not the newest", opts=CONC)
    + matrix("c08.cpp", ["c08_free_free_alloc_old"], [["N0=2"]], "threads on a chunk which is not the newest", opts=CONC, weight=22)
    + matrix("c08.cpp", ["c08_free_free"], [["N0=2"], ["N0=3"]], "threads on one arena", opts=CONC, weight=5)
    + matrix("c08.cpp", ["c08_alloc_alloc_free", "c08_alloc_free_free"], [["N0=2"], ["N0=3"]], "threads on one arena", opts=CONC,
             weight=50, tier="thorough"))
PROPS["C09"] = dict(
    level="model_checking", technique=SE,
    note="ChunkedList against a plain list: every sequence of push, remove, erase and iteration, held iterators, copies",
    bounds="up to 8 operations, chunks of 2 and 3 slots (held iterators: 6 operations)",
    outside="longer histories, larger chunks",
    jobs=matrix("c09.cpp", ["c09_remove"], [["NOPS=8", "CS=2"], ["NOPS=8", "CS=3"]], "list against its model", opts=SPLIT)
    + matrix("c09.cpp", ["c09_erase"], [["NOPS=6"]], "list against its model", opts=SPLIT, weight=8)
    + matrix("c09.cpp", ["c09_hold"], [["NOPS=5"]], "list against its model", opts=SPLIT, weight=6)
    + matrix("c09.cpp", ["c09_copy"], [["NOPS=5"]], "list against its model", opts=SPLIT)
    + matrix("c09.cpp", ["c09_remove"], [["NOPS=10", "CS=3"]], "list against its model", opts=SPLIT, weight=70,
             tier="thorough")
    + matrix("c09.cpp", ["c09_hold"], [["NOPS=6"]], "list against its model", opts=SPLIT, weight=30, tier="thorough"))
_c10 = ["c10_push_push", "c10_push_iterate", "c10_push2_iterate"]
_c10r = ["c10_push_remove", "c10_pushrm_push", "c10_pushrm_iterate", "c10_remove_iterate", "c10_erase_iterate"]
PROPS["C10"] = dict(
    level="model_checking", technique=SC,
    note="two and three threads pushing to, removing from and iterating one ChunkedList, all interleavings at the level "
         "of single memory accesses",
    bounds="lists with 0 to 3 elements at the start, arbitrary values, any element removed (fixed ones in the 3-thread case with 3 elements), chunks of 2 slots (1 for unlinking), 2 threads with up to 2 "
           "operations or 3 threads with one each",
    outside="more threads or operations; weak memory",
    jobs=matrix("c10.cpp", _c10, [["N0=0"]], "threads on one list", opts=CONC)
    + matrix("c10.cpp", _c10 + _c10r, [["N0=1"], ["N0=2"], ["N0=3"]], "threads on one list", opts=CONC)
    + matrix("c10.cpp", ["c10_remove_remove"], [["N0=2"], ["N0=3"]], "threads on one list", opts=CONC)
    + matrix("c10.cpp", ["c10_push_remove_iterate"], [["N0=1"], ["N0=2"], ["N0=3"]], "threads on one list", opts=CONC, weight=9)
    + matrix("c10.cpp", ["c10_remove_remove_iterate"], [["N0=2"], ["N0=3"]], "threads on one list", opts=CONC, weight=4)
    + matrix("c10.cpp", ["c10_unlink"], [["N0=1"]], "unlinking a chunk", opts=CONC)
    + matrix("c10.cpp", ["c10_unlink_again"], [["N0=1", "CS=1"]], "unlinking a chunk", opts=CONC, weight=3)
    + matrix("c10.cpp", ["c10_remove_unlink"], [["N0=1", "CS=1"]], "unlinking a chunk", opts=CONC, weight=80, tier="thorough")
    + matrix("c10.cpp", ["c10_push_push_iterate"], [["N0=0"], ["N0=1"], ["N0=2"], ["N0=3"]], "threads on one list",
             opts=CONC, weight=100, tier="thorough"))
_c11 = ["c11_wait_notify", "c11_wait_notify_notify", "c11_rounds", "c11_consume1", "c11_consume2"]
PROPS["C11"] = dict(
    level="model_checking", technique=SC,
    note="CondVar::wait/notify and SpinLock: all interleavings at the level of single memory accesses and of the lock and "
         "sleep operations, with and without spurious wake-ups; every reached state can still be completed",
    bounds="1 waiter with up to 2 waits, up to 2 notifiers, spin timeout 0..5 (0..2 for two producers); spin lock with 3 "
           "threads or 2 threads entering twice",
    outside="several waiters on one CondVar (each belongs to one thread), weak memory",
    jobs=matrix("c11.cpp", _c11 + ["c11_before", "c11_spin2", "c11_spin3"], [["MAXT=5"]], "sleep and wake", opts=CONC)
    + [dict(j, name=j["name"] + ".spurious") for j in
       matrix("c11.cpp", _c11, [["MAXT=3"]], "sleep and wake with spurious wake-ups", opts=dict(CONC, spurious=True))])

OUT_TASKS = "more tasks, workers or resources; weak memory; user-defined policies"
_c13 = lambda d: (
    matrix("c13.cpp", ["c13_steps"], [["NT=2", "NR=2"] + d], "every order of initialisations and executions", opts=SPLIT)
    + matrix("c13.cpp", ["c13_steps"], [["NT=3", "NR=1"] + d, ["NT=3", "NR=2", "USES=0x3f"] + d],
             "every order of initialisations and executions", opts=SPLIT, weight=12)
    + matrix("c13.cpp", ["c13_steps"], [["NT=3", "NR=1", "FIELD", "USES=7", "AREAS=" + a] + d for a in ("0x210", "0x103", "0x031")],
             "modes and areas, every order of initialisations and executions", opts=SPLIT)
    + matrix("c13.cpp", ["c13_order"], [["NT=2", "NR=1", "FIELD", "USES=3"] + d]
             + [["NT=4", "NR=1", "FIELD", "USES=15", "MODE_BITS=1", "AREAS=" + a] + d for a in ("0x2103", "0x0312")],
             "modes and areas, all tasks initialised, then executed in any order", opts=SPLIT, weight=8)
    + matrix("c13.cpp", ["c13_order"], [["NT=4", "NR=1", "FIELD", "USES=15", "AREAS=" + a] + d for a in ("0x2103", "0x0312", "0x1032")],
             "modes and areas, all tasks initialised, then executed in any order", opts=SPLIT, weight=60, tier="thorough")
    + matrix("c13.cpp", ["c13_nested"], [["NT=2", "NR=2"] + d, ["NT=3", "NR=1"] + d],
             "sub-tasks, every order of initialisations and executions", opts=SPLIT, weight=12)
    + matrix("c13.cpp", ["c13_steps"], [["NT=3", "NR=2", "USES=0x2d"] + d, ["NT=3", "NR=2", "USES=0x2e"] + d],
             "every order of initialisations and executions", opts=SPLIT)
    + matrix("c13.cpp", ["c13_order"], [["NT=3", "NR=2", "USES=0x3f"] + d, ["NT=4", "NR=1", "USES=7"] + d],
             "all tasks initialised, then executed in any order", opts=SPLIT, weight=4)
    + matrix("c13.cpp", ["c13_order"], [["NT=4", "NR=1", "USES=15"] + d, ["NT=4", "NR=2", "USES=0xad"] + d],
             "all tasks initialised, then executed in any order", opts=SPLIT, weight=60, tier="thorough"))
_c12c = lambda d: (
    matrix("c12.cpp", ["c12_tasks"], [["NT=2"] + d, ["NT=2", "TWICE=1"] + d, ["NT=2", "NR=2"] + d],
           "tasks on two workers, every order of scheduler steps", opts=CONC)
    + matrix("c12.cpp", ["c12_tasks"], [["NT=3"] + d, ["NT=3", "NR=2", "USES=0x2d"] + d, ["NT=3", "NR=2", "USES=0x1e"] + d,
               ["NT=3", "NR=2", "USES=0x2e"] + d],
             "tasks on two workers, every order of scheduler steps", opts=CONC, weight=20))
_c16 = (matrix("c16.cpp", ["c16_tasks"], [["NC=1"]], "sub-tasks", opts=CONC)
        + matrix("c16.cpp", ["c16_tasks"], [["NC=2"], ["NC=1", "NG=1"]], "sub-tasks", opts=CONC, weight=15))
_c12f = lambda d: (
    matrix("c12f.cpp", ["c12f_init", "c12f_gather", "c12f_submit", "c12f_submit_exec"], [d], "a task is submitted or finishes while the next is taken up, memory accesses interleaved",
           opts=CONC, weight=8)
    + matrix("c12f.cpp", ["c12f_both", "c12f_init12"], [["NT=3"] + d],
             "tasks finish while others are taken up, memory accesses interleaved", opts=CONC, weight=7))
_c14f = matrix("c14f.cpp", ["c14f_steal_activate", "c14f_steal_each_other", "c14f_new", "c14f_steal_follower"],
               [["RT_PLAIN_ARENA"]], "taking, stealing and activating at the same time, memory accesses interleaved", opts=CONC, weight=3)
_c20c = lambda d, *cfgs, **kw: matrix("c20c.cpp", ["c20c_program"], [["RT_PLAIN_ARENA"] + list(c) + d for c in cfgs],
                                     "whole programs: the real worker loops run until they sleep, submit, start or end a task",
                                     opts=CONC, **kw)
_flat = lambda d: (
    _c20c(d, ["NT=3"], ["NT=3", "BARRIER"], ["NT=3", "NR=2", "USES=0x2d"], ["NT=3", "NR=2", "USES=0x2e"], weight=9)
    + _c20c(d, ["NT=6", "NW=1"], ["NT=6", "NW=1", "USES=7"], ["NT=4", "NW=1", "NR=2"], ["NT=5", "NW=1", "NR=2", "USES=0x2ed"])
    + _c20c(d, ["NT=4", "USES=15"], ["NT=4", "NR=2", "USES=0x2d"], ["NT=3", "NW=3"], weight=75, tier="thorough"))
_nested = lambda d: _c20c(d, ["NT=3", "PARENT=0xfffff00f"], ["NT=4", "PARENT=0xffff100f"], ["NT=4", "PARENT=0xfffff00f", "USES=9", "BARRIER"],
                            weight=9) + _c20c(d, ["NT=4", "NW=1", "PARENT=0xffff1f0f", "USES=0"],
                                              ["NT=5", "PARENT=0xffff210f", "USES=1"], weight=18)
_waits = lambda d: (_c20c(d, ["NT=3", "WAITS=0xffffff2f", "USES=3"], weight=8)
                    + _c20c(d, ["NT=2", "WAITS=0xfffffff1", "USES=0"], ["NT=3", "NW=1", "WAITS=0xfffffff2", "USES=3"],
                            ["NT=4", "NW=1", "WAITS=0xfffffff3", "USES=7"],
                            ["NT=4", "NW=1", "PARENT=0xffff000f", "WAITS=0xfffffff1", "USES=0"],
                            ["NT=4", "NW=2", "PARENT=0xffff000f", "WAITS=0xfffffff1", "USES=0"],
                            ["NT=4", "NW=1", "PARENT=0xfffff00f", "WAITS=0xffffff2f", "USES=9"], weight=2)
                    + _c20c(d, ["NT=3", "WAITS=0xfffffff2", "USES=3"], weight=9)
                    + _c20c(d, ["NT=4", "WAITS=0xfffffff3", "USES=6"], weight=26)
                    + _c20c(d, ["NT=4", "WAITS=0xffffff33", "USES=0"], ["NT=4", "WAITS=0xffffff23", "USES=3"],
                            ["NT=4", "PARENT=0xfffff00f", "WAITS=0xfffffff1", "USES=9"], weight=40, tier="thorough"))
PROPS["C12"] = dict(
    level="model_checking", technique=SC,
    note="real init/emplace/submit/init_graph/notify/execute code: for all access modes, no task becomes ready or starts "
         "before every earlier conflicting one has finished; one step at a time, with two workers at the level of "
         "scheduler steps, and with tasks finishing while others are initialised at the level of single memory accesses",
    bounds="2 to 6 tasks, 1 or 2 resources (IOAccess, symbolic modes), 1 or 2 (thorough: 3) workers; single accesses "
           "interleaved for 2 threads with 2 and 3 tasks; whole programs with real worker loops interleaved at submissions, "
           "starts and ends of tasks and sleeps",
    outside=OUT_TASKS, jobs=_c13(["ORDER"]) + _c12c(["ORDER"]) + _c12f(["ORDER"]) + _c16[:2] + _flat([]))
PROPS["C13"] = dict(
    level="model_checking", technique=SC,
    note="for all access modes: after every step each initialised task without an unfinished earlier conflicting task is "
         "ready; the same when tasks finish while others are initialised, single memory accesses interleaved",
    bounds="2 to 4 tasks, 1 or 2 resources (IOAccess, symbolic modes), 1 worker; 2 threads with 2 tasks for the "
           "interleavings of single accesses",
    outside=OUT_TASKS,
    jobs=_c13(["UNORDER"]) + matrix("c12f.cpp", ["c12f_init"], [["UNORDER"]],
                                    "a task finishes while the next is initialised", opts=CONC, weight=8))
PROPS["C14"] = dict(
    level="model_checking", technique=SC,
    note="every submitted task is executed exactly once and the program completes, for all access modes and also when a "
         "task declares several accesses to one resource",
    bounds="2 to 6 tasks, 1 or 2 resources, 1 or 2 (thorough: 3) workers, 1 or 2 sub-tasks, tasks waiting for each other's "
           "events; every reached state can still complete",
    outside=OUT_TASKS, jobs=_c13(["ONCE"]) + _c12c(["ONCE"]) + _c12f(["ONCE"]) + _c16[:2] + _c14f + _flat([]) + _waits([]))
PROPS["C16"] = dict(
    level="model_checking", technique=SC,
    note="a task creating sub-tasks (and those creating sub-tasks): its successor starts and barrier() returns only after "
         "all of them; sub-tasks ordered by their accesses; every order of scheduler steps of two workers",
    bounds="1 parent, 1 or 2 sub-tasks, 1 or 2 sub-sub-tasks, 1 successor; 1 or 2 workers; access modes symbolic; "
           "single memory accesses interleaved for a parent, 1 or 2 sub-tasks executed by another worker, and a successor",
    outside=OUT_TASKS,
    jobs=_c16 + _nested([])
    + matrix("c16f.cpp", ["c16f_child"], [["RT_PLAIN_ARENA"], ["RT_PLAIN_ARENA", "CHILD_USES"], ["RT_PLAIN_ARENA", "NC=2"]],
             "sub-tasks are executed while the parent runs, memory accesses interleaved", opts=CONC, weight=5)
    + matrix("c16f.cpp", ["c16f_successor"], [["RT_PLAIN_ARENA"], ["RT_PLAIN_ARENA", "CHILD_USES"]],
             "sub-tasks are executed while the parent runs, memory accesses interleaved", opts=CONC, weight=30))
PROPS["C26"] = dict(
    level="model_checking", technique=SE,
    note="accesses of a task collected from its arguments (any of the argument kinds), add_resource(s) calls and repeated "
         "uses; users of resources before, during and after the task",
    bounds="0 to 3 arguments, up to 3 (one job: 10) accesses, 2 resources; modes symbolic",
    outside="more accesses; concurrent creation of tasks",
    jobs=matrix("c26.cpp", ["c26_args0", "c26_args1", "c26_args2", "c26_args3", "c26_add", "c26_list", "c26_mixed",
                            "c26_guards", "c26_named", "c26_field"], [["ND=3"]], "accesses of a task", opts=SPLIT)
    + matrix("c26.cpp", ["c26_many"], [["ND=10"]], "accesses of a task", opts=SPLIT))

PLAIN = "RT_PLAIN_ARENA"  # arenas replaced by their specification (C07, C08): exact use-after-free detection
REAL = [PLAIN, "REDGRAPES_CONDVAR_TIMEOUT=0"]
_loop = "the real worker loops and the main thread, memory accesses interleaved"
_c15 = lambda d: (
    matrix("c15.cpp", ["c15_barrier", "c15_finalize", "c15_delayed"], [REAL + ["NT=2"] + d], _loop, opts=CONC)
    + matrix("c15.cpp", ["c15_submit", "c15_child", "c15_event", "c15_future"], [REAL + ["NT=2"] + d], _loop, opts=CONC,
             weight=20)
    + matrix("c15.cpp", ["c15_conflict"], [REAL + ["MAXT=0"] + d], _loop, opts=CONC, weight=60)
    + matrix("c15.cpp", ["c15_finalize"], [REAL + ["NT=1", "NW=2", "MAXT=0"] + d], _loop, opts=CONC, weight=50)
    + matrix("c15.cpp", ["c15_conflict", "c15_submit"], [REAL + ["NT=3"] + d], _loop, opts=dict(CONC, time=800), weight=95,
             tier="thorough")
    + matrix("c15.cpp", ["c15_barrier", "c15_submit"], [REAL + ["NT=1", "NW=2", "MAXT=0"] + d], _loop,
             opts=dict(CONC, time=800), weight=90, tier="thorough"))
PROPS["C15"] = dict(
    level="model_checking", technique=SC,
    note="real init/work_loop/barrier/finalize of workers and main thread with real sleeping and waking, all interleavings "
         "of single memory accesses: nothing is left when barrier() or finalize() return, they return, workers have stopped",
    bounds="1 worker with 1 or 2 tasks (independent, conflicting, with a sub-task, waiting for an event, with an unreached "
           "event, with a result), 2 workers with 1 task; workers fall asleep after 1 or 2 attempts; 3 to 6 tasks, sub-tasks and "
           "2 (thorough: 3) workers with threads interleaved at submissions, starts and ends of tasks and sleeps",
    outside="more workers and tasks; several threads waiting in barrier(); weak memory",
    jobs=_c15([]) + _flat([]) + _nested([]))
_c18 = ["c18_any", "c18_order", "c18_void", "c18_get_in_task", "c18_get_in_stackless_task", "c18_child"]
PROPS["C18"] = dict(
    level="model_checking", technique=SC,
    note="task executed by a worker while the main thread (or another task) gets, polls or drops its future, all "
         "interleavings of single memory accesses; symbolic value; task and function object destroyed exactly once, no "
         "access to a destroyed task",
    bounds="1 task with 1 future, 2 threads; get() from the main thread, from a task with and without its own stack, and "
           "from the parent task",
    outside="several threads using one future; get() called twice; weak memory",
    jobs=matrix("c18.cpp", _c18, [[PLAIN]], "a future and its task", opts=CONC)
    + matrix("c18.cpp", ["c18_any"], [[PLAIN, "CHILD"]], "a future and its task, which has a sub-task", opts=CONC))
_c19 = ["c19_yield", "c19_yield_resume", "c19_yield_task", "c19_yield_twice", "c19_main", "c19_event", "c19_stackless",
        "c19_outside"]
PROPS["C19"] = dict(
    level="model_checking", technique=SC,
    note="tasks which wait for an event (real context switches, modelled by the executor) and tasks which created an event, "
         "with the event reached by another thread or task at any moment; all interleavings of single memory accesses",
    bounds="1 or 2 waiting tasks or the main thread, 1 or 2 events, 2 or 3 threads; whole programs of 2 to 4 tasks which "
           "wait for each other, with conflicts and sub-tasks, interleaved at starts and ends of tasks and sleeps",
    outside="more events or waiters; weak memory; boost.context is replaced by the executor's own context switch",
    jobs=matrix("c19.cpp", _c19, [[PLAIN]], "waiting for events", opts=CONC, weight=2)
    + matrix("c19.cpp", ["c19_main_task", "c19_two"], [[PLAIN]], "waiting for events", opts=CONC, weight=15)
    + _waits([]))
PROPS["C20"] = dict(
    level="model_checking", technique=SC,
    note="real worker loops going to sleep while tasks are submitted, activated by other tasks or by the main thread, and "
         "stolen; all interleavings of single memory accesses: every task is executed exactly once, nobody sleeps forever",
    bounds="1 worker with 1 or 2 tasks, 2 workers with 1 task; spin timeout 0 or 1 (C11: other timeouts); 2 to 6 tasks with "
           "conflicts, sub-tasks and events on 1 or 2 (thorough: 3) workers, interleaved at submissions, starts and ends of tasks and sleeps",
    outside="more workers and tasks; weak memory",
    jobs=_c15(["C20"]) + _flat([]) + _nested([]) + _waits([]))
PROPS["C24"] = dict(
    level="model_checking", technique=SC,
    note="init with 1 to 4 workers on 1 to 4 processing units, tasks, sub-tasks, resources and results; every block is given "
         "back to the arena it came from; workers started and stopped for real",
    bounds="1..4 workers, 1..4 processing units, 5 tasks; 1 or 2 real worker threads",
    outside="more workers; failing system calls",
    jobs=matrix("c24.cpp", ["c24_workers", "c24_every_worker"], [[PLAIN]], "numbers of workers", opts=SPLIT)
    + matrix("c24.cpp", ["c24_stop"], [REAL], "start and stop", opts=CONC))
PROPS["C17"] = dict(
    level="model_checking", technique=SC,
    note="a running task removes or reduces its accesses at any point relative to the initialisation of later tasks; after "
         "every step exactly the tasks without an unfinished conflicting predecessor are ready; extensions are refused and "
         "change nothing; also with later tasks initialised concurrently, single memory accesses interleaved",
    bounds="1 reducing task, 1 or 2 later tasks, 1 or 2 resources (IOAccess, symbolic modes and patches); a sub-task which "
           "reduces its accesses",
    outside="more tasks and resources; a task which reduces its accesses below those of its running sub-tasks; weak memory",
    jobs=matrix("c17.cpp", ["c17_steps"], [[PLAIN, "NF=2", "NR=1"], [PLAIN, "NF=1", "NR=2"], [PLAIN, "NF=2", "NR=1", "EXTEND"],
                                           [PLAIN, "NF=1", "NR=2", "EXTEND"], [PLAIN, "NF=2", "NR=2", "USES=0x27"],
                                           [PLAIN, "NF=2", "NR=2", "USES=0x37", "FIX"]],
                "reducing accesses, step by step", opts=SPLIT, weight=5)
    + matrix("c17.cpp", ["c17_child"], [[PLAIN, "NF=1", "NR=1"]], "a sub-task reduces its accesses", opts=SPLIT)
    + matrix("c17.cpp", ["c17_init"], [[PLAIN, "NF=1", "NR=1"]], "later tasks initialised concurrently", opts=CONC, weight=30)
    + matrix("c17.cpp", ["c17_waiting"], [[PLAIN, "NF=1", "NR=2"], [PLAIN, "NF=2", "NR=1", "FIX"]],
             "waiting tasks are released and executed concurrently", opts=CONC, weight=40)
    + matrix("c17.cpp", ["c17_work"], [[PLAIN, "NF=2", "NR=1", "FIX"]], "later tasks initialised and executed concurrently",
             opts=dict(CONC, time=800), weight=90, tier="thorough"))

PROPS["C21"] = dict(
    level="model_checking", technique=SC,
    note="the tag matching scheduler with recording sub-schedulers: dispatch of submitted and of ready tasks, kind of dependency "
         "end to end (with tasks which wait and continue), stealing, waking",
    bounds="0..3 sub-schedulers with arbitrary 64-bit sets of tags, tasks with arbitrary sets; 2 dependent tasks",
    outside="more sub-schedulers; tasks which are submitted by the destructor of their builder although no scheduler supports them",
    jobs=matrix("c21.cpp", ["c21_dispatch", "c21_dependency", "c21_unsupported_dependency", "c21_steal_wake", "c21_lists",
                            "c21_waiting"], [[PLAIN]], "tag matching", opts=SPLIT))
_c22 = ["c22_polls", "c22_successive", "c22_concurrent", "c22_concurrent1", "c22_two_polls"]
PROPS["C22"] = dict(
    level="model_checking", technique=SC,
    note="the request pool with an MPI_Testsome which reports any subset of the pending requests in any order with arbitrary "
         "statuses; also polls concurrent with new requests and with each other (single memory accesses interleaved)",
    bounds="up to 4 pending requests, 3 polls, later requests of resumed tasks; 2 threads",
    outside="the MPI library itself (stubs/mpi.h); null requests; more requests",
    jobs=matrix("c22.cpp", _c22, [[PLAIN, "NR=4"]], "MPI requests", opts=CONC, weight=3))
PROPS["C23"] = dict(
    level="model_checking", technique=SC,
    note="tasks and resources created concurrently by 2 or 3 threads, all interleavings of single memory accesses; sub-tasks, "
         "after any number of earlier tasks",
    bounds="4 tasks, 5 resources, 3 threads",
    outside="wrap-around of the 32-bit counters; weak memory",
    jobs=matrix("c23.cpp", ["c23_tasks", "c23_resources", "c23_resources3", "c23_first", "c23_sequential"], [[PLAIN]],
                "identities", opts=CONC))
PROPS["C25"] = dict(
    level="model_checking", technique=SC,
    note="every nesting of tasks with and without own stack, which wait for an event or not before or after they create "
         "sub-tasks; a waiting task continues on another thread (single memory accesses interleaved)",
    bounds="depth 3 with 1 task per level, depth 2 with 2 tasks; thorough: depth 3 with 2 tasks outside",
    outside="deeper nesting, more tasks",
    jobs=matrix("c25.cpp", ["c25_nesting"], [[PLAIN, "WIDTH=1"], [PLAIN, "MAXD=2"]], "nesting", opts=CONC)
    + matrix("c25.cpp", ["c25_migrate"], [[PLAIN]], "waiting tasks", opts=CONC)
    + [dict(x, tier="thorough") for x in matrix("c25.cpp", ["c25_nesting"], [[PLAIN]], "nesting", opts=CONC)])
