import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":hook}})
A="redGrapes/resource/access/"
p("C01","Two accesses are ordered exactly when they can interfere",
 "Two accesses to the same resource are reported as conflicting if and only if they can really interfere: their modes are not both read, both atomic-add or both atomic-multiply, and their (non-empty, half-open) areas overlap in every dimension. The answer does not depend on the order in which the two accesses are given. Compound accesses built with 'and' conflict iff all their parts conflict, those built with 'or' iff at least one part conflicts.",
 ["inputs"],"every pair of access descriptors: all modes, all 64-bit area bounds, 1-3 dimensions, and/or compositions",
 "test/access.cpp compares a handful of literal areas and modes; off-by-one or dimension-mixing mistakes at other bounds are not reached.",
 [A+"io.hpp",A+"area.hpp",A+"combine.hpp",A+"field.hpp"],
 [("IOAccess::is_serial",A+"io.hpp"),("AreaAccess::is_serial",A+"area.hpp"),("ArrayAccess/CombineAccess::is_serial",A+"combine.hpp")],["return value of is_serial"])
p("C02","Containment of accesses is exact and never hides a conflict",
 "Access containment is a partial order, and holds exactly when the larger access permits everything the smaller one does (write contains every mode, any other mode only itself; an area contains exactly its sub-areas). Whatever conflicts with a contained access also conflicts with the access containing it.",
 ["inputs"],"every triple of access descriptors of every access type",
 "Tests check containment of a few literal pairs only; transitivity and the link between containment and conflicts are never tested.",
 [A+"io.hpp",A+"area.hpp",A+"combine.hpp"],[("is_superset_of",A+"combine.hpp"),("operator==",A+"area.hpp")],["return value of is_superset_of"])
p("C03","A synchronising access conflicts with every other access",
 "An access that is reported as synchronising conflicts with every (non-empty) access to the same resource. Hence a task that conflicts with some earlier task behind a synchronising access is also ordered behind it through that access, so cutting the predecessor search there loses no ordering.",
 ["inputs"],"every access descriptor, against every other one",
 "No test looks at the synchronising property at all.",
 [A+"io.hpp",A+"area.hpp",A+"combine.hpp","redGrapes/task/property/graph.cpp"],[("is_synchronizing",A+"combine.hpp"),("predecessor search cut-off","redGrapes/task/property/graph.cpp GraphProperty::init_graph")],["return values of is_synchronizing and is_serial"])
p("C04","Conflicts between resource users follow from their accesses",
 "Accesses of different resources or of different kinds never conflict and never contain each other; copies of a resource handle denote the same resource. Two users conflict iff at least one pair of their accesses does, and one user covers another iff each of the other's accesses is covered by one of its own or belongs to a resource created in a deeper scope. Copying a user preserves its accesses.",
 ["inputs","histories"],"users with up to 3 accesses over up to 2 resources, every mode assignment, after any additions and removals",
 "test/resource_user.cpp and test/resource.cpp use two fixed users; combinations, removals and copies are not covered.",
 ["redGrapes/resource/resource.hpp","redGrapes/resource/resource_user.cpp"],[("ResourceAccess::is_serial/is_superset_of","redGrapes/resource/resource.hpp"),("ResourceUser::is_serial/is_superset_of/copy","redGrapes/resource/resource_user.cpp")],["return values of is_serial, is_superset, has_sync_access"])
p("C05","Field guards admit exactly the elements of their area",
 "A guard for an area of a container grants access to exactly the indices inside that area and throws out_of_range for every other index. Sub-areas can be derived exactly when they lie inside the guard's area, are rejected with out_of_range otherwise, and the access reported to the scheduler is precisely the area and mode the guard permits.",
 ["inputs"],"every index, every sub-area bound (all 64-bit values) in one and two dimensions, any depth-2 chain of derived guards",
 "FieldAccess tests exercise only the access policy; the guards' bound checks are not tested at all.",
 ["redGrapes/resource/fieldresource.hpp","redGrapes/resource/access/area.hpp"],[("AreaGuard::contains/get/make_area","redGrapes/resource/fieldresource.hpp")],["guard operator[], area(), at(), conversion to ResourceAccess"])
p("C06","Worker state bitmap: set, get and search are exact",
 "Setting a worker's state changes only that worker's bit and reports the previous value. Searching for a worker in a given state calls the candidate filter only for existing workers in that state, excluding the start position iff requested, and finds a worker whenever a candidate that passes the filter exists.",
 ["inputs","configurations"],"bitmaps of every size 1..130, arbitrary contents, indices, start positions and filters",
 "The bitmap has no unit test; runs on a small machine use only a few low bits.",
 ["redGrapes/util/bitfield.hpp","redGrapes/dispatch/thread/worker_pool.hpp","redGrapes/dispatch/thread/worker_pool.cpp"],[("AtomicBitfield","redGrapes/util/bitfield.hpp"),("probe_worker_by_state/find_free_worker","redGrapes/dispatch/thread/worker_pool.cpp")],["return values of set/get/probe_by_value/find_free_worker"])
p("C07","Allocated blocks are disjoint, large enough and inside their chunk",
 "Every block handed out by an arena is at least as large as requested, lies completely inside memory the arena owns, is suitably aligned for objects of the requested size, and overlaps no other live block. A request that the arena can never satisfy is refused rather than looping forever or returning a smaller block.",
 ["inputs","histories"],"every sequence of up to 3 requests with arbitrary 64-bit sizes, on arbitrary chunk sizes up to the stated bound",
 "No test addresses the allocator; the whole-program tests request a few fixed sizes.",
 ["redGrapes/memory/bump_allocator.cpp","redGrapes/memory/chunked_bump_alloc.hpp","redGrapes/util/atomic_list.hpp"],[("BumpAllocator::allocate","redGrapes/memory/bump_allocator.cpp"),("ChunkedBumpAlloc::allocate, roundup_to_poweroftwo","redGrapes/memory/chunked_bump_alloc.hpp")],["blocks returned by allocate"])
p("C08","Arena memory is returned exactly when no live block uses it",
 "Under any interleaving of allocations and deallocations from several threads, a chunk of an arena is never given back while a block inside it is still live, concurrently allocated blocks never overlap, and no chunk is given back twice. A block stays readable and writable until it is deallocated.",
 ["schedules","histories"],"all interleavings of two threads performing allocations and deallocations around the point where a chunk becomes full and empty",
 "Tests never drive two threads to the moment a chunk becomes full while its last block is freed; the window is a few instructions.",
 ["redGrapes/memory/bump_allocator.cpp","redGrapes/memory/chunked_bump_alloc.hpp","redGrapes/util/atomic_list.hpp"],[("allocation count","redGrapes/memory/bump_allocator.cpp"),("chunk erase","redGrapes/memory/chunked_bump_alloc.hpp deallocate")],["memory given back to the system while blocks are live"])
p("C09","The chunked list behaves like a list, whatever the history",
 "After any sequence of insertions and removals, backward iteration of the list, from its end or from any live element, visits exactly the elements not removed, each once, newest first. Inserting returns a position denoting the new element, erasing by value removes every equal element, and elements are destroyed exactly once.",
 ["histories","inputs"],"all sequences of up to 6 operations (push, remove any live element, erase by value), crossing chunk borders",
 "test/chunked_list.cpp performs a few fixed sequences with chunk size 32; it never removes neighbours in arbitrary order or at chunk borders.",
 ["redGrapes/util/chunked_list.hpp","redGrapes/util/atomic_list.hpp"],[("push/remove/erase/iterators","redGrapes/util/chunked_list.hpp"),("chunk list","redGrapes/util/atomic_list.hpp")],["sequence visited by rbegin()..rend()"])
p("C10","The chunked list is safe under concurrent push, remove and iteration",
 "When several threads push, remove and iterate concurrently, every completed push is visible to later iterations until removed, no element is lost, duplicated or visited after an iteration started after its removal completed, and an element is destroyed exactly once and never while an iterator refers to it.",
 ["schedules"],"all interleavings of push/push, push/remove, push/iterate, remove/iterate at item, chunk-border and empty-list positions, sequentially consistent memory",
 "The multi-threaded test inserts from a few threads and counts afterwards; the orders in which two operations meet at the same slot are left to chance.",
 ["redGrapes/util/chunked_list.hpp","redGrapes/util/atomic_list.hpp"],[("item reference count and iter_offset","redGrapes/util/chunked_list.hpp Item"),("atomic chunk list","redGrapes/util/atomic_list.hpp")],["elements seen by iteration, destructor calls"])
p("C11","Sleep/wake never loses a wake-up; the spin lock excludes",
 "A notification given before or during a wait lets that wait return, whatever the interleaving and whether the waiter is still spinning or already asleep; a waiter returns only after a notification. At most one thread is inside a region guarded by the spin lock, and a waiting thread gets in once it is released.",
 ["schedules"],"all interleavings of one waiter per condition variable and one or two notifiers, any spin timeout, with spurious wake-ups",
 "test/cv.cpp sleeps for fixed times so that the notification always arrives while the waiter is asleep; the windows in between are not reached.",
 ["redGrapes/sync/cv.cpp","redGrapes/sync/cv.hpp","redGrapes/sync/spinlock.hpp"],[("CondVar::wait/notify","redGrapes/sync/cv.cpp"),("SpinLock","redGrapes/sync/spinlock.hpp")],["return of wait, return value of notify"])
R="redGrapes/"
p("C12","Conflicting tasks run in creation order and never overlap",
 "If two tasks created in the same scope have conflicting accesses, the one created first has completely finished (its body, its sub-tasks and its events) before the other one starts, on every schedule.",
 ["programs","schedules"],"programs of up to 4 sibling tasks over 2 resources with every assignment of access modes, and every order in which workers take, initialise and execute them",
 "RandomGraph checks one random program with write accesses on whatever schedule the machine produces; a missing edge shows only if the second task overtakes.",
 [R+"task/property/graph.cpp",R+"task/task_space.cpp",R+"scheduler/event.cpp",R+"resource/resource_user.cpp"],[("predecessor search","redGrapes/task/property/graph.cpp init_graph"),("edges between events","redGrapes/scheduler/event.cpp"),("registration of users in creation order","redGrapes/task/task_space.cpp submit")],["start and end of task bodies"])
p("C13","Tasks without conflicts are not ordered",
 "A task none of whose accesses conflicts with an unfinished earlier task of its scope is ready to run as soon as it has been taken up by the scheduler; it never waits for tasks it does not conflict with, directly or through others.",
 ["programs","schedules"],"programs of up to 4 sibling tasks over 2 resources with every assignment of access modes, and every subset of finished tasks",
 "Tests only check results; an execution that serialises everything passes all of them.",
 [R+"task/property/graph.cpp",R+"resource/resource_user.cpp"],[("predecessor search","redGrapes/task/property/graph.cpp init_graph"),("is_serial","redGrapes/resource/resource_user.cpp")],["readiness of a task after initialisation"])
p("C14","Every submitted task is executed exactly once",
 "Each submitted task is executed exactly once: none is lost, none is executed twice, and a program of tasks that do not wait for each other in a cycle always runs to completion whatever the workers' schedule and whatever the accesses of the tasks (including several accesses of one task to the same resource).",
 ["programs","schedules"],"programs of up to 4 tasks with every assignment of accesses, and all orders of worker steps",
 "Tests with fixed programs rely on the schedules the machine happens to produce; a task lost in a window of a few instructions appears as a rare hang.",
 [R+"scheduler/default_scheduler.cpp",R+"dispatch/thread/worker.cpp",R+"dispatch/thread/execute.cpp",R+"scheduler/event.cpp",R+"task/property/graph.cpp"],[("claiming of ready tasks","redGrapes/scheduler/event.cpp notify"),("init_dependencies","redGrapes/dispatch/thread/worker.cpp"),("steal_task","redGrapes/scheduler/default_scheduler.cpp")],["number of executions of each task body"])
p("C15","barrier() and finalize() return only after all tasks completed",
 "When barrier() (or finalize()) returns, every task submitted before has completely finished, including its sub-tasks and events, and its function object has been destroyed; and it does return once that is the case (a task whose future is still held has to be taken or dropped first). After finalize() the workers have stopped.",
 ["schedules","programs"],"all interleavings of the waiting thread with the last completions",
 "Tests call barrier with all the work already short; a return that is one instruction early, or a lost wake-up, needs a particular interleaving.",
 [R+"redGrapes.cpp",R+"task/task_space.cpp",R+"scheduler/default_scheduler.cpp",R+"sync/cv.cpp"],[("task count","redGrapes/task/task_space.cpp free_task"),("Context::barrier","redGrapes/redGrapes.cpp")],["return of barrier()"])
p("C16","Sub-tasks belong to their parent and finish before it",
 "A task counts as finished (its followers may start, barrier may return) only after all tasks it created, recursively, have finished, even if its own body returned long before. Sub-tasks are ordered among themselves by their accesses.",
 ["programs","schedules"],"parents with up to 2 children and a conflicting successor, any accesses, all orders of worker steps",
 "Refinement examples have no assertions and are not tests; whether the parent waits depends on how early the children are taken up.",
 [R+"task/property/graph.cpp",R+"task/task_space.cpp",R+"redGrapes.cpp"],[("edge child post-event -> parent post-event","redGrapes/task/property/graph.cpp"),("child task space","redGrapes/redGrapes.cpp current_task_space"),("nested task spaces","redGrapes/task/task_space.cpp submit")],["start of successors relative to the end of children"])
p("C17","Reducing a task's accesses releases exactly the tasks it unblocks",
 "A running task may reduce its accesses: from then on precisely those later tasks which no longer conflict with it stop waiting for it, each released once, while all others keep waiting until it finishes. Extending the accesses beyond the original ones is refused with an exception and changes nothing. (A task does not give up accesses which its unfinished sub-tasks still use.)",
 ["programs","schedules"],"up to 3 followers with arbitrary access modes; arbitrary patches; all positions of the patch relative to the followers' initialisation",
 "The only program using it (example 5) is not part of the tests.",
 [R+"task/property/graph.cpp",R+"task/property/resource.hpp",R+"resource/resource_user.cpp",R+"redGrapes.cpp"],[("update_graph","redGrapes/task/property/graph.cpp"),("apply_patch","redGrapes/task/property/resource.hpp")],["readiness of followers after update_properties"])
p("C18","A future delivers its task's result, and the task lives long enough",
 "get() on a future returns exactly the value the task's function returned, after the task produced it; is_ready() is true only when the value is available. The task object stays alive until it has finished and its result was taken or the future dropped, and it is then destroyed exactly once, in whichever order these happen.",
 ["schedules","inputs"],"arbitrary result values; all interleavings of completion with get(), drop and move of the future",
 "Tests obtain one or two values with the task finishing long before or after; the racing orders of completion and dropping are not controlled.",
 [R+"task/future.hpp",R+"task/task.hpp",R+"scheduler/event.cpp",R+"task/task_space.cpp"],[("removal_countdown","redGrapes/scheduler/event.cpp notify"),("result events","redGrapes/task/task.hpp ResultTask::run")],["value returned by get(), destruction of the task's function object"])
p("C19","External events delay completion; waiting tasks resume exactly once",
 "A task on which an event was created does not count as finished before that event has been reached, whether it is reached before or after the task's body returns. A task that yields for an event is resumed exactly once, only after the event was reached, and always if it is reached, at whatever moment.",
 ["schedules","programs"],"all interleavings of the notification with the end of the task body, the suspension and other workers",
 "No test uses events; example 7 always notifies a second after the task body ended.",
 [R+"scheduler/event.cpp",R+"task/property/graph.cpp",R+"task/property/graph.hpp",R+"dispatch/thread/execute.cpp",R+"task/task_base.hpp"],[("add_follower/notify","redGrapes/scheduler/event.cpp"),("make_event, sg_pause","redGrapes/task/property/graph.hpp"),("execute_task","redGrapes/dispatch/thread/execute.cpp")],["start of followers, resumption of yielding tasks"])
p("C20","Work never strands: sleeping workers are woken for ready tasks",
 "Whenever a task is ready or waiting to be initialised, some worker is awake and will take it, whatever the interleaving of submission, activation, work stealing and going to sleep, and from whichever thread the task is activated. Exactly one worker obtains each task.",
 ["schedules","configurations"],"all interleavings of one submitting or activating thread with one or two workers",
 "A lost wake-up appears as a rare hang on a machine with many idle cores; tests pass or time out by chance.",
 [R+"scheduler/default_scheduler.cpp",R+"dispatch/thread/worker.cpp",R+"dispatch/thread/worker_pool.cpp",R+"sync/cv.cpp"],[("activate_task, steal_task","redGrapes/scheduler/default_scheduler.cpp"),("work_loop, gather_task","redGrapes/dispatch/thread/worker.cpp"),("find_free_worker","redGrapes/dispatch/thread/worker_pool.cpp")],["state of queues and sleeping workers"])
p("C21","Tag matching dispatches each task to a scheduler supporting its tags",
 "A task is handed (when submitted and when activated) to the first registered scheduler that supports all its tags, and to no other; if there is none, an exception is thrown. The kind of the dependency between two tasks is decided by the scheduler responsible for the later one, and holds also if the earlier one waits and continues in between; stealing and wake-ups reach every sub-scheduler that can serve them.",
 ["inputs","configurations"],"up to 3 sub-schedulers with arbitrary 64-bit tag sets; tasks with arbitrary tag sets",
 "The tag matching scheduler has no test.",
 [R+"scheduler/tag_match.hpp",R+"scheduler/tag_match_property.hpp"],[("get_matching_scheduler","redGrapes/scheduler/tag_match.hpp")],["which sub-scheduler is called"])
p("C22","MPI requests complete the right task with the right status",
 "When any subset of the pending communication requests completes, in any order, exactly the tasks waiting for those requests are resumed, each with the status of its own request, and all other requests remain pending and unchanged.",
 ["inputs","fault_sequences"],"up to 4 pending requests, every subset and order of completions reported by one or two polls, arbitrary statuses",
 "There is no MPI test (MPI is optional); the index arithmetic while erasing completed requests matters only when several finish in one poll.",
 [R+"dispatch/mpi/request_pool.hpp"],[("RequestPool::poll","redGrapes/dispatch/mpi/request_pool.hpp")],["status returned to the waiting task"])
p("C23","Tasks and resources get unique identities",
 "No two tasks and no two resources alive ever have the same id, also when they are created concurrently from different threads.",
 ["schedules"],"all interleavings of two or three threads creating tasks or resources",
 "The Resource ID test creates a few resources in one thread.",
 [R+"task/property/id.hpp",R+"resource/resource.cpp"],[("id_counter","redGrapes/task/property/id.hpp"),("generateID","redGrapes/resource/resource.cpp")],["task ids, resource ids"])
p("C24","Any number of workers works, also more workers than cores",
 "The runtime can be initialised with any positive number of workers, also more than there are cores; tasks, resources and workers are then allocated from, and returned to, the arena they came from, and every worker can execute tasks.",
 ["configurations"],"every combination of 1..4 workers and 1..4 cores",
 "WorkerUtilization uses at most as many workers as cores.",
 [R+"dispatch/thread/worker_pool.cpp",R+"memory/allocator.cpp",R+"task/task_space.cpp"],[("emplace_workers","redGrapes/dispatch/thread/worker_pool.cpp"),("Allocator","redGrapes/memory/allocator.cpp")],["blocks returned to an arena"])
p("C25","Scope depth and backtrace reflect the nesting of tasks",
 "Inside a task the scope depth is one more than in the code that created the task, and the backtrace lists the running task first and then its ancestors in order; outside of tasks the depth is zero and the backtrace is empty. Resources created in a task carry its depth.",
 ["programs"],"nesting up to depth 3, with arbitrary interleavings of other tasks on the same worker",
 "Only printed by examples.",
 [R+"redGrapes.cpp",R+"task/task_space.cpp",R+"resource/resource.cpp"],[("scope_depth, backtrace","redGrapes/redGrapes.cpp")],["scope_depth(), backtrace()"])
p("C26","A task's accesses are exactly those declared for it",
 "The accesses of a task are exactly the ones its arguments carry together with those added explicitly, independent of their number, order or repetition; each resource lists the task as a user exactly once, however often it is declared, until the task has finished, and no longer afterwards.",
 ["programs","inputs"],"every combination of up to 3 declared accesses over 2 resources, through arguments and through explicit lists",
 "Tests never inspect registration; a resource missing from a task's list shows up only as a lost ordering.",
 [R+"task/task_builder.hpp",R+"task/property/resource.hpp",R+"task/property/trait.hpp",R+"resource/resource_user.cpp",R+"task/task_space.cpp"],[("BuildProperties","redGrapes/task/property/trait.hpp"),("add_resource_access/build_unique_resource_list","redGrapes/resource/resource_user.cpp"),("submit/delete_from_resources","redGrapes/task/property/graph.cpp")],["user lists of resources"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
