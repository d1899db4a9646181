import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/libfork/"
p("C01","Fork-join results equal the serial elision on every schedule",
"For any structured program of fork, call and join (arbitrary nesting, fan-out, several join scopes per task, any task kind or return type), the value each task delivers to its bound return address is, after the parent's join (or after the call), exactly the value the same program computes when fork/call are ordinary function calls. This holds on every scheduler (one worker, spinning pool, sleeping pool, any custom scheduler) and for every interleaving of steals and joins.",
["programs","schedules"],"all strictly nested fork-join programs x all schedulers x all steal/join interleavings",
"The tests run a handful of fixed programs (fib and friends) on an idle machine where few steals and almost no late join races occur; they cannot enumerate program shapes or interleavings.",
[I+"core/impl/promise.hpp",I+"core/impl/awaitables.hpp",I+"core/impl/frame.hpp",I+"core/impl/return.hpp",I+"core/control_flow.hpp",I+"core/impl/combinate.hpp"],
[("join race between parent and last child",I+"core/impl/awaitables.hpp join_awaitable; "+I+"core/impl/promise.hpp final_await_suspend"),("return-address store",I+"core/impl/return.hpp return_result")],
["return objects read after co_await lf::join","future::get"],
[("join counter","children completed, offset by a large constant until the parent reaches its join",I+"core/impl/frame.hpp"),("steal counter","times the continuation was stolen in this scope",I+"core/impl/frame.hpp")])
p("C02","Each task runs exactly once and strictly inside its parent's scope",
"Every forked or called task starts exactly once and finishes exactly once, a parent never continues past a join (or a call) before all the children it covers have finished, and no continuation is ever executed twice or lost. Everything a child wrote before finishing is visible, free of data races, to the parent after the join, and everything the parent wrote before the fork is visible to the child.",
["programs","schedules"],"all fork-join programs and interleavings, including many thieves and late joiners",
"Duplicate or lost execution needs a lost deque/join race in a window of nanoseconds; tests only compare final values and run without a race detector.",
[I+"core/impl/promise.hpp",I+"core/impl/awaitables.hpp",I+"core/ext/deque.hpp",I+"core/ext/resume.hpp",I+"core/impl/frame.hpp"],
[("release decrement / acquire fence pair of the join counter",I+"core/impl/promise.hpp final_await_suspend"),("work-stealing deque hand-off",I+"core/ext/deque.hpp"),("steal accounting",I+"core/ext/resume.hpp")],
["task entry/exit counters kept by the tasks themselves","ThreadSanitizer reports"])
p("C03","Exceptions reach the parent's join exactly once and are never lost",
"If tasks forked or called in a scope throw (or the task stashes an exception for itself), every child of the scope still completes, and then the parent's join throws exactly one of those exceptions; if none was thrown the join does not throw, and the scope can be reused afterwards. The eager variants of dispatch rethrow the child's exception already when the awaiting task is resumed, an exception whose return address stores exceptions is delivered there instead, and an exception leaving the root task is rethrown by the future; no exception object is lost, delivered twice or leaked.",
["programs","schedules","fault_sequences"],"all placements of throwing tasks in fork-join programs, all modifiers, all interleavings of concurrent throwers",
"Tests throw from a few fixed places; concurrent throwers, exceptions combined with steals, reuse of a scope after an exception and the eager modifiers are not covered.",
[I+"core/impl/promise.hpp",I+"core/impl/awaitables.hpp",I+"core/impl/frame.hpp",I+"core/first_arg.hpp",I+"core/impl/return.hpp",I+"core/control_flow.hpp"],
[("first exception wins by atomic exchange",I+"core/impl/frame.hpp capture_exception"),("rethrow at join / eager rethrow",I+"core/impl/awaitables.hpp"),("routing of an unhandled exception",I+"core/impl/promise.hpp unhandled_exception")],
["co_await lf::join","co_await dispatch<...>","future::get","live exception-object count"])
p("C04","Live task frames never overlap and all task storage is reclaimed",
"While a task is alive nobody else writes its coroutine frame, its arguments or locals, whichever worker resumes it and however stacks change owners through steals, joins and context switches. When all tasks have completed and the workers are gone, every byte of task storage and every argument, local and result object has been released exactly once.",
["programs","schedules"],"all fork-join programs, frame sizes and interleavings; all transfers of stack ownership",
"An overlap or use-after-release inside a pooled stack segment is invisible to ordinary tests and even to a plain address sanitizer, and depends on which worker won which join.",
[I+"core/impl/stack.hpp",I+"core/impl/promise.hpp",I+"core/impl/awaitables.hpp",I+"core/ext/resume.hpp",I+"core/ext/tls.hpp",I+"core/impl/unique_frame.hpp"],
[("stack hand-over at join / final suspend / context switch",I+"core/impl/promise.hpp, "+I+"core/impl/awaitables.hpp"),("LIFO segment allocator",I+"core/impl/stack.hpp")],
["frame canaries written and re-checked by tasks","shadow-poisoned released frames (ASan)","object and heap-block conservation at shutdown"])
p("C05","Task memory is bounded, amortised and off the native stack",
"Peak task storage stays within a constant factor of the live frames (per worker), so recursion depth is limited by heap memory and not by the thread's native stack, and calling, forking, returning and joining do not consume native stack. Repeating a computation does not grow memory, and repeatedly making a call, fork or co_new from the same depth costs a bounded number of system allocations rather than one per iteration (unless one frame is many times larger than everything below it).",
["programs","inputs"],"all depths, frame sizes and repetition counts, with and without steals",
"Tests use shallow recursion, never count allocations and never look at memory after repeated runs.",
[I+"core/impl/stack.hpp",I+"core/impl/awaitables.hpp",I+"core/impl/promise.hpp"],
[("geometric growth and one cached segment",I+"core/impl/stack.hpp allocate/deallocate"),("symmetric transfer",I+"core/impl/awaitables.hpp, "+I+"core/impl/promise.hpp")],
["heap interposer counters","native stack pointer range sampled inside tasks"])
p("C06","co_new storage is distinct, aligned, initialised and released once",
"co_await co_new<T>(n) yields exactly n default-initialised T in suitably aligned memory that overlaps nothing else alive, and that stays intact and at the same address across calls, forks, joins, steals and nested co_new until it is released. Each element is constructed once and destroyed once, also when a constructor throws, and a request that cannot be satisfied (including one whose byte size overflows) throws and changes nothing.",
["inputs","programs","schedules","fault_sequences"],"all counts and element types, nesting orders, surrounding fork-join activity and throwing constructors",
"Tests allocate a few small arrays once; sizes around segment boundaries, throwing constructors, overflow and interaction with steals are untested.",
[I+"core/co_alloc.hpp",I+"core/impl/awaitables.hpp",I+"core/impl/stack.hpp"],
[("alloc_awaitable and stack_allocated RAII",I+"core/impl/awaitables.hpp, "+I+"core/co_alloc.hpp")],
["the returned span","constructor/destructor counts"])
p("C07","The work-stealing deque is a linearizable single-owner deque",
"Under one owner pushing and popping and any number of concurrent thieves, every pushed item is taken at most once, no item is ever lost (what is not taken is still in the deque), the owner's pops are last-in-first-out and steals are first-in-first-out in push order, and an operation reports empty only if the deque could have been empty and reports a lost race only if another taker really took an item meanwhile. This includes growth of the buffer while thieves are active, and data written before a push is visible to whoever takes the item.",
["histories","schedules"],"all histories of push/pop/steal/size/empty over all interleavings and capacities",
"Tests check a few totals; duplicate or lost items need the last-element race, a buffer growth or a store/load reordering at the right moment.",
[I+"core/ext/deque.hpp",I+"core/impl/atomics.hpp"],
[("Chase-Lev protocol: top CAS, bottom store, fences",I+"core/ext/deque.hpp push/pop/steal"),("buffer growth keeping old buffers",I+"core/ext/deque.hpp")],
["push/pop/steal call and return events"],
[("top/bottom","index interval of live items",I+"core/ext/deque.hpp")])
p("C08","The submission list loses nothing and keeps each producer's order",
"Under any number of concurrent producers and one consumer, every node pushed on the intrusive list is handed out by exactly one pop-all, in each batch (and across batches) the nodes of one producer appear in the order they were pushed, and a pop-all that starts after a push has returned sees that node. Iterating a batch visits each node once even if the callback destroys the node or reuses its memory for a new node that it pushes, and what a producer wrote before pushing is visible to the consumer.",
["histories","schedules"],"all interleavings of concurrent pushes and pop-alls",
"The test pushes from a few threads once and only counts; it cannot sample ABA, weak CAS retry or ordering windows.",
[I+"core/ext/list.hpp"],[("CAS push / exchange-and-reverse",I+"core/ext/list.hpp")],["push and pop-all events with unique ids"])
p("C09","Any scheduler built on the extension API runs every submission once",
"A scheduler written with the extension API (worker_init, schedule on a worker context, try_pop_all, try_steal, resume, finalize) whose workers keep polling executes every submitted task exactly once, submissions may arrive concurrently from any thread, and each submission triggers the target worker's notification after the task is visible to that worker. After resume returns, that worker holds no work and no task storage, whatever the stealing policy, number of workers or delays.",
["configurations","schedules","histories"],"all stealing policies, worker counts, submission patterns and delays",
"The tests use only the bundled pools; a third-party policy (random victims, delayed thieves, workers joining late) is never exercised.",
[I+"core/ext/context.hpp",I+"core/ext/resume.hpp",I+"core/ext/tls.hpp",I+"core/ext/handles.hpp"],
[("push then notify",I+"core/ext/context.hpp schedule"),("resume taking or leaving the stack",I+"core/ext/resume.hpp")],
["notification callbacks","custom worker loops","task bodies"])
p("C10","The event count never loses a wake-up",
"A waiter that has obtained its key before a notify-all begins is woken (or does not block), and one notify-one wakes at least one such waiter; hence the documented prepare / check / wait pattern never sleeps forever once the condition was made true and notified. cancel_wait and exceptions thrown by an await predicate leave the event count usable by others.",
["schedules","histories"],"all interleavings of waiters, cancellations and notifiers",
"A lost wake-up needs a notification between key and sleep; the test has few threads and no delays there.",
[I+"schedule/ext/event_count.hpp"],[("packed epoch and waiter count, one atomic RMW each",I+"schedule/ext/event_count.hpp")],["await/wait returns","whole-process quiescence with pending conditions"])
p("C11","Sleeping workers are always woken for work, and idle pools sleep",
"Work submitted to a lazy_pool at any moment (while workers are busy, stealing, falling asleep or all asleep), through the pool or directly to any of its workers, is always executed without further submissions. While some worker is busy and has stealable work the pool keeps someone looking for it, and when nothing is left the workers go to sleep instead of consuming processor time.",
["schedules","histories","configurations"],"all timings of submissions relative to the workers' sleep/wake transitions, all worker counts and NUMA groupings",
"A missed wake-up hangs only if a submission hits the few instructions between the last check and the sleep; tests keep the pool saturated.",
[I+"schedule/lazy_pool.hpp",I+"schedule/ext/event_count.hpp",I+"schedule/impl/numa_context.hpp"],
[("thief/active counters and re-check before sleeping",I+"schedule/lazy_pool.hpp")],["completion of each submission","process CPU time while idle"],
[("thief, active","workers looking for work / running work",I+"schedule/lazy_pool.hpp")])
p("C12","Pools start, drain, stop and move cleanly",
"Every pool can be constructed with any positive number of workers and destroyed right away, after use, or while idle: destruction returns, joins all its threads and frees everything. Everything submitted to a unit_pool, detached or not, has completed when its destructor returns; a busy_pool or lazy_pool may be destroyed as soon as the results of all its tasks have been obtained, however recently. A moved pool keeps working under its new name, and the moved-from object can be destroyed or assigned.",
["histories","configurations","schedules"],"all sequences of construction, submission, move and destruction and their timing",
"Tests construct pools in a fixed pattern; stop racing with the last tasks, detached drain and moves are untested.",
[I+"schedule/unit_pool.hpp",I+"schedule/busy_pool.hpp",I+"schedule/lazy_pool.hpp"],
[("start/stop latches and stop flag, final drain loops",I+"schedule/busy_pool.hpp, "+I+"schedule/lazy_pool.hpp, "+I+"schedule/unit_pool.hpp")],["destructor return","task completion counts","thread and heap accounting"])
p("C13","Explicit context switches land on the target and lose nothing",
"After co_await resume_on(ctx) the task runs on the worker owning ctx (without suspending if it is already there), after co_await resume_on(pool) on one of that scheduler's workers, and a user-written context switcher's task continues on the worker its handle was submitted to, once, with the value the switcher produces. Switches may occur anywhere in a fork-join program (inside children, between fork and join, in called tasks, repeatedly, also between pools) without changing its results, exception delivery or memory safety, and without stranding the work left behind on the previous worker.",
["programs","schedules"],"all placements of switches in fork-join programs and all interleavings with steals and joins",
"Tests switch in a few straight-line coroutines; combinations with stolen continuations and effectively stolen ancestors depend on timing.",
[I+"core/scheduler.hpp",I+"core/impl/awaitables.hpp",I+"core/ext/resume.hpp",I+"core/ext/context.hpp"],
[("release of the stack on a switch and self-stealing of ancestors",I+"core/impl/awaitables.hpp context_switch_awaitable, try_self_stealing")],["worker identity observed inside the task","program results"])
p("C14","Root tasks: futures, sync_wait, detach and schedule failures",
"schedule/sync_wait deliver the root task's value or exception exactly once: waiting returns only after the task has completed, get on an empty or already consumed future throws the documented error, destroying an unconsumed future blocks until completion, and a detached task still runs with its state kept alive. Calling from a worker throws, arguments are moved or copied into the task, and if building or submitting the task fails the exception reaches the caller, nothing runs or leaks, and the thread can schedule again.",
["histories","schedules","fault_sequences"],"all sequences of future operations, concurrent callers on different threads, failing schedulers and failing allocations",
"Tests use the success path and a few state errors on one thread; failing submission, abandonment while running and races between completion and destruction are not covered.",
[I+"core/sync_wait.hpp",I+"core/impl/promise.hpp",I+"core/impl/combinate.hpp"],
[("shared state with semaphore and status",I+"core/sync_wait.hpp"),("root task final suspend",I+"core/impl/promise.hpp")],["future API results","argument/result object counts","heap accounting"])
p("C15","Worker initialisation and finalisation are all-or-nothing",
"A thread can become a worker and stop being one any number of times; initialising twice, finalising a foreign or an already finalised worker throws and changes nothing. If initialisation fails the exception reaches the caller and the thread is left as it was, able to initialise or schedule later, and nothing leaks.",
["histories","fault_sequences"],"all sequences of init/finalize/schedule per thread with failures at any allocation",
"No test makes initialisation fail or repeats the life cycle under leak checking.",
[I+"core/ext/tls.hpp"],[("thread-local flags and manually managed lifetimes",I+"core/ext/tls.hpp")],["returned contexts and exceptions","heap accounting","sanitizers"])
p("C16","eventually and try_eventually behave as write-once result cells",
"An eventually<T>/try_eventually<T> starts empty, accepts one assignment while empty and from then on holds exactly what was put in (a value, a reference to the assigned object, or an exception), reports that state truthfully, and yields it by reference or by move without changing it. Every contained object or exception is destroyed exactly once, an assignment whose conversion throws leaves it empty and assignable again, and after a task bound to it has completed it holds that task's result or exception.",
["histories","inputs"],"all operation sequences over value, reference, void and immovable types",
"Tests check single assignments for a few types; orders of operations, throwing conversions and lifetime balance are combinatorial.",
[I+"core/eventually.hpp",I+"core/impl/manual_lifetime.hpp",I+"core/impl/return.hpp"],
[("tagged union of manual lifetimes",I+"core/eventually.hpp")],["has_value/has_exception/dereference","object counts"])
p("C17","for_each and map process every element exactly once",
"For any random-access range (empty included), any positive chunk size, any overload (iterators or range, with or without chunk) and any synchronous or asynchronous function and projection, for_each applies the function to each projected element exactly once and to nothing else, and map writes to each output position the result for the input at the same position and touches nothing else. All applications are complete and visible when the algorithm returns, on every scheduler.",
["inputs","schedules"],"all lengths, chunk sizes, overloads, element types and interleavings",
"Tests use a few sizes and chunk sizes with commutative checks on sums; off-by-one splits at other sizes escape.",
[I+"algorithm/for_each.hpp",I+"algorithm/map.hpp",I+"algorithm/constraints.hpp",I+"algorithm/lift.hpp"],
[("recursive halving down to the chunk",I+"algorithm/for_each.hpp, "+I+"algorithm/map.hpp")],["per-element application counts, guard zones around the output"])
p("C18","fold equals the ordered left fold for every associative operator",
"For any random-access range, positive chunk size, overload and any associative (not necessarily commutative) synchronous or asynchronous operator and projection, fold returns the same value as the sequential left fold, and an empty optional exactly for an empty range. Each element is projected exactly once, and an operator is applied exactly once per adjacent pair (size minus one times).",
["inputs","schedules"],"all lengths, chunk sizes, overloads, operators and interleavings",
"Tests use addition on numbers, for which wrong grouping order, swapped operands or many split errors cancel out.",
[I+"algorithm/fold.hpp",I+"algorithm/constraints.hpp"],[("recursive halving, ordered combination",I+"algorithm/fold.hpp")],["result of a free-monoid (concatenation) fold","application counts"])
p("C19","scan equals the ordered inclusive prefix scan on every schedule",
"For any random-access range, positive chunk size, in-place or separate output, overload and any associative (not necessarily commutative) synchronous or asynchronous operator and projection, scan writes at every position the ordered combination of all elements up to it, and writes nothing outside the output range. This holds whichever mixture of the one-pass and two-pass algorithm the steals of that run select, free of data races.",
["inputs","schedules"],"all lengths, chunk sizes, overloads, operators and steal-dependent choices of sweep",
"Which code path runs depends on whether each left half completed before its sibling started; tests use plus and see few of the mixtures.",
[I+"algorithm/scan.hpp",I+"algorithm/constraints.hpp"],[("rise sweep / fall sweep with synchronous-completion shortcut",I+"algorithm/scan.hpp")],["output sequence with a free monoid","guard zones","ThreadSanitizer"])
p("C20","Parallel algorithms propagate exceptions and stay usable",
"If the function, operator or projection given to for_each, map, fold or scan (synchronous or asynchronous) throws for some elements, the algorithm throws one of exactly those exceptions after all work it started has finished, and never returns normally. No element or temporary is leaked, no application runs after the algorithm has returned, and the pool and ranges can be used again; if nothing throws, nothing is thrown.",
["inputs","fault_sequences","schedules"],"all positions and numbers of throwing applications x all algorithms and overloads x interleavings",
"Tests never throw inside the algorithms in combination with steals and chunking.",
[I+"algorithm/for_each.hpp",I+"algorithm/map.hpp",I+"algorithm/fold.hpp",I+"algorithm/scan.hpp",I+"core/impl/awaitables.hpp"],
[("stash_exception around the called half, rethrow at the join",I+"algorithm/*.hpp"),("eager rethrow of asynchronous operators",I+"core/impl/awaitables.hpp")],["exception caught by the caller","application and object counts"])
p("C21","All ways of invoking an async function are equivalent",
"An async function gives the same result, side effects and exceptions whether it is invoked by fork, call, any dispatch modifier, just, lift of the equivalent plain function, sync_wait, as a member function, recursively through its first argument, or through an externally compiled (type-erased) definition, and whether the result is bound to a variable, an eventually or discarded. Arguments arrive with the declared value category and identity: by-value parameters are independent objects living until the task ends and destroyed once, references refer to the caller's object, move-only arguments are moved; a synchronous-completion report is true only if the child has really completed.",
["programs","inputs","schedules"],"all invocation forms x signatures x argument value categories",
"Tests cover selected forms with ints; combinations of value categories, erased definitions and modifiers under stealing are not covered.",
[I+"core/control_flow.hpp",I+"core/impl/combinate.hpp",I+"core/first_arg.hpp",I+"core/just.hpp",I+"algorithm/lift.hpp",I+"core/extern.hpp",I+"core/invocable.hpp",I+"core/impl/return.hpp",I+"core/impl/awaitables.hpp"],
[("combinator building the first argument and frame",I+"core/impl/combinate.hpp"),("just/lift wrappers",I+"core/just.hpp, "+I+"algorithm/lift.hpp"),("LF_FWD_DECL/LF_IMPLEMENT",I+"core/extern.hpp")],["results, exceptions, object identities and counts"])
p("C22","NUMA distribution is a faithful partition of the workers",
"For any machine topology, worker count n >= 1 and strategy, splitting yields n handles that each name exactly one existing processing unit and a dense NUMA index that is equal for two handles exactly when they share a memory domain, spread evenly (no processing unit is reused while another usable one is free). Distributing n objects gives each worker itself first and then every other object exactly once, grouped in order of non-decreasing topological distance, with equal distances in one group.",
["inputs","configurations"],"all topologies, worker counts and strategies",
"Tests run on the one topology of the host machine.",
[I+"schedule/ext/numa.hpp",I+"schedule/impl/numa_context.hpp"],[("hwloc distribution, distance matrix, neighbour lists",I+"schedule/ext/numa.hpp")],["handles and neighbour lists under synthetic hwloc topologies"])
p("C23","The random generator is xoshiro256** with correct jumps",
"From every seed and every state the generator yields the exact xoshiro256** sequence within its declared range, equal seeds give equal streams, and jump and long_jump advance the state by exactly 2^128 and 2^192 steps. Copies are independent, and generators separated by long jumps therefore never share a subsequence in practice.",
["inputs"],"all 256-bit states, seeds and sequences of next/jump/long_jump",
"Tests check uniqueness or bounds on a few draws; no finite draw test can confirm a 2^128-step jump.",
[I+"schedule/ext/random.hpp"],[("linear engine and jump polynomials",I+"schedule/ext/random.hpp")],["outputs compared with an independent GF(2) matrix model"])
p("C24","Allocation failure surfaces as an exception and corrupts nothing",
"If the system refuses memory while a task is created, a root task is scheduled, co_new is served or a work queue grows, a std::bad_alloc (or derived) exception reaches the code performing that operation, as if the operation had not been started. All tasks already started still complete once, the parent can join, nothing is leaked and the worker continues to run further programs.",
["fault_sequences","programs"],"every allocation of a workload failed one at a time (and in random sets)",
"No test injects an allocation failure.",
[I+"core/impl/stack.hpp",I+"core/impl/awaitables.hpp",I+"core/sync_wait.hpp",I+"core/ext/deque.hpp",I+"core/co_alloc.hpp"],
[("throw before transferring ownership of the child",I+"core/impl/awaitables.hpp fork_awaitable"),("segment allocation",I+"core/impl/stack.hpp")],["exception seen by the task or caller","object and heap accounting"])
p("C25","The single-header distribution behaves like the modular headers",
"A program compiled against the amalgamated single header gives the same results, exceptions, object lifetimes and memory accounting as the same program compiled against the modular headers, for the core, the schedulers and the algorithms. Both may be used in several translation units of a program.",
["programs","configurations"],"all programs using the public API, both distributions",
"One smoke test is compiled against the single header; drift between the two copies elsewhere is invisible.",
["single_header/libfork.hpp","include/libfork.hpp"],[("generated amalgamation","tools/make_single_header.cpp")],["deterministic observation log of a program battery in both builds"])
p("C26","The number of children and steals per scope is unbounded in practice",
"A task may fork any number of children in one scope (limited by memory), and their continuations may be stolen any number of times, without affecting the join: the parent still waits for all of them and continues exactly once. In particular nothing changes when these numbers pass 2^8, 2^15, 2^16 or 2^17.",
["programs","schedules"],"all fan-outs and steal counts of one scope",
"Tests never exceed a few thousand steals in one scope; counters wrap only beyond 2^16.",
[I+"core/impl/frame.hpp",I+"core/impl/awaitables.hpp",I+"core/impl/promise.hpp",I+"core/impl/utility.hpp"],
[("steal and join counters",I+"core/impl/frame.hpp")],["children finished at join","steals forced by blocking each child until its parent was resumed elsewhere"])
p("C27","Idle workers pick up available work",
"On a pool with n workers, whenever a task is running and k <= n mutually waiting tasks have been made available (by forking or by submission to different workers), the idle workers obtain the available continuations, so that the k tasks get to run at the same time and their rendezvous completes. No worker is permanently excluded from stealing or from being stolen from, under either pool and either NUMA strategy.",
["schedules","configurations"],"all worker counts up to the hardware, both pools, both strategies, fork chains and trees",
"Tests never require concurrency to finish, so a pool that serialises everything, or a worker nobody steals from, passes.",
[I+"schedule/busy_pool.hpp",I+"schedule/lazy_pool.hpp",I+"schedule/impl/numa_context.hpp",I+"schedule/ext/numa.hpp",I+"core/ext/deque.hpp"],
[("victim selection",I+"schedule/impl/numa_context.hpp try_steal"),("thief wake-up chain",I+"schedule/lazy_pool.hpp")],["rendezvous completion, thread identities met"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); 
print(len(P))
