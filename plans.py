"""What each check builds and runs (see DESIGN.md for why)."""
import threading


class Build:
    def __init__(self, sources, cfg, flags="", link="", single=False, hwloc=True, prelude=True):
        self.sources = [sources] if isinstance(sources, str) else list(sources)
        self.cfg, self.flags, self.link = cfg, flags, link
        self.single, self.hwloc, self.prelude = single, hwloc, prelude
        self.exe, self.cmds = None, []
        self.done = threading.Event()


class Run:
    def __init__(self, build, cores=2, tmo=240, env=None, soft="", **args):
        self.build, self.cores, self.tmo, self.env, self.soft, self.args = build, cores, tmo, env or {}, soft, args
        self.cmd, self.wall = [], 0.0


class Plan:
    def __init__(self, make, rule, level="exploration", require=None, assumptions=None,
                 note="sampled schedules and inputs; trusts the compilers, their sanitizers, the fence model and the "
                      "harness's own oracle"):
        self.make, self.rule, self.level, self.note = make, rule, level, note
        self.require = require or {}
        self.assumptions = (assumptions or []) + [
            "observes only the executions it produces; x86-64, this compiler and these schedules",
        ]


PLANS = {}
LEAKS = "memory-leak,object-leak,exception-leak"


def plan(pid, **kw):
    def deco(f):
        PLANS[pid] = Plan(f, **kw)
        return f
    return deco


def harness(src, cfgs, **kw):
    return {"%s.%s" % (src, c): Build(src + ".cpp", c, **kw) for c in cfgs}


def fj(tier, mix, soft=""):
    """mix: list of (cfg, feat, executions, args)."""
    builds = harness("fj", sorted({m[0] for m in mix}))
    runs = []
    for cfg, feat, n, args in mix:
        for k in range(n * (8 if tier == "thorough" else 1)):
            a = dict(args)
            runs.append(Run("fj." + cfg, feat=feat, soft=soft, **a))
    return builds, runs


FJ_RULE = ("random structured fork-join programs (nesting, fan-out, several scopes per task, dispatch kinds by the "
           "feature mask) executed on unit/busy/lazy/custom schedulers with seeded delays; every program runs at least "
           "twice; distinct = distinct pairs of (program, assignment of its tasks to workers)")


@plan("C01", rule=FJ_RULE, require={"tasks_on_other_worker_than_parent": 200, "programs": 500})
def c01(tier, seed):
    return fj(tier, [("plain", 1, 4, {"progs": 30}), ("ndebug", 17, 3, {"progs": 30}), ("tsan", 1, 1, {"progs": 24}),
                     ("asan", 1, 1, {"progs": 24})], soft=LEAKS)


@plan("C02", rule=FJ_RULE, require={"tasks_on_other_worker_than_parent": 200, "programs": 500})
def c02(tier, seed):
    return fj(tier, [("tsan", 1, 4, {"progs": 30}), ("tsan", 5, 1, {"progs": 30}), ("plain", 1, 2, {"progs": 30}),
                     ("ndebug", 1, 1, {"progs": 30})], soft=LEAKS)


@plan("C03", rule=FJ_RULE, require={"tasks_that_threw": 1000, "tasks_on_other_worker_than_parent": 200})
def c03(tier, seed):
    return fj(tier, [("plain", 19, 3, {"progs": 30}), ("ndebug", 3, 2, {"progs": 30}), ("asan", 19, 2, {"progs": 30}),
                     ("tsan", 19, 2, {"progs": 24})], soft="memory-leak,object-leak")


@plan("C04", rule=FJ_RULE, require={"tracked_objects": 10000, "heap_balance_checks": 10})
def c04(tier, seed):
    return fj(tier, [("asan", 31, 4, {"progs": 30}), ("plain", 31, 2, {"progs": 24}), ("ndebug", 15, 2, {"progs": 24}),
                     ("tsan", 29, 1, {"progs": 24})])


@plan("C05", rule="chains of up to a million frames of 1..40000 bytes entered by call, fork, mixed and throwing ways on a "
      "native stack of 256 KiB; scopes of up to 100000 operations; repeated calls from every small and random larger depths; "
      "random trees whose held storage is compared with the live frames at every step; repeated computations on every "
      "pool; distinct = distinct (frame size, way, depth) and trees",
      require={"deep_chains": 60, "boundary_probes": 2000, "held_storage_checks": 20000, "peaks_compared": 50,
               "repetition_growth_checks": 20, "broad_scopes": 60, "max.depth": 900000},
      note="sampled sizes and depths; the constants judged (6x the live uniform frames, 100x of the live frames at any "
           "moment, 12 allocations per 200 repetitions, 32 KiB of native stack) are generous against what is observed")
def c05(tier, seed):
    b = harness("mem", ["plain", "ndebug", "cplain", "asan"])
    k = 10 if tier == "thorough" else 1
    runs = []
    for c, n, rounds in [("plain", 2, 6), ("ndebug", 2, 6), ("cplain", 2, 6), ("asan", 1, 4)]:
        runs += [Run("mem." + c, cores=3, rounds=rounds, rate=200 if i else 0) for i in range(n * k)]
    return b, runs


@plan("C06", rule=FJ_RULE, require={"tracked_objects": 10000, "throwing_constructors": 100, "tasks_ended_by_co_new": 50})
def c06(tier, seed):
    return fj(tier, [("asan", 8, 2, {"progs": 40}), ("plain", 11, 2, {"progs": 30}), ("tsan", 13, 2, {"progs": 24})])


@plan("C13", rule=FJ_RULE, require={"tasks": 1000, "pairs_of_pools": 3})
def c13(tier, seed):
    return fj(tier, [("asan", 4, 2, {"progs": 40}), ("plain", 15, 2, {"progs": 30}), ("ndebug", 7, 2, {"progs": 30}),
                     ("tsan", 6, 2, {"progs": 24})])



@plan("C07", rule="recorded histories of one owner (push/pop in five patterns, growth from capacity 1 upwards) and 0-6 "
      "thieves on four element types, half of them with invocation/response tickets, with injected delays or at full "
      "hardware speed; distinct = distinct assignments of items to takers in rounds where something was stolen",
      require={"items_stolen": 10000, "buffer_growths": 50, "empty_reports_judged": 1000, "lost_reports_judged": 1000})
def c07(tier, seed):
    b = harness("deque", ["plain", "asan", "tsan"])
    b["deque.raw"] = Build("deque.cpp", "ndebug", flags="-DVH_NO_ATOMIC_HOOKS")
    k = 10 if tier == "thorough" else 1
    runs = [Run("deque.raw", cores=4, rounds=2500, tickets=0) for _ in range(2 * k)]
    runs += [Run("deque.plain", cores=4, rounds=1200) for _ in range(2 * k)]
    runs += [Run("deque.asan", cores=4, rounds=500) for _ in range(k)]
    runs += [Run("deque.tsan", cores=4, rounds=250) for _ in range(2 * k)]
    return b, runs


@plan("C08", rule="1-7 producers pushing identified nodes and one consumer that pops, checks, destroys nodes or reuses "
      "their memory for new pushes from the iteration callback; distinct = distinct (interleaving of producers, batch "
      "boundaries) sequences as consumed", require={"pushes": 100000, "batches": 1000, "visibility_checks": 1000})
def c08(tier, seed):
    b = harness("list", ["plain", "asan", "tsan"])
    b["list.raw"] = Build("list.cpp", "ndebug", flags="-DVH_NO_ATOMIC_HOOKS")
    k = 10 if tier == "thorough" else 1
    runs = [Run("list.raw", cores=4, rounds=2500) for _ in range(k)]
    runs += [Run("list.plain", cores=4, rounds=2500) for _ in range(2 * k)]
    runs += [Run("list.asan", cores=4, rounds=1200) for _ in range(2 * k)]
    runs += [Run("list.tsan", cores=4, rounds=500) for _ in range(2 * k)]
    return b, runs


@plan("C10", rule="semaphore, key, ordering and ping-pong scenarios on one event count with injected delays between its "
      "steps; every round completes only if no wake-up is lost (otherwise all threads sleep and the watchdog reports); "
      "distinct = distinct (scenario, sizes, outcome) combinations",
      require={"waits_satisfied": 20000, "keyed_waits_seen_asleep": 200, "order_checks": 50, "predicate_exceptions": 50})
def c10(tier, seed):
    b = harness("ecount", ["plain", "ndebug", "asan", "tsan"])
    b["ecount.raw"] = Build("ecount.cpp", "ndebug", flags="-DVH_NO_ATOMIC_HOOKS")
    k = 10 if tier == "thorough" else 1
    runs = [Run("ecount.raw", cores=4, rounds=4000) for _ in range(k)]
    runs += [Run("ecount.plain", cores=4, rounds=3000) for _ in range(2 * k)]
    runs += [Run("ecount.ndebug", cores=4, rounds=3000) for _ in range(2 * k)]
    runs += [Run("ecount.asan", cores=4, rounds=1500) for _ in range(k)]
    runs += [Run("ecount.tsan", cores=4, rounds=700) for _ in range(2 * k)]
    return b, runs


@plan("C09", rule="submission storms from 1-4 external threads (futures, sync_wait, detached; fork-join trees with context "
      "switches) into hostile polling schedulers, schedulers whose workers sleep until notified and drain once per "
      "notification, and hand driven workers; plus random fork-join programs on the polling scheduler; distinct = distinct "
      "storms and (program, worker assignment) pairs",
      require={"submissions": 3000, "hand_driven_submissions": 200, "context_switches": 200, "heap_balance_checks": 20})
def c09(tier, seed):
    b = harness("sched", ["plain", "ndebug", "asan", "tsan"])
    b.update(harness("fj", ["plain"]))
    k = 10 if tier == "thorough" else 1
    runs = [Run("sched.plain", cores=4, rounds=150) for _ in range(2 * k)]
    runs += [Run("sched.ndebug", cores=4, rounds=150) for _ in range(2 * k)]
    runs += [Run("sched.asan", cores=4, rounds=120) for _ in range(k)]
    runs += [Run("sched.tsan", cores=4, rounds=80) for _ in range(2 * k)]
    runs += [Run("fj.plain", cores=3, feat=5, kinds=8, progs=24, pools=6) for _ in range(2 * k)]
    return b, runs


ALGO_RULE = ("random cases (length 0..700, chunk 1..beyond the length, 8 overload/shape/invocation/function/projection "
             "combinations per binary chosen so that all pairs are covered, plain and lifetime-tracked elements) on "
             "unit/busy/lazy/custom schedulers with seeded delays; every operand carries the interval of positions it "
             "stands for; distinct = distinct (sizes, set of applications with the worker that made them)")


def algo(tier, which, throws, mix):
    """mix: list of (cfg, part, executions, pools, cases)."""
    b, runs = {}, []
    for w in which:
        for cfg, part, n, pools, cases in mix:
            key = "algo%d%d.%s" % (w, part, cfg)
            b[key] = Build("algo.cpp", cfg, flags="-DVH_ALGO=%d -DVH_PART=%d" % (w, part))
            for _ in range(n * (12 if tier == "thorough" else 1)):
                runs.append(Run(key, cores=3, soft="" if throws else LEAKS, throws=throws, pools=pools, cases=cases))
    return b, runs


def algo_plan(w, plain="plain1"):
    def make(tier, seed):
        mix = [(plain, p, 1, 10, 120) for p in range(0, 8, 2)] + [("ndebug", 3, 1, 10, 120), ("cplain", 7, 1, 10, 120)]
        mix += [("asan0", 1, 1, 8, 100), ("asan0", 5, 1, 8, 100), ("tsan", 6, 1, 8, 100)]
        if tier == "thorough":
            mix += [(c, p, 1, 10, 120) for c in ("plain", "asan0", "tsan") for p in range(8)]
        return algo(tier, [w], 0, mix)
    return make


def both(x, y):
    return {**x[0], **y[0]}, x[1] + y[1]


plan("C17", rule=ALGO_RULE, require={"applications": 100000, "projections": 50000, "completed_for_each": 1500,
                                     "completed_map": 1500})(
    lambda tier, seed: both(
        algo(tier, [1], 0, [("plain1", 0, 1, 10, 120), ("plain1", 3, 1, 10, 120), ("ndebug", 5, 1, 10, 120),
                            ("asan0", 6, 1, 8, 100), ("tsan", 1, 1, 8, 100), ("cplain", 7, 1, 10, 120)]),
        algo(tier, [2], 0, [("plain1", 0, 1, 10, 120), ("plain1", 3, 1, 10, 120), ("ndebug", 5, 1, 10, 120),
                            ("asan0", 6, 1, 8, 100), ("asan0", 2, 1, 8, 100), ("tsan", 1, 1, 8, 100),
                            ("cplain", 4, 1, 10, 120)])))
plan("C18", rule=ALGO_RULE, require={"applications": 100000, "projections": 50000, "completed_fold": 3000})(algo_plan(3))
plan("C19", rule=ALGO_RULE, require={"applications": 100000, "two_pass_scans": 500, "one_pass_scans": 500})(algo_plan(4))


@plan("C20", rule=ALGO_RULE + "; functions, operators and projections throw at random elements",
      require={"runs_with_exceptions": 3000, "repetitions_after_exceptions": 3000, "late_failures": 300,
               "copies_that_could_fail": 20000, "runs_with_switching_functions": 1000})
def c20(tier, seed):
    k = 1 if tier == "quick" else 2
    x = {}, []
    for w in (1, 2, 3, 4):
        for p in range(0, 8, 4 // k):
            x = both(x, algo(tier, [w], 1, [("plain1", (w + p) % 8, 1, 10, 100), ("asan0", (w + p + 2) % 8, 1, 8, 100)]))
        x = both(x, algo(tier, [w], 1, [("tsan", (w + 1) % 8, 1, 6, 80)]))
    for r in [r for r in x[1] if r.build.startswith("algo4") and "tsan" not in r.build]:
        x[1].append(Run(r.build, cores=3, throws=1, late=7, pools=12, cases=120))
    return x



SYNTH = ["node:2 core:4 pu:1", "pack:2 node:2 core:1 pu:2", "pack:3 core:2 pu:1", "core:1 pu:1"]


def life(tier, mode, mix, synth=(), soft=""):
    """mix: list of (cfg, executions, pools, rounds)."""
    b, runs = harness("life", sorted({m[0] for m in mix})), []
    for cfg, n, pools, rounds in mix:
        for _ in range(n * (10 if tier == "thorough" else 1)):
            runs.append(Run("life." + cfg, cores=4, mode=mode, pools=pools, rounds=rounds, soft=soft))
    for k, s in enumerate(synth):
        for _ in range(10 if tier == "thorough" else 1):
            runs.append(Run("life." + mix[k % len(mix)][0], cores=4, mode=mode, pools=max(4, mix[0][2] // 3),
                            rounds=mix[0][3], env={"HWLOC_SYNTHETIC": s}, soft=soft))
    return b, runs


@plan("C11", rule="lazy pools of 1..n workers (seq and fan strategies, real and synthetic topologies) that receive work "
      "at random moments relative to their workers falling asleep; every round must complete without further submissions, "
      "and after it the per-thread CPU clocks and the kernel's thread states show all workers asleep; distinct = distinct "
      "rounds (size, submitters, targets, whether all slept before)",
      require={"all_asleep_before_submission": 200, "stealable_work_picked_up": 200, "rendezvous": 200, "idle_observations_all_asleep": 30})
def c11(tier, seed):
    return life(tier, 1, [("plain", 3, 20, 40), ("ndebug", 3, 20, 40), ("asan", 1, 16, 40), ("tsan", 2, 12, 30)],
                SYNTH[:3], soft=LEAKS)


@plan("C12", rule="random lives of unit, busy and lazy pools (construct, use, move construct/assign, swap, idle, destroy at "
      "once or right after the last result) with a heap balance after each; distinct = distinct lives",
      require={"heap_balance_checks": 100, "move_constructions": 50, "move_assignments": 50, "swaps": 20,
               "detached_before_destruction": 50})
def c12(tier, seed):
    return life(tier, 2, [("plain", 2, 16, 40), ("ndebug", 2, 16, 40), ("asan", 2, 10, 30), ("tsan", 1, 8, 16)], SYNTH[:2])


@plan("C27", rule="k <= n mutually waiting tasks made available by forking or by submission to chosen workers of a busy or "
      "lazy pool with n workers, and pairs of workers where only one can steal from the other; every rendezvous must "
      "complete; distinct = distinct (pool, strategy, shape, pair) combinations",
      require={"pairs_stolen": 100, "rendezvous_by_fork": 50, "rendezvous_by_submission": 50})
def c27(tier, seed):
    return life(tier, 3, [("plain", 3, 20, 40), ("ndebug", 2, 20, 40), ("asan", 1, 12, 30), ("tsan", 1, 8, 20)], SYNTH,
                soft=LEAKS)


@plan("C22", rule="random synthetic and irregular topologies (loaded from generated XML, including ones without packages or "
      "NUMA nodes) plus the real machine, each with both strategies and many worker counts, compared with an oracle that "
      "reads the topology through hwloc itself; a build without hwloc checks the fallback; distinct = distinct topologies "
      "and worker counts",
      require={"topologies": 100, "irregular_topologies": 10, "topologies_without_packages": 5, "bindings": 20})
def c22(tier, seed):
    b = harness("numa", ["plain", "asan"])
    b["numa.nohwloc"] = Build("numa.cpp", "plain", hwloc=False)
    t = 2000 if tier == "thorough" else 100
    return b, [Run("numa.plain", topologies=t), Run("numa.plain", topologies=t), Run("numa.asan", topologies=t),
               Run("numa.nohwloc", topologies=t)]


@plan("C23", rule="all 256 basis states, random and sparse states, default and generator-seeded states: outputs of the "
      "real generator against a bit-wise reference, jumps against GF(2) powers of it; distinct = distinct states",
      require={"basis_states": 256, "outputs_compared": 100000, "jumps_compared": 900, "seedings": 500},
      note="stepping and jumping are linear, so the basis states decide the jump polynomials for every state as long as "
           "the code is linear; other states are sampled")
def c23(tier, seed):
    b = harness("rng", ["plain", "cplain", "asan", "o0"])
    a = dict(states=20000, len=2000) if tier == "thorough" else dict(states=300, len=400)
    return b, [Run("rng." + c, cores=1, **a) for c in ("plain", "cplain", "asan", "o0") for _ in range(2)]


@plan("C16", rule="random lives of eventually/try_eventually over 18 value, reference and void types in memory with arbitrary "
      "previous contents (failing conversions, assignment forms, stashed exceptions, reads in every value category, moves "
      "out) compared with a model, and programs that bind forked and called tasks (returning, throwing, failing to "
      "convert) to them; distinct = distinct (type, exception support, final state, assignment form)",
      require={"assignments": 5000, "exceptions_stashed": 1000, "failed_assignments": 300, "bound_programs": 3000,
               "tasks_that_threw": 5000})
def c16(tier, seed):
    b, runs = {}, []
    k = 12 if tier == "thorough" else 1
    for c, n, pools, rounds in [("plain1", 2, 12, 400), ("ndebug", 1, 12, 400), ("asan0", 1, 8, 300),
                                ("tsan", 1, 6, 100)]:
        for part in (0, 1):
            b["ev%d.%s" % (part, c)] = Build("ev.cpp", c, flags="-DVH_PART=%d" % part)
            runs += [Run("ev%d.%s" % (part, c), cores=2, pools=pools, rounds=rounds) for _ in range(n * k)]
    return b, runs


@plan("C14", rule="root tasks of six result types (void, value, move-only, reference, tracked) that return, throw, fork or "
      "fail to convert, started from 1-3 client threads on unit/busy/lazy/custom pools and through a scheduler that delays "
      "and reorders handles; 13 lives of a future (get, wait, drop, detach, move, swap, assign, containers, other threads), "
      "refusing schedulers, throwing argument copies, scheduling inside workers; distinct = distinct (pool kind, result "
      "type, life, predecessor)",
      require={"future_lives": 3000, "exceptions_delivered": 800, "values_delivered": 800, "refused_submissions": 200,
               "refused_in_worker": 2000, "failed_argument_copies": 50, "failed_function_copies": 50,
               "heap_balance_checks": 40})
def c14(tier, seed):
    b = harness("root", ["plain", "ndebug", "asan", "tsan"])
    k = 12 if tier == "thorough" else 1
    runs = []
    for c, n, pools, rounds in [("plain", 3, 16, 60), ("ndebug", 3, 16, 60), ("asan", 3, 12, 60), ("tsan", 2, 10, 40)]:
        runs += [Run("root." + c, cores=4, mode=1, pools=pools, rounds=rounds) for _ in range(n * k)]
    return b, runs


@plan("C15", rule="random histories of worker_init, finalize (own, foreign, null, repeated), repeated initialisation, hand "
      "driven work and scheduling on 1-3 threads compared with a model; in the heap-counting builds every allocation of an "
      "initialisation fails once; distinct = distinct histories",
      require={"failed_inits": 300, "double_init": 200, "double_finalize": 200, "foreign_finalize": 50, "finalizes": 1000,
               "work_done_by_hand": 500, "refused_in_worker": 100, "heap_balance_checks": 50})
def c15(tier, seed):
    b = harness("root", ["plain", "ndebug", "asan", "tsan"])
    k = 12 if tier == "thorough" else 1
    runs = []
    for c, n, rounds in [("plain", 2, 40), ("ndebug", 2, 40), ("asan", 2, 30), ("tsan", 2, 20)]:
        runs += [Run("root." + c, cores=4, mode=2, rounds=rounds) for _ in range(n * k)]
    return b, runs


@plan("C21", rule="every way of invoking (call, fork, eager and synchronous modifiers, just, lift, sync_wait, schedule, with "
      "every kind of result storage) of nine functions covering the argument and result categories, written as lambdas, "
      "call operators, members and externally compiled definitions, throwing or not before, after and amid forks, "
      "calls and context switches, compared with the plain function; distinct = distinct (way, function, behaviour, pool)",
      require={"invocations": 3000, "extern_invocations": 2000, "root_invocations": 1500, "threw": 2000,
               "reported_synchronous": 400, "reported_asynchronous": 100, "recursions": 500},
      note="the functions and their argument categories are a fixed set; inputs and schedules are sampled")
def c21(tier, seed):
    b, runs = {}, []
    full = tier == "thorough"
    for part in range(3):
        for c in ("plain", "asan") + (("tsan", "ndebug") if full else ("tsan",) if part == 0 else ()):
            n = "inv%d.%s" % (part, c)
            b[n] = Build(["inv.cpp", "inv_ext.cpp"], c, flags="-DVH_PART=%d" % part)
            runs += [Run(n, pools=16) for _ in range(10 if full else 1 if c == "tsan" else 2)]
    return b, runs


@plan("C24", level="fault_enumeration",
      rule="random programs of every kind of operation (forks, calls, modifiers, just, co_new, chains that make the queue grow, "
           "the algorithms, tasks that let the failure out) run once per allocation with that allocation refused, with it and "
           "all later ones refused, and with random refusals; root tasks likewise; random refusals on several workers; "
           "distinct = distinct (program, refused allocation)",
      require={"refused_once": 150, "refused_from_here": 150, "refused_at_random": 100, "parallel_refusals": 500,
               "refused.root": 100, "refused.call": 100, "refused.chain": 50, "refused.co_new": 50, "refused.eager call": 30,
               "refused.fork": 30, "refused.for_each": 10, "refused.map": 10, "refused.fold": 10, "refused.scan": 10,
               "refused.propagating": 50},
      assumptions=["workers' own allocations when they give a stack away are not refused (the library terminates then, by "
                   "design)", "allocations inside hwloc and for threads are not refused"],
      note="every allocation of sampled programs; requests are identified by their number, parallel programs only by chance")
def c24(tier, seed):
    b = harness("alloc", ["plain", "ndebug"])
    b["alloc.asan"] = Build("alloc.cpp", "asan", flags="-DVH_WRAP", link="-Wl,--wrap=malloc")
    k = 12 if tier == "thorough" else 1
    runs = []
    for c, n, programs in [("plain", 3, 40), ("ndebug", 2, 40), ("asan", 2, 20)]:
        runs += [Run("alloc." + c, cores=3, programs=programs, pools=programs) for _ in range(n * k)]
    return b, runs


@plan("C26", rule="scopes of 1 to 2^24 children, with every child (or a random number of them) made to move its parent to another "
                  "worker, some still running at the join; tens of thousands of scopes in one task and at once; distinct = "
                  "distinct (children, moves, held children, pool)",
      require={"forced_moves": 1000000, "scopes_past_2_16_moves": 20, "parked_children": 500000, "switching_parents": 20,
               "scopes_with_an_exception": 20, "exceptions_announced_before_the_join": 10,
               "max.parked_children_of_one_scope": 131073, "max.forced_moves_of_one_scope": 131073,
               "max.children_of_one_scope": 1 << 24, "consecutive_scopes": 100000, "simultaneous_scopes": 100000},
      note="counts beyond 2^24 children or 2^18 moves in one scope (2^20 in thorough) are not reached")
def c26(tier, seed):
    b = harness("many", ["plain", "ndebug", "asan", "tsan"])
    runs = []
    for c, n in [("plain", 1), ("ndebug", 2), ("asan", 1)]:
        runs += [Run("many." + c, cores=4, group=0, max=131073) for _ in range(n)]
        runs += [Run("many." + c, cores=4, group=1 + k % 2) for k in range(2)]
    runs += [Run("many.tsan", cores=4, group=0, max=66000), Run("many.tsan", cores=4, group=2, max=70000, extra=2)]
    if tier == "thorough":
        runs += [Run("many." + c, cores=5, group=g, max=1 << 20, extra=30, tmo=600)
                 for c in ("plain", "ndebug") for g in (0, 1, 2) for _ in range(4)]
    return b, runs


@plan("C25", rule="everything a program can observe deterministically (constraints, constants, generator, topology, queue "
                  "histories, random programs on one worker, results of the algorithms, exceptions) logged by one program built "
                  "against each distribution and compared; the monitored harnesses of the other properties built against the "
                  "single header, in one and in two translation units; distinct = distinct observations and executions",
      require={"observations_compared": 4500, "programs": 500, "tasks": 1000, "applications": 20000, "invocations": 500,
               "future_lives": 200, "forced_moves": 10000},
      note="drift that shows in none of these harnesses is not seen")
def c25(tier, seed):
    b = {"dist.modular": Build("dist.cpp", "plain"), "dist.plain": Build("dist.cpp", "plain", single=True),
         "dist.asan": Build("dist.cpp", "asan", single=True)}
    full = tier == "thorough"
    runs = []
    for n in range(60 if full else 5):
        runs.append(Run("dist.asan" if n % 5 == 4 else "dist.plain", cores=2, peer="dist.modular",
                        env={"HWLOC_SYNTHETIC": SYNTH[n % 4]} if n else {}))

    def add(name, src, cfg, flags="", n=1, **args):
        k = "%s.%s" % (name, cfg)
        b[k] = Build(src, cfg, flags=flags, single=True)
        for _ in range(n * (6 if full else 1)):
            runs.append(Run(k, cores=3, **args))

    for c in ("plain", "ndebug", "asan", "tsan") if full else ("ndebug", "tsan"):
        add("fj", "fj.cpp", c, feat=31, progs=24)
        add("fj", "fj.cpp", c, feat=7, progs=24)
        add("inv%d" % (seed % 3), ["inv.cpp", "inv_ext.cpp"], c, flags="-DVH_PART=%d" % (seed % 3), pools=10)
    for w in (1, 2, 3, 4):
        for c in ("plain1", "asan0") if full else (("asan0", "plain1")[w % 2],):
            p = (seed + 3 * w) % 8
            add("algo%d%d" % (w, p), "algo.cpp", c, flags="-DVH_ALGO=%d -DVH_PART=%d" % (w, p), throws=w % 2, pools=8, cases=80)
    for c in ("plain", "asan", "tsan") if full else ("plain",):
        add("root", "root.cpp", c, mode=1, pools=10, rounds=40)
        add("root", "root.cpp", c, mode=2, rounds=20)
        for mode in (1, 2, 3):
            add("life", "life.cpp", c, mode=mode, pools=8, rounds=30)
        add("deque", "deque.cpp", c, rounds=400)
        add("list", "list.cpp", c, rounds=400)
        add("ecount", "ecount.cpp", c, rounds=800)
        add("sched", "sched.cpp", c, rounds=60)
        add("mem", "mem.cpp", c, rounds=3, rate=0)
        add("many", "many.cpp", c, group=0, max=70000, extra=2)
        for part in (0, 1):
            add("ev%d" % part, "ev.cpp", "plain1" if c == "plain" else c, flags="-DVH_PART=%d" % part, pools=6, rounds=200)
        add("rng", "rng.cpp", "cplain" if c == "plain" else c, states=100, len=200)
        add("numa", "numa.cpp", c, topologies=40)
    add("alloc", "alloc.cpp", "plain", programs=16, pools=8)
    return b, runs
