// C24: every allocation of a program refused, one at a time, from some point on, and at random.
#include "pools.hpp"

using namespace vh;

#ifdef LF_FIBRE_INIT_SIZE
// Larger than what a worker allocates when it gives its stack away (which cannot be reported to anybody).
static constexpr size_t above_release = (((size_t)LF_FIBRE_INIT_SIZE + 128 + 4095) / 4096) * 4096 + 1;
#else
static constexpr size_t above_release = 4097;
#endif

static constexpr int max_tasks = 60000;

struct Rec {
  raw_atomic<uint8_t> started{0}, finished{0};
  raw_atomic<bool> threw{false};
  uint64_t val = 0;
};

struct Env {
  std::unique_ptr<Rec[]> rec{new Rec[max_tasks]};
  raw_atomic<int> next{0};
  raw_atomic<int> observed{0}; // operations that reported that memory was refused
  raw_atomic<int> active{0};
  raw_atomic<int> kinds{0}; // bit set of operations that failed
  raw_atomic<int> deep{0};
  bool single = false;
  int budget = 0;
  std::vector<int> data;
  int id() {
    int i = next.fetch_add(1);
    VH_CHECK(i < max_tasks, "harness-tasks", "too many tasks");
    return i;
  }
  void begin(int i) {
    VH_CHECK(rec[i].started.fetch_add(1) == 0, "ran-twice", "task %d started twice", i);
    progress();
  }
  void end(int i, uint64_t v) {
    rec[i].val = v;
    rec[i].finished.fetch_add(1);
  }
  void refused(int op) {
    observed.fetch_add(1);
    kinds.fetch_or(1 << op);
  }
  // An operation that should have started task i reported failure.
  void not_started(int i, int op) {
    refused(op);
    VH_CHECK(rec[i].started.load() == 0, "started-all-the-same", "operation %d reported bad_alloc but its task runs", op);
    rec[i].started.store(100); // must never start
  }
  void completed(int i) {
    VH_CHECK(rec[i].started.load() == 1 && rec[i].finished.load() == 1, "not-finished",
             "task %d: started %d finished %d after the join", i, rec[i].started.load(), rec[i].finished.load());
  }
};

enum op : int {
  o_fork,
  o_fork_ev,
  o_fork_discard,
  o_fork_sync,
  o_call,
  o_call_eager,
  o_just,
  o_co_new,
  o_chain,
  o_prop,
  o_for_each,
  o_map,
  o_fold,
  o_scan,
  o_root,
  o_count
};
static char const *op_name[] = {"fork",    "fork(eventually)", "fork()",   "sync fork", "call", "eager call", "just", "co_new",
                                "chain",   "propagating",      "for_each", "map",       "fold", "scan",       "root"};

template <size_t S>
struct node_t;

struct Applied {
  raw_atomic<int> applied{0}, running{0};
};
struct Cell {
  int v;
  Applied *run;
  Cell operator+(Cell o) const { return {v + o.v, run}; }
};
inline constexpr auto slow_inc = [](auto, Cell &x) -> lf::task<> {
  x.run->running.fetch_add(1);
  ++x.v;
  x.run->applied.fetch_add(1);
  x.run->running.fetch_sub(1);
  co_return;
};
inline constexpr auto slow_next = [](auto, Cell const &x) -> lf::task<Cell> {
  x.run->applied.fetch_add(1);
  co_return Cell{x.v + 1, x.run};
};
inline constexpr auto slow_add = [](auto, Cell x, Cell y) -> lf::task<Cell> {
  x.run->running.fetch_add(1);
  x.run->running.fetch_sub(1);
  co_return Cell{x.v + y.v, x.run};
};

// A function object that makes the frames that hold a copy large.
template <int K>
struct Fat {
  uint64_t w[44];
  Fat() {
    for (int i = 0; i < 44; ++i) {
      w[i] = 1000 + (uint64_t)i * K;
    }
  }
  decltype(auto) operator()(Cell &x) const {
    VH_CHECK(w[0] == 1000 && w[43] == 1000 + 43ull * K, "function-overwritten", "a function object changed");
    if constexpr (K == 1) {
      return (x); // a projection
    } else {
      x.run->applied.fetch_add(1);
      return Cell{x.v + 1, x.run};
    }
  }
};

// Memory that is neither counted nor refused.
struct raw_block {
  void *p;
  size_t n;
  explicit raw_block(size_t k) : n(k) {
    t_exempt = true;
    p = raw_alloc<char>{}.allocate(n);
    t_exempt = false;
  }
  raw_block(raw_block &&) = delete;
  ~raw_block() { raw_alloc<char>{}.deallocate((char *)p, n); }
};

// Forks itself n times: the queue of the worker has to grow.
inline constexpr auto chain = [](auto self, Env *e, int id, int n, Tracked arg) -> lf::task<uint64_t> {
  e->begin(id);
  uint64_t v = 1;
  if (n > 0) {
    int c = e->id();
    uint64_t r = 77;
    bool ok = true;
    try {
      co_await lf::fork(&r, self)(e, c, n - 1, arg);
    } catch (std::bad_alloc const &) {
      ok = false;
      e->not_started(c, o_chain);
      if (n + 1000 < e->budget) {
        e->deep.fetch_add(1);
      }
    }
    co_await lf::join;
    if (ok) {
      e->completed(c);
      VH_CHECK(r == e->rec[c].val, "wrong-value", "result of a chain");
      v += r;
    } else {
      VH_CHECK(r == 77, "wrong-value", "result of a task that was not started");
    }
  }
  VH_CHECK(arg.get() == 5, "argument", "changed");
  e->end(id, v);
  co_return v;
};

inline constexpr auto leaf = [](auto, Env *e, int id, Tracked arg) -> lf::task<uint64_t> {
  e->begin(id);
  e->end(id, arg.get());
  co_return arg.get();
};

// Lets the failure of its own operations out.
inline constexpr auto prop = [](auto, Env *e, int id, size_t n, Tracked arg) -> lf::task<uint64_t> {
  e->begin(id);
  struct guard {
    Env *e;
    int id;
    bool ok = false;
    ~guard() {
      e->rec[id].threw.store(!ok);
      e->end(id, 9);
    }
  } at_end{e, id};
  auto a = co_await lf::co_new<Tracked>(n);
  auto &[sa] = a;
  sa[0] = Tracked{3};
  uint64_t r = 0;
  int c = e->id();
  co_await lf::call(&r, leaf)(e, c, arg);
  co_await lf::join;
  e->completed(c);
  auto b = co_await lf::co_new<uint64_t>(n * 3);
  VH_CHECK(sa[0].get() == 3, "co_new-overwritten", "storage changed");
  at_end.ok = true;
  co_return 9;
};

struct core_t {
  auto operator()(auto self, Env *e, int depth, uint64_t seed, Tracked arg) const -> lf::task<uint64_t>;
};

template <size_t S>
struct node_t {
  auto operator()(auto self, Env *e, int id, int depth, uint64_t seed, Tracked arg) const -> lf::task<uint64_t> {
    unsigned char pad[S];
    pad[0] = (unsigned char)seed;
    pad[S - 1] = (unsigned char)(seed >> 8);
    asm volatile("" : : "r"(pad) : "memory");
    e->begin(id);
    uint64_t v = seed;
    if (depth > 0) {
      try {
        co_await lf::call(&v, core_t{})(e, depth, seed, arg);
      } catch (std::bad_alloc const &) {
        e->refused(o_call);
      }
      co_await lf::join;
    }
    asm volatile("" : : "r"(pad) : "memory");
    VH_CHECK(pad[0] == (unsigned char)seed && pad[S - 1] == (unsigned char)(seed >> 8), "frame-overwritten", "locals");
    VH_CHECK(arg.get() == 5, "argument", "changed");
    e->end(id, v);
    co_return v;
  }
};

inline constexpr auto algorithms = [](auto, Env *e, unsigned o, uint64_t s) -> lf::task<> {
  bool fat = !e->single && ((s >> 18) & 1);
  size_t m = 1 + (s >> 20) % (fat ? 4000 : 40), chunk = 1 + (s >> 8) % 6;
  Applied ap;
  raw_block block(m * sizeof(Cell));
  Cell *d = (Cell *)block.p;
  for (size_t i = 0; i < m; ++i) {
    d[i] = Cell{0, &ap};
  }
  bool threw = false;
  int64_t before = h_failed.load();
  auto inc = [](Cell &x) {
    ++x.v;
    x.run->applied.fetch_add(1);
  };
  auto next = [](Cell x) {
    x.run->applied.fetch_add(1);
    return Cell{x.v + 1, x.run};
  };
  int sum = 0;
  bool async = (s >> 16) & 1, by_one = (s >> 17) & 1;
  try {
    if (o == o_for_each) {
      if (async) {
        co_await lf::just(lf::for_each)(d, d + m, (int)chunk, slow_inc);
      } else if (by_one) {
        co_await lf::just(lf::for_each)(d, d + m, inc);
      } else {
        co_await lf::just(lf::for_each)(d, d + m, (int)chunk, inc);
      }
    } else if (o == o_map) {
      if (async) {
        co_await lf::just(lf::map)(d, d + m, d, slow_next);
      } else {
        co_await lf::just(lf::map)(d, d + m, d, (int)chunk, next);
      }
    } else if (o == o_fold) {
      if (async) {
        auto r = co_await lf::just(lf::fold)(d, d + m, (int)chunk, slow_add, next);
        sum = r.value().v;
      } else {
        auto r = co_await lf::just(lf::fold)(d, d + m, (int)chunk, std::plus<>{}, next);
        sum = r.value().v;
      }
    } else {
      if (async) {
        co_await lf::just(lf::scan)(d, d + m, d, (int)chunk, slow_add, next);
      } else {
        co_await lf::just(lf::scan)(d, d + m, d, (int)chunk, std::plus<>{}, next);
      }
    }
  } catch (std::bad_alloc const &) {
    threw = true;
    e->refused((int)o);
  }
  VH_CHECK(ap.running.load() == 0, "still-running", "%s left applications running", op_name[o]);
  VH_CHECK(!e->single || threw == (h_failed.load() > before), "refusal-lost",
           "%s: threw=%d although %lld allocations were refused", op_name[o], threw,
           (long long)(h_failed.load() - before));
  int lim = o == o_scan ? 2 : 1;
  VH_CHECK(ap.applied.load() <= lim * (int)m, "applied-twice", "%s", op_name[o]);
  if (!threw) {
    VH_CHECK(o == o_scan || ap.applied.load() == (int)m, "not-applied", "%s applied to %d of %zu", op_name[o],
             ap.applied.load(), m);
    for (size_t i = 0; i < m; ++i) {
      int want = o == o_fold ? 0 : o == o_scan ? (int)i + 1 : 1;
      VH_CHECK(d[i].v == want, "wrong-value", "%s: element %zu is %d (fat %d async %d)", op_name[o],
               i, d[i].v, fat, async);
    }
    VH_CHECK(o != o_fold || sum == (int)m, "wrong-value", "fold: %d", sum);
  } else if (o == o_for_each) {
    for (size_t i = 0; i < m; ++i) {
      VH_CHECK(d[i].v == 0 || d[i].v == 1, "applied-twice", "for_each");
    }
  }
};

// Storage that is held across a call.
inline constexpr auto storage = [](auto, Env *e, int depth, uint64_t s, Tracked arg) -> lf::task<> {
  static constexpr size_t counts[] = {1, 30, 200, 900, 5000};
  size_t m = counts[s % 5];
  int64_t before = h_failed.load();
  bool threw = false;
  try {
    auto a = co_await lf::co_new<Tracked>(m);
    auto &[sa] = a;
    VH_CHECK(!e->single || h_failed.load() == before, "refusal-lost", "co_new did not report a refused allocation");
    VH_CHECK(sa.size() == m, "co_new-size", "wrong size");
    sa[0] = Tracked{s};
    sa[m - 1] = Tracked{s};
    int d = e->id();
    uint64_t r = 77;
    bool ok2 = true;
    try {
      co_await lf::call(&r, node_t<16>{})(e, d, depth - 1, s, arg);
    } catch (std::bad_alloc const &) {
      ok2 = false;
      e->not_started(d, o_call);
    }
    VH_CHECK(sa[0].get() == s && sa[m - 1].get() == s, "co_new-overwritten", "co_new storage changed");
    if (ok2) {
      e->completed(d);
      VH_CHECK(r == e->rec[d].val, "wrong-value", "a call below co_new");
    }
  } catch (std::bad_alloc const &) {
    threw = true;
    e->refused(o_co_new);
  }
  VH_CHECK(!e->single || !threw || h_failed.load() > before, "spurious-bad_alloc", "nothing was refused");
  co_await lf::join;
};

auto core_t::operator()(auto self, Env *e, int depth, uint64_t seed, Tracked arg) const -> lf::task<uint64_t> {
    rng g(seed);
    uint64_t v = seed;
    int n = depth > 0 ? (int)g.range(1, 5) : 0;
    int forked[8] = {}, nf = 0;
    uint64_t res[8];
    lf::eventually<uint64_t> ev[8];
    bool is_ev[8] = {}, no_res[8] = {};
    for (int k = 0; k < n; ++k) {
      unsigned o = (unsigned)g.below(o_root);
      uint64_t s = g.u64();
      int c = -1;
      bool ok = true;
      unsigned size = (unsigned)(s % 3);
      res[k] = 77;
      switch (o) {
#define NODE(BIND)                                                                                                   \
  c = e->id();                                                                                                       \
  try {                                                                                                              \
    if (size == 0) {                                                                                                 \
      co_await BIND(node_t<16>{})(e, c, depth - 1, s, arg);                                                          \
    } else if (size == 1) {                                                                                          \
      co_await BIND(node_t<1500>{})(e, c, depth - 1, s, arg);                                                        \
    } else {                                                                                                         \
      co_await BIND(node_t<7000>{})(e, c, depth - 1, s, arg);                                                        \
    }                                                                                                                \
  } catch (std::bad_alloc const &) {                                                                                 \
    ok = false;                                                                                                      \
    e->not_started(c, (int)o);                                                                                       \
  }
#define B_FORK(f) lf::fork(&res[k], f)
#define B_EV(f) lf::fork(&ev[k], f)
#define B_DISCARD(f) lf::fork(f)
#define B_SYNC(f) lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>(&res[k], f)
#define B_CALL(f) lf::call(&res[k], f)
#define B_EAGER(f) lf::dispatch<lf::tag::call, lf::modifier::eager_throw>(&res[k], f)
        case o_fork:
          NODE(B_FORK)
          break;
        case o_fork_ev:
          is_ev[k] = true;
          NODE(B_EV)
          break;
        case o_fork_discard:
          no_res[k] = true;
          NODE(B_DISCARD)
          break;
        case o_fork_sync:
          c = e->id();
          try {
            bool done = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>(&res[k], leaf)(e, c, arg);
            VH_CHECK(!done || e->rec[c].finished.load() == 1, "false-synchronous", "not done");
          } catch (std::bad_alloc const &) {
            ok = false;
            e->not_started(c, (int)o);
          }
          break;
        case o_call:
          NODE(B_CALL)
          break;
        case o_call_eager:
          NODE(B_EAGER)
          break;
        case o_just:
          c = e->id();
          try {
            res[k] = co_await lf::just(node_t<16>{})(e, c, depth - 1, s, arg);
          } catch (std::bad_alloc const &) {
            ok = false;
            e->not_started(c, (int)o);
          }
          break;
        case o_co_new:
          try {
            co_await lf::call(storage)(e, depth, s, arg);
          } catch (std::bad_alloc const &) {
            e->refused(o_call);
          }
          continue;
        case o_chain:
          c = e->id();
          try {
            co_await lf::fork(&res[k], chain)(e, c, e->budget ? (int)g.range(20, e->budget) : 20, Tracked{5});
          } catch (std::bad_alloc const &) {
            ok = false;
            e->not_started(c, (int)o);
          }
          break;
        case o_prop: {
          c = e->id();
          try {
            co_await lf::fork(&res[k], prop)(e, c, 1 + s % 700, arg);
          } catch (std::bad_alloc const &) {
            ok = false;
            e->not_started(c, (int)o);
          }
          bool at_join = false;
          try {
            co_await lf::join;
          } catch (std::bad_alloc const &) {
            at_join = true;
          }
          if (ok) {
            e->completed(c);
            VH_CHECK(at_join == e->rec[c].threw.load(), "exception-differs", "thrown by a child: %d at the join: %d", !at_join,
                     at_join);
            if (at_join) {
              e->refused(o_prop);
              VH_CHECK(res[k] == 77, "wrong-value", "a result of a task that threw");
              continue;
            }
          } else {
            VH_CHECK(!at_join, "exception-differs", "an exception of nobody");
          }
          break;
        }
        default:
          try {
            co_await lf::call(algorithms)(e, o, s);
          } catch (std::bad_alloc const &) {
            e->refused(o_call);
          }
          continue;
      }
      if (ok) {
        forked[nf++] = k + 1 + (c << 4);
      } else {
        VH_CHECK(res[k] == 77 && ev[k].empty(), "wrong-value", "%s: a result of a task that was not started", op_name[o]);
      }
    }
    co_await lf::join;
    for (int i = 0; i < nf; ++i) {
      int k = (forked[i] & 15) - 1, c = forked[i] >> 4;
      e->completed(c);
      uint64_t w = e->rec[c].val;
      if (is_ev[k]) {
        VH_CHECK(!ev[k].empty() && *ev[k] == w, "wrong-value", "result of task %d", c);
      } else if (!no_res[k]) {
        VH_CHECK(res[k] == w, "wrong-value", "result %llu of task %d instead of %llu", (unsigned long long)res[k], c,
                 (unsigned long long)w);
      }
      v = hcombine(v, w);
    }
    VH_CHECK(arg.get() == 5, "argument", "changed");
    co_return v;
}

struct Refuse {
  int64_t at;
  bool all;
  unsigned rate; // per 1024, instead of `at`
  uint64_t seed;
};

// The root task of the single-worker programs arms its worker while the program runs.
inline constexpr auto armed_root = [](auto, Env *e, Refuse const *f, int depth, uint64_t seed) -> lf::task<uint64_t> {
  uint64_t v = 0;
  int c = e->id();
  {
    Tracked a{5};
    inject_scope in(f->at, f->all);
    h_fail_rate.store(f->rate);
    h_fail_seed.store(f->seed);
    try {
      co_await lf::call(&v, node_t<16>{})(e, c, depth, seed, a);
    } catch (std::bad_alloc const &) {
      e->not_started(c, o_call);
    }
    h_fail_rate.store(0);
  }
  co_await lf::join;
  co_return v;
};
inline constexpr auto plain_root = [](auto, Env *e, int depth, uint64_t seed) -> lf::task<uint64_t> {
  uint64_t v = 0;
  int c = e->id();
  Tracked a{5};
  try {
    co_await lf::call(&v, node_t<16>{})(e, c, depth, seed, a);
  } catch (std::bad_alloc const &) {
    e->not_started(c, o_call);
  }
  co_await lf::join;
  co_return v;
};
inline constexpr auto check_task = [](auto self, unsigned n) -> lf::task<uint64_t> {
  uint64_t a = 1, b = 0;
  if (n > 0) {
    co_await lf::fork(&a, self)(n - 1);
    co_await lf::call(&b, self)(n - 1);
    co_await lf::join;
  }
  co_return a + b;
};

static void after(Env &e) {
  int n = std::min(e.next.load(), max_tasks);
  for (int i = 0; i < n; ++i) {
    int s = e.rec[i].started.load(), f = e.rec[i].finished.load();
    VH_CHECK((s == 1 && f == 1) || (s == 100 && f == 0) || (s == 0 && f == 0), "task-lost", "task %d: started %d finished %d",
             i, s, f);
  }
}
static void note_kinds(Env &e) {
  count("refused.deep_in_a_chain", e.deep.exchange(0));
  for (int i = 0; i < o_count; ++i) {
    if (e.kinds.load() >> i & 1) {
      count(std::string("refused.") + op_name[i]);
    }
  }
}

static void census(int64_t live, int64_t heap, char const *what) {
  VH_CHECK(g_census.live.load() == live, "object-leak", "%s: %lld objects are left", what,
           (long long)(g_census.live.load() - live));
  if constexpr (heap_active) {
    for (int i = 0; heap_live() != heap; ++i) { // exiting threads may still be releasing
      VH_CHECK(i < 3000, "memory-leak", "%s: %lld heap blocks are left", what, (long long)(heap_live() - heap));
      timespec ts{0, 1'000'000};
      nanosleep(&ts, nullptr);
    }
  }
}

// ------------------------------------------------------------------ inside tasks, one worker

static uint64_t single(Env &e, any_pool::kind_t k, Refuse f, int depth, uint64_t seed) {
  int64_t live = g_census.live.load(), heap = heap_live();
  uint64_t v;
  {
    any_pool pool(k, 1, seed);
    {
      watch w;
      v = lf::sync_wait(pool, armed_root, &e, &f, depth, seed);
      VH_CHECK(lf::sync_wait(pool, check_task, 6u) == 64, "wrong-value", "the pool does not work any more");
    }
  }
  after(e);
  census(live, heap, "a program");
  return v;
}

static void reset(Env &e) {
  int n = std::min(e.next.load(), max_tasks);
  for (int i = 0; i < n; ++i) {
    e.rec[i].started.store(0);
    e.rec[i].finished.store(0);
    e.rec[i].threw.store(false);
  }
  e.next.store(0);
  e.observed.store(0);
  e.kinds.store(0);
}

static void enumerate_program(Env &e, rng &g) {
  auto k = (any_pool::kind_t)g.below(4);
  int depth = (int)g.range(2, 4);
  e.budget = g.chance(1, 3) ? 3000 : 40;
  e.single = true;
  uint64_t seed;
  int64_t total;
  uint64_t v0;
  // A program of a reasonable size.
  for (;;) {
    seed = g.u64();
    set_case("program %llx depth %d budget %d", (unsigned long long)seed, depth, e.budget);
    reset(e);
    v0 = single(e, k, Refuse{-1, false, 0, 0}, depth, seed);
    total = h_seq.load();
    VH_CHECK(e.observed.load() == 0, "spurious-bad_alloc", "memory was refused by nobody");
    if (total >= 3 && e.next.load() < 20000) {
      break;
    }
  }
  count("programs");
  count("allocations", (double)total);
  static unsigned const rates[] = {20, 100, 300, 700};
  int64_t step = total > 60 ? (total + 59) / 60 : 1, off = (int64_t)g.below((uint64_t)step);
  for (int64_t at = off; at < total; at += step) {
    for (int all = 0; all < 2; ++all) {
      set_case("program %llx depth %d budget %d on %d: allocation %lld of %lld refused%s", (unsigned long long)seed, depth,
               e.budget, (int)k, (long long)at, (long long)total, all ? " and all later ones" : "");
      reset(e);
      single(e, k, Refuse{at, all != 0, 0, 0}, depth, seed);
      VH_CHECK(h_failed.load() >= 1, "nondeterministic", "allocation %lld did not happen", (long long)at);
      VH_CHECK(e.observed.load() >= 1, "refusal-lost", "nobody learned that an allocation was refused");
      if (!all) {
        VH_CHECK(e.observed.load() == 1, "refusal-twice", "one refused allocation was reported %d times", e.observed.load());
      }
      note_kinds(e);
      count(all ? "refused_from_here" : "refused_once");
      evaluation();
      distinct(hcombine(seed, (uint64_t)at * 2 + (uint64_t)all));
    }
  }
  for (unsigned r : rates) {
    uint64_t fs = g.u64();
    set_case("program %llx depth %d budget %d on %d: random refusals rate %u seed %llx", (unsigned long long)seed, depth,
             e.budget, (int)k, r, (unsigned long long)fs);
    reset(e);
    single(e, k, Refuse{-1, false, r, fs}, depth, seed);
    VH_CHECK((e.observed.load() > 0) == (h_failed.load() > 0), "refusal-lost", "%d reports of %lld refusals",
             e.observed.load(), (long long)h_failed.load());
    note_kinds(e);
    count("refused_at_random");
    evaluation();
    distinct(hcombine(seed, fs));
  }
  (void)v0;
}

// ------------------------------------------------------------------ starting root tasks

struct Big {
  Tracked t;
  unsigned char b[3000];
};
inline constexpr auto root_task = [](auto, int *ran, Tracked a, Big const &b, int kind) -> lf::task<uint64_t> {
  *ran += 1;
  if (kind == 1) {
    throw Exc{4};
  }
  co_return a.get() + b.t.get();
};
static void roots(any_pool::kind_t k, rng &g) {
  int64_t live = g_census.live.load(), heap = heap_live();
  {
    any_pool pool(k, (size_t)g.range(1, 4), g.u64());
    for (int how = 0; how < 3; ++how) {
      for (int64_t at = 0;; ++at) {
        set_case("%s: %s with allocation %lld refused", pool.name.c_str(),
                 how == 0 ? "sync_wait" : how == 1 ? "schedule" : "detach", (long long)at);
        int ran = 0;
        Big b;
        b.t = Tracked{3};
        bool threw = false;
        uint64_t r = 0;
        int64_t inside = g_census.live.load();
        watch w;
        bool all = g.chance(1, 3);
        std::optional<lf::future<uint64_t>> fut;
        {
          inject_scope in(at, all);
          try {
            if (how == 0) {
              Tracked a{4};
              // The result is fetched only after the injection is over: exceptions of tasks need memory too.
              fut.emplace(lf::schedule(pool, root_task, &ran, a, b, 0));
            } else if (how == 1) {
              fut.emplace(lf::schedule(pool, root_task, &ran, Tracked{4}, b, (int)(at % 2)));
            } else {
              fut.emplace(lf::schedule(pool, root_task, &ran, Tracked{4}, std::as_const(b), 0));
            }
          } catch (std::bad_alloc const &) {
            threw = true;
          }
        }
        bool refused = h_failed.load() > 0;
        VH_CHECK(threw == refused, "refusal-lost", "refused=%d threw=%d", refused, threw);
        if (!threw) {
          try {
            r = fut->get();
            VH_CHECK(r == 7, "wrong-value", "%llu", (unsigned long long)r);
          } catch (Exc const &x) {
            VH_CHECK(how == 1 && at % 2 == 1, "exception-differs", "unexpected exception");
          }
          VH_CHECK(ran == 1, "ran-twice", "ran %d times", ran);
        } else {
          count("refused.root");
          distinct(hcombine((uint64_t)k * 8 + how, (uint64_t)at * 2 + all));
          // The same thread can start work at once.
          VH_CHECK(lf::sync_wait(pool, check_task, 3u) == 8, "wrong-value", "the next root task");
          VH_CHECK(ran == 0, "started-all-the-same", "a root task that could not be started ran");
        }
        fut.reset();
        for (int i = 0; g_census.live.load() != inside; ++i) {
          VH_CHECK(i < 3000, "object-leak", "%lld objects are left", (long long)(g_census.live.load() - inside));
          timespec ts{0, 1'000'000};
          nanosleep(&ts, nullptr);
        }
        evaluation();
        if (!threw) {
          break;
        }
      }
    }
  }
  census(live, heap, "root tasks");
}

// ------------------------------------------------------------------ several workers

static void several(Env &e, rng &g) {
  int64_t live = g_census.live.load(), heap = heap_live();
  {
    any_pool pool((any_pool::kind_t)g.range(1, 3), (size_t)g.range(2, 6), g.u64());
    for (int k = 0; k < 12; ++k) {
      uint64_t seed = g.u64(), fs = g.u64();
      int depth = (int)g.range(3, 4);
      e.budget = g.chance(1, 4) ? 3000 : 30;
      e.single = false;
      static unsigned const rates[] = {0, 100, 300, 700, 1024};
      unsigned rate = rates[g.below(5)];
      reset(e);
      set_case("%s: program %llx depth %d budget %d refusals %u/1024 seed %llx", pool.name.c_str(), (unsigned long long)seed,
               depth, e.budget, rate, (unsigned long long)fs);
      watch w;
      {
        auto one = [&] {
          return lf::schedule(pool, plain_root, &e, depth, seed);
        };
        auto fut = one();
        {
          inject_scope in(-1, false, true, above_release);
          h_fail_seed.store(fs);
          h_fail_rate.store(rate);
          fut.wait();
          h_fail_rate.store(0);
        }
        fut.get();
      }
      VH_CHECK(rate != 0 || e.observed.load() == 0, "spurious-bad_alloc", "memory was refused by nobody");
      VH_CHECK(e.observed.load() == 0 || h_failed.load() > 0, "spurious-bad_alloc", "memory was refused by nobody");
      VH_CHECK(h_failed.load() == 0 || e.observed.load() > 0, "refusal-lost", "nobody learned of a refused allocation");
      after(e);
      count("parallel_refusals", (double)h_failed.load());
      note_kinds(e);
      VH_CHECK(lf::sync_wait(pool, check_task, 7u) == 128, "wrong-value", "the pool does not work any more");
      evaluation();
      distinct(hcombine(seed, fs));
      count("parallel_programs");
    }
  }
  census(live, heap, "parallel programs");
}

int main(int argc, char **argv) {
  init(argc, argv);
  rng g((uint64_t)arg("seed", 1));
  int programs = (int)arg("programs", 10), pools = (int)arg("pools", 10);
  Env e;
  {
    // Warm up what the C and C++ libraries keep.
    any_pool p(any_pool::busy, 2, 1);
    lf::sync_wait(p, check_task, 5u);
  }
  for (int i = 0; i < programs; ++i) {
    set_delays(g.u64(), 0, 0);
    enumerate_program(e, g);
    roots((any_pool::kind_t)(i % 4), g);
  }
  for (int i = 0; i < pools; ++i) {
    static unsigned const rates[] = {0, 400, 60};
    set_delays(g.u64(), rates[g.below(3)], (unsigned)g.below(3));
    several(e, g);
  }
  finish();
}
