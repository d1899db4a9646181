// The library's own pools: waking and sleeping (mode 1), construction / destruction / moves (mode 2), pick-up of
// available work (mode 3).
#include "pools.hpp"

using namespace vh;

struct to_ctx {
  lf::worker_context *c;
  void schedule(lf::submit_handle h) { c->schedule(h); }
};

// ------------------------------------------------------------------ tasks

struct Counters {
  raw_atomic<uint64_t> leaves{0}, started{0}, finished{0};
};

inline constexpr auto tree = [](auto self, Counters *c, unsigned depth) -> lf::task<uint64_t> {
  progress();
  if (depth == 0) {
    c->leaves.fetch_add(1, std::memory_order_relaxed);
    co_return 1;
  }
  uint64_t a = 0, b = 0;
  co_await lf::fork(&a, self)(c, depth - 1);
  co_await lf::call(&b, self)(c, depth - 1);
  co_await lf::join;
  co_return a + b;
};

inline constexpr auto whoami = [](auto) -> lf::task<int> {
  co_return (int)gettid();
};

struct Meet {
  raw_atomic<unsigned> arrived{0};
  unsigned need = 0;
  uint32_t who[64] = {};
  void meet() {
    unsigned i = arrived.fetch_add(1);
    if (i < 64) {
      who[i] = thread_no();
    }
    progress_now();
    for (unsigned k = 0; arrived.load() < need; ++k) {
      if (k > 200) {
        sched_yield();
      }
    }
  }
};

inline constexpr auto meet_one = [](auto, Meet *m) -> lf::task<> {
  m->meet();
  co_return;
};

// k tasks meet: a chain of forks, or a binary tree.
inline constexpr auto meet_chain = [](auto, Meet *m, unsigned k) -> lf::task<> {
  for (unsigned i = 0; i + 1 < k; ++i) {
    co_await lf::fork(meet_one)(m);
  }
  co_await lf::call(meet_one)(m);
  co_await lf::join;
};
// Submitted to a worker of its own: only once all of these have started may tasks be forked that idle workers pick up
// (a worker that picked one up would never get to its own submission).
inline constexpr auto meet_root = [](auto, Meet *m, raw_atomic<unsigned> *started, unsigned roots,
                                     unsigned k) -> lf::task<> {
  started->fetch_add(1);
  progress_now();
  while (started->load() < roots) {
    sched_yield();
  }
  co_await lf::call(meet_chain)(m, k);
  co_await lf::join;
};
inline constexpr auto meet_tree = [](auto self, Meet *m, unsigned k) -> lf::task<> {
  if (k == 1) {
    m->meet();
    co_return;
  }
  co_await lf::fork(self)(m, k / 2);
  co_await lf::call(self)(m, k - k / 2);
  co_await lf::join;
};

// The child spins until the continuation of its parent runs (elsewhere).
struct Handover {
  raw_atomic<bool> taken{false};
  int child = 0, cont = 0;
};
inline constexpr auto hand_child = [](auto, Handover *h) -> lf::task<> {
  h->child = gettid();
  progress_now();
  for (unsigned k = 0; !h->taken.load(); ++k) {
    if (k > 200) {
      sched_yield();
    }
  }
  co_return;
};
inline constexpr auto handover = [](auto, Handover *h) -> lf::task<> {
  co_await lf::fork(hand_child)(h);
  h->cont = gettid();
  h->taken.store(true);
  progress_now();
  co_await lf::join;
};

struct Block {
  raw_atomic<unsigned> in{0}, out{0};
  raw_atomic<bool> release{false};
};
inline constexpr auto blocker = [](auto, Block *b) -> lf::task<> {
  b->in.fetch_add(1);
  progress_now();
  for (unsigned k = 0; !b->release.load(); ++k) {
    if (k > 200) {
      sched_yield();
    }
  }
  b->out.fetch_add(1);
  co_return;
};

// Visits workers by switching to them one after the other.
inline constexpr auto tour = [](auto, std::span<lf::worker_context *> ctx, uint64_t seed, unsigned hops,
                                int const *tids) -> lf::task<uint64_t> {
  uint64_t n = 0;
  for (unsigned i = 0; i < hops; ++i) {
    size_t t = mix(seed + i) % ctx.size();
    co_await lf::resume_on(ctx[t]);
    VH_CHECK(tids[t] == gettid(), "wrong-worker", "resume_on(%zu) continued on another thread", t);
    progress();
    ++n;
  }
  co_return n;
};

// ------------------------------------------------------------------ helpers

static std::string pool_str(char const *kind, size_t n, lf::numa_strategy s) {
  return std::string(kind) + "[" + std::to_string(n) + (s == lf::numa_strategy::fan ? ",fan]" : ",seq]");
}

template <class Pool>
static std::vector<int> worker_tids(Pool &pool) {
  std::vector<int> r;
  watch w;
  for (auto *c : pool.contexts()) {
    to_ctx s{c};
    r.push_back(lf::sync_wait(s, whoami));
  }
  for (size_t i = 0; i < r.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      VH_CHECK(r[i] != r[j], "wrong-worker", "two workers share a thread");
    }
  }
  return r;
}

// Waits until all the threads sleep; a thread that burns `limit` seconds of processor time instead is reported.
static bool wait_asleep(std::vector<int> const &tids, double limit, bool judge) {
  std::vector<thread_info> start(tids.size());
  for (size_t i = 0; i < tids.size(); ++i) {
    read_thread(tids[i], start[i]);
  }
  double t0 = now_s();
  for (;;) {
    bool all = true;
    for (size_t i = 0; i < tids.size(); ++i) {
      thread_info ti;
      if (!read_thread(tids[i], ti)) {
        continue;
      }
      all = all && ti.state == 'S';
      VH_CHECK(!judge || ti.cpu - start[i].cpu < limit, "idle-spinning",
               "worker %zu consumed %.1f s of processor time without anything to do", i, ti.cpu - start[i].cpu);
    }
    progress_now();
    if (all) {
      return true;
    }
    if (!judge && now_s() - t0 > 0.5) {
      return false;
    }
    timespec ts{0, 200'000};
    nanosleep(&ts, nullptr);
  }
}

static void pause_us(uint64_t us) {
  timespec ts{0, (long)us * 1000};
  nanosleep(&ts, nullptr);
}

// ------------------------------------------------------------------ mode 1: waking and sleeping

// k tasks that all wait for each other, made available one after the other.
struct Chain {
  unsigned k = 0, gap = 0;
  raw_atomic<unsigned> in{0};
};
inline constexpr auto meeter = [](auto, Chain *m) -> lf::task<> {
  m->in.fetch_add(1);
  progress_now();
  for (unsigned i = 0; m->in.load() < m->k; ++i) {
    if (i > 200) {
      sched_yield();
    }
  }
  co_return;
};
inline constexpr auto meeting = [](auto, Chain *m) -> lf::task<> {
  for (unsigned i = 0; i < m->k; ++i) {
    co_await lf::fork(meeter)(m);
    if (m->gap) {
      pause_us(m->gap);
    }
  }
  co_await lf::join;
};

static void waking(rng &g, int phases) {
  size_t n = (size_t)g.range(1, 8);
  auto strat = g.chance(1, 2) ? lf::numa_strategy::fan : lf::numa_strategy::seq;
  lf::lazy_pool pool(n, strat);
  auto ctx = pool.contexts();
  std::vector<int> tids = worker_tids(pool);
  std::mutex mtx; // pool.schedule is not thread-safe
  struct serial {
    lf::lazy_pool *p;
    std::mutex *m;
    void schedule(lf::submit_handle h) {
      std::lock_guard lk(*m);
      p->schedule(h);
    }
  };
  Counters cnt;
  uint64_t leaves = 0;
  for (int ph = 0; ph < phases; ++ph) {
    unsigned before = (unsigned)g.below(6);
    switch (before) {
      case 0:
      case 1:
        count(wait_asleep(tids, 5, true) ? "all_asleep_before_submission" : "not_asleep");
        break;
      case 2: // falling asleep
        pause_us(g.below(80));
        break;
      case 3:
        for (uint64_t k = g.below(4000); k; --k) {
          asm volatile("pause");
        }
        break;
      default:
        break;
    }
    unsigned what = (unsigned)g.below(6);
    uint64_t s = g.u64();
    watch w;
    switch (what) {
      case 0: { // one submission through the pool
        unsigned d = (unsigned)g.below(6);
        VH_CHECK(lf::sync_wait(pool, tree, &cnt, d) == (1ull << d), "wrong-value", "wrong result");
        leaves += 1ull << d;
        count("single_submissions");
        break;
      }
      case 1: { // directly to one worker
        to_ctx sch{ctx[g.below(n)]};
        unsigned d = (unsigned)g.below(4);
        VH_CHECK(lf::sync_wait(sch, tree, &cnt, d) == (1ull << d), "wrong-value", "wrong result");
        leaves += 1ull << d;
        count("direct_submissions");
        break;
      }
      case 2: { // several submitters at once
        unsigned k = (unsigned)g.range(2, 4), per = (unsigned)g.range(1, 12);
        std::vector<std::thread> ts;
        raw_atomic<uint64_t> sum{0};
        for (unsigned t = 0; t < k; ++t) {
          ts.emplace_back([&, t] {
            rng r(s + t);
            for (unsigned i = 0; i < per; ++i) {
              unsigned d = (unsigned)r.below(4);
              sum.fetch_add(1ull << d);
              if (r.chance(1, 2)) {
                to_ctx sch{ctx[r.below(n)]};
                VH_CHECK(lf::sync_wait(sch, tree, &cnt, d) == (1ull << d), "wrong-value", "wrong result");
              } else {
                serial sch{&pool, &mtx};
                VH_CHECK(lf::sync_wait(sch, tree, &cnt, d) == (1ull << d), "wrong-value", "wrong result");
              }
              if (r.chance(1, 3)) {
                pause_us(r.below(60));
              }
              progress_now();
            }
          });
        }
        for (auto &t : ts) {
          t.join();
        }
        leaves += sum.load();
        count("concurrent_submissions", k * per);
        break;
      }
      case 3: { // stealable work while the others sleep
        if (n > 1) {
          Handover h;
          lf::sync_wait(pool, handover, &h);
          VH_CHECK(h.child != h.cont, "harness-handover", "the continuation ran on the spinning worker");
          count("stealable_work_picked_up");
          Chain m;
          m.k = (unsigned)g.range(2, (int64_t)n);
          m.gap = g.chance(1, 2) ? 0 : (unsigned)g.below(1500);
          if (g.chance(1, 2)) {
            wait_asleep(tids, 5, true);
          }
          lf::sync_wait(pool, meeting, &m);
          count("rendezvous");
        }
        break;
      }
      case 4: { // tasks that submit themselves to (sleeping) workers
        unsigned hops = (unsigned)g.range(1, 12);
        VH_CHECK(lf::sync_wait(pool, tour, ctx, s, hops, tids.data()) == hops, "wrong-value", "wrong result");
        count("switches_to_workers", hops);
        break;
      }
      default: { // a burst of futures
        unsigned k = (unsigned)g.range(1, 10);
        std::vector<lf::future<uint64_t>> fs;
        for (unsigned i = 0; i < k; ++i) {
          to_ctx sch{ctx[g.below(n)]};
          fs.push_back(lf::schedule(sch, tree, &cnt, i % 3));
          leaves += 1ull << (i % 3);
        }
        for (unsigned i = 0; i < k; ++i) {
          VH_CHECK(fs[i].get() == (1ull << (i % 3)), "wrong-value", "wrong result");
        }
        count("burst_submissions", k);
        break;
      }
    }
    distinct(hcombine(hcombine(before * 8 + what, n), s % 1024));
    evaluation();
  }
  VH_CHECK(cnt.leaves.load() == leaves, "task-lost", "%llu leaves instead of %llu",
           (unsigned long long)cnt.leaves.load(), (unsigned long long)leaves);
  // Nothing is left: everyone must go to sleep.
  wait_asleep(tids, 5, true);
  unsigned quiet = 0;
  for (int k = 0; k < 8; ++k) {
    pause_us(500);
    bool all = true;
    for (int t : tids) {
      thread_info ti;
      all = all && read_thread(t, ti) && ti.state == 'S';
    }
    quiet += all;
  }
  count("idle_observations_all_asleep", quiet);
  count("idle_observations", 8);
}

// ------------------------------------------------------------------ mode 2: construction, destruction, moves

static size_t thread_count() { return list_tids().size(); }

struct Job2 {
  raw_atomic<unsigned> runs{0};
};
inline constexpr auto detached_job = [](auto, Job2 *j, Tracked t, unsigned spin) -> lf::task<> {
  for (unsigned i = 0; i < spin; ++i) {
    asm volatile("pause");
  }
  VH_CHECK(t.get() == 5, "argument", "the state of a detached task was destroyed");
  j->runs.fetch_add(1);
  progress();
  co_return;
};

template <class Pool>
static void use(Pool &pool, rng &g, Counters &c, uint64_t &leaves) {
  watch w;
  unsigned d = (unsigned)g.below(7);
  switch (g.below(3)) {
    case 0:
      VH_CHECK(lf::sync_wait(pool, tree, &c, d) == (1ull << d), "wrong-value", "wrong result");
      leaves += 1ull << d;
      break;
    case 1: {
      std::vector<lf::future<uint64_t>> fs;
      unsigned k = (unsigned)g.range(1, 6);
      for (unsigned i = 0; i < k; ++i) {
        fs.push_back(lf::schedule(pool, tree, &c, d % 4));
        leaves += 1ull << (d % 4);
      }
      for (auto &f : fs) {
        VH_CHECK(f.get() == (1ull << (d % 4)), "wrong-value", "wrong result");
      }
      break;
    }
    default:
      break; // idle
  }
  count("uses");
}

template <class Pool>
static void movable_life(rng &g, char const *kind) {
  Counters c;
  uint64_t leaves = 0;
  auto strat = [&] {
    return g.chance(1, 2) ? lf::numa_strategy::fan : lf::numa_strategy::seq;
  };
  auto size = [&]() -> size_t {
    return g.chance(1, 8) ? (size_t)g.range(9, 20) : (size_t)g.range(1, 8);
  };
  unsigned what = (unsigned)g.below(7);
  switch (what) {
    case 0: { // straight in and out
      Pool p(size(), strat());
      count("immediate_destructions");
      break;
    }
    case 1: { // used, destroyed straight after the last result
      Pool p(size(), strat());
      for (uint64_t k = g.range(1, 3); k; --k) {
        use(p, g, c, leaves);
      }
      break;
    }
    case 2: { // idle for a while (asleep)
      Pool p(size(), strat());
      use(p, g, c, leaves);
      pause_us(g.below(3000));
      break;
    }
    case 3: { // move construction with work in flight
      auto a = std::make_unique<Pool>(size(), strat());
      use(*a, g, c, leaves);
      auto f = lf::schedule(*a, tree, &c, 6u);
      leaves += 64;
      size_t n = a->contexts().size();
      Pool b(std::move(*a));
      if (g.chance(1, 2)) {
        a.reset(); // destroying the moved-from object must not disturb anything
      }
      VH_CHECK(b.contexts().size() == n, "move", "the moved pool has %zu workers instead of %zu", b.contexts().size(), n);
      use(b, g, c, leaves);
      watch w;
      VH_CHECK(f.get() == 64, "wrong-value", "wrong result");
      use(b, g, c, leaves);
      if (a && g.chance(1, 2)) { // assign to the moved-from object
        *a = std::move(b);
        use(*a, g, c, leaves);
      }
      count("move_constructions");
      break;
    }
    case 4: { // move assignment onto a running pool
      Pool a(size(), strat()), b(size(), strat());
      use(a, g, c, leaves);
      use(b, g, c, leaves);
      auto f = lf::schedule(b, tree, &c, 5u);
      leaves += 32;
      a = std::move(b);
      use(a, g, c, leaves);
      {
        watch w;
        VH_CHECK(f.get() == 32, "wrong-value", "wrong result");
      }
      use(a, g, c, leaves);
      count("move_assignments");
      break;
    }
    case 5: { // swap
      Pool a(size(), strat()), b(size(), strat());
      size_t na = a.contexts().size(), nb = b.contexts().size();
      use(a, g, c, leaves);
      std::swap(a, b);
      VH_CHECK(a.contexts().size() == nb && b.contexts().size() == na, "move", "swap lost workers");
      use(a, g, c, leaves);
      use(b, g, c, leaves);
      count("swaps");
      break;
    }
    default: { // in a growing vector
      std::vector<Pool> v;
      for (int i = 0; i < 3; ++i) {
        v.emplace_back((size_t)g.range(1, 3), strat());
        use(v[g.below(v.size())], g, c, leaves);
      }
      v.erase(v.begin() + (long)g.below(v.size()));
      for (auto &p : v) {
        use(p, g, c, leaves);
      }
      count("vectors_of_pools");
      break;
    }
  }
  VH_CHECK(c.leaves.load() == leaves, "task-lost", "%llu leaves instead of %llu", (unsigned long long)c.leaves.load(),
           (unsigned long long)leaves);
  count(std::string("lives_") + kind);
  distinct(hcombine(what, g.s));
}

static void unit_life(rng &g) {
  Counters c;
  uint64_t leaves = 0;
  unsigned k = g.chance(1, 4) ? 0 : (unsigned)g.range(1, 40), submitters = (unsigned)g.range(1, 3);
  std::vector<Job2> jobs(k * submitters);
  {
    lf::unit_pool pool;
    if (g.chance(1, 3)) {
      use(pool, g, c, leaves);
    }
    unsigned spin = (unsigned)g.below(3000);
    auto submit = [&](unsigned s) {
      for (unsigned i = 0; i < k; ++i) {
        lf::detach(pool, detached_job, &jobs[s * k + i], Tracked{5}, spin);
      }
    };
    if (submitters == 1) {
      submit(0);
    } else {
      std::vector<std::thread> ts;
      for (unsigned s = 0; s < submitters; ++s) {
        ts.emplace_back(submit, s);
      }
      for (auto &t : ts) {
        t.join();
      }
    }
    if (g.chance(1, 3)) {
      pause_us(g.below(200));
    }
  }
  for (auto &j : jobs) {
    VH_CHECK(j.runs.load() == 1, "task-lost", "a detached task had run %u times when unit_pool's destructor returned",
             j.runs.load());
  }
  count("detached_before_destruction", k * submitters);
  count("lives_unit");
  distinct(hcombine(k, g.s));
}

static void lives(rng &g, int rounds) {
  for (int i = 0; i < rounds; ++i) {
    size_t threads = thread_count();
    int64_t live = heap_live(), census = g_census.live.load();
    {
      watch w;
      switch (g.below(5)) {
        case 0:
          unit_life(g);
          break;
        case 1:
        case 2:
          movable_life<lf::busy_pool>(g, "busy");
          break;
        default:
          movable_life<lf::lazy_pool>(g, "lazy");
          break;
      }
      // A joined thread's directory may live a moment longer.
      double t0 = now_s();
      while (thread_count() > threads) {
        progress_now();
        VH_CHECK(now_s() - t0 < 20, "thread-left", "%zu threads more than before the pool existed",
                 thread_count() - threads);
        pause_us(100);
      }
    }
    VH_CHECK(g_census.live.load() == census, "object-leak", "objects left after the pool");
    if (heap_active && i > 2) {
      VH_CHECK(heap_live() == live, "memory-leak", "%lld heap blocks are left after the pool",
               (long long)(heap_live() - live));
      count("heap_balance_checks");
    }
    evaluation();
  }
}

// ------------------------------------------------------------------ mode 3: available work is picked up

template <class Pool>
static void pickup(rng &g, int rounds, size_t n, lf::numa_strategy strat, char const *kind) {
  Pool pool(n, strat);
  auto ctx = pool.contexts();
  std::vector<int> tids = worker_tids(pool);
  std::string name = pool_str(kind, n, strat);
  for (int i = 0; i < rounds; ++i) {
    unsigned what = (unsigned)g.below(n > 1 ? 4 : 2);
    if (std::same_as<Pool, lf::lazy_pool> && g.chance(1, 4)) {
      wait_asleep(tids, 1e9, false);
    }
    switch (what) {
      case 0:
      case 1: { // k tasks from one root meet
        Meet m;
        unsigned k = g.chance(1, 2) ? (unsigned)n : (unsigned)g.range(1, (int64_t)n);
        m.need = k;
        to_ctx sch{ctx[g.below(n)]};
        {
          watch w;
          if (what == 0) {
            lf::sync_wait(sch, meet_chain, &m, k);
          } else {
            lf::sync_wait(sch, meet_tree, &m, k);
          }
        }
        uint64_t h = k;
        for (unsigned a = 0; a < k; ++a) {
          for (unsigned b = 0; b < a; ++b) {
            VH_CHECK(m.who[a] != m.who[b], "harness-meet", "two tasks met on one worker");
          }
          h = hcombine(h, m.who[a]);
        }
        distinct(h);
        count("rendezvous_by_fork");
        count("rendezvous_tasks", k);
        break;
      }
      case 2: { // tasks submitted to different workers, some of which fork more
        Meet m;
        std::vector<size_t> perm(n);
        std::iota(perm.begin(), perm.end(), 0);
        for (size_t a = n; a > 1; --a) {
          std::swap(perm[a - 1], perm[g.below(a)]);
        }
        size_t roots = (size_t)g.range(1, (int64_t)n), extra = n - roots;
        m.need = (unsigned)(roots + extra);
        std::vector<lf::future<void>> fs;
        raw_atomic<unsigned> started{0};
        watch w;
        for (size_t a = 0; a < roots; ++a) {
          to_ctx sch{ctx[perm[a]]};
          // The first root brings along all tasks that have no worker yet.
          fs.push_back(lf::schedule(sch, meet_root, &m, &started, (unsigned)roots,
                                    (unsigned)(1 + (a == 0 ? extra : 0))));
        }
        for (auto &f : fs) {
          f.get();
        }
        count("rendezvous_by_submission");
        count("rendezvous_tasks", (double)m.need);
        distinct(hcombine(roots, hcombine(n, perm[0])));
        break;
      }
      default: { // one thief, one victim, everyone else blocked
        size_t v = g.below(n), t = (v + 1 + g.below(n - 1)) % n;
        Block b;
        Handover h;
        std::vector<lf::future<void>> fs;
        watch w;
        for (size_t a = 0; a < n; ++a) {
          if (a != v && a != t) {
            to_ctx sch{ctx[a]};
            fs.push_back(lf::schedule(sch, blocker, &b));
          }
        }
        while (b.in.load() < n - 2) {
          sched_yield();
        }
        to_ctx sch{ctx[v]};
        lf::sync_wait(sch, handover, &h);
        VH_CHECK(h.child == tids[v] && h.cont == tids[t], "harness-pair", "the wrong workers took part");
        b.release.store(true);
        for (auto &f : fs) {
          f.get();
        }
        count("pairs_stolen");
        distinct(hcombine(v * 100 + t, n));
        break;
      }
    }
    evaluation();
  }
  if (g.chance(1, 6)) {
    sample(name + ": " + std::to_string(rounds) + " rendezvous");
  }
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int mode = (int)arg("mode", 1), pools = (int)arg("pools", 20), rounds = (int)arg("rounds", 40);
  int rate = (int)arg("rate", -1);
  rng g(seed);
  for (int i = 0; i < pools; ++i) {
    static constexpr int rates[] = {0, 3000, 300, 50, 12};
    unsigned rt = rate >= 0 ? (unsigned)rate : (unsigned)rates[g.below(5)];
    set_delays(g.u64(), rt, (unsigned)g.below(3));
    set_case("seed=%llu mode=%d pool=%d rate=%u topology=%s", (unsigned long long)seed, mode, i, rt,
             getenv("HWLOC_SYNTHETIC") ? getenv("HWLOC_SYNTHETIC") : "real");
    if (mode == 1) {
      watch w;
      waking(g, rounds);
    } else if (mode == 2) {
      lives(g, rounds);
    } else {
      watch w;
      auto strat = g.chance(1, 2) ? lf::numa_strategy::fan : lf::numa_strategy::seq;
      size_t n = (size_t)g.range(1, g.chance(1, 6) ? 16 : 8);
      if (g.chance(1, 2)) {
        pickup<lf::busy_pool>(g, rounds, n, strat, "busy_pool");
      } else {
        pickup<lf::lazy_pool>(g, rounds, n, strat, "lazy_pool");
      }
    }
    if (i % 7 == 3) {
      sample(g_case);
    }
  }
  finish();
}
