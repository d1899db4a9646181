// Schedulers written with the extension API: submission storms, notification order, hand driven workers.
#include "pools.hpp"

using namespace vh;

// ------------------------------------------------------------------ a scheduler whose workers sleep until notified

inline constinit thread_local unsigned t_notified = 0;

struct sleepy_pool {
  struct worker {
    std::unique_ptr<std::counting_semaphore<>> sem = std::make_unique<std::counting_semaphore<>>(0);
    lf::worker_context *ctx = nullptr;
    raw_atomic<uint64_t> notified{0}, submitted{0};
  };
  size_t n, steals_per_wake;
  std::vector<worker> w;
  std::vector<lf::worker_context *> ctxs;
  raw_atomic<bool> stop{false};
  raw_atomic<uint64_t> ticket{0};
  pthread_barrier_t up, down;
  std::vector<std::thread> ts;
  uint64_t seed;

  sleepy_pool(size_t workers, uint64_t sd, size_t steals) : n(workers), steals_per_wake(steals), w(workers), seed(sd) {
    pthread_barrier_init(&up, nullptr, (unsigned)n + 1);
    pthread_barrier_init(&down, nullptr, (unsigned)n);
    for (size_t i = 0; i < n; ++i) {
      ts.emplace_back([this, i] {
        run(i);
      });
    }
    pthread_barrier_wait(&up);
    for (auto &x : w) {
      ctxs.push_back(x.ctx);
    }
  }
  void schedule_on(size_t i, lf::submit_handle h) {
    t_notified = 0;
    w[i].submitted.fetch_add(1, std::memory_order_relaxed);
    ctxs[i]->schedule(h);
    VH_CHECK(t_notified == i + 1, "not-notified", "a submission to worker %zu did not notify it (%u)", i, t_notified);
  }
  void schedule(lf::submit_handle h) { schedule_on(mix(seed ^ ticket.fetch_add(1)) % n, h); }
  std::span<lf::worker_context *> contexts() { return ctxs; }

  void run(size_t i) {
    lf::worker_context *me = lf::worker_init(lf::nullary_function_t{[this, i] {
      t_notified = (unsigned)i + 1;
      w[i].notified.fetch_add(1, std::memory_order_relaxed);
      w[i].sem->release();
    }});
    w[i].ctx = me;
    rng g(seed + i);
    pthread_barrier_wait(&up);
    for (;;) {
      w[i].sem->acquire();
      if (stop.load()) {
        break;
      }
      // One drain per notification: a task that became visible only after its notification would be lost.
      perturb();
      if (lf::submit_handle h = me->try_pop_all()) {
        lf::resume(h);
        auto r = me->try_steal();
        VH_CHECK(r.code == lf::err::empty, "work-left-after-resume", "worker %zu still holds a task after resume", i);
        progress();
      }
      for (size_t k = 0; k < steals_per_wake; ++k) {
        size_t v = g.below(n);
        if (v != i) {
          if (auto r = ctxs[v]->try_steal()) {
            lf::resume(*r);
            progress();
          }
        }
      }
    }
    pthread_barrier_wait(&down);
    lf::finalize(me);
  }
  ~sleepy_pool() {
    stop.store(true);
    for (auto &x : w) {
      x.sem->release();
    }
    for (auto &t : ts) {
      t.join();
    }
    pthread_barrier_destroy(&up);
    pthread_barrier_destroy(&down);
  }
};
static_assert(lf::scheduler<sleepy_pool>);

// ------------------------------------------------------------------ tasks

struct Job {
  int runs = 0;     // plain
  int children = 0; // plain, written by the children's parent
  uint64_t result = 0;
};

struct Env {
  std::span<lf::worker_context *> ctx;
  raw_atomic<uint64_t> leaf_runs{0}, switches{0};
};

inline constexpr auto tree = [](auto self, Env *e, Tracked key, unsigned depth) -> lf::task<uint64_t> {
  uint64_t k = key.get();
  progress();
  if (depth == 0) {
    e->leaf_runs.fetch_add(1, std::memory_order_relaxed);
    co_return k;
  }
  uint64_t a = 0, b = 0, c = 0;
  co_await lf::fork(&a, self)(e, Tracked{mix(k)}, depth - 1);
  if (!e->ctx.empty() && k % 4 == 0) {
    co_await lf::resume_on(e->ctx[k / 4 % e->ctx.size()]);
    e->switches.fetch_add(1, std::memory_order_relaxed);
  }
  if (k % 3 == 0) {
    co_await lf::fork(&b, self)(e, Tracked{mix(k + 1)}, depth - 1);
  }
  co_await lf::call(&c, self)(e, Tracked{mix(k + 2)}, depth - 1);
  co_await lf::join;
  co_return hcombine(hcombine(a, b), c) ^ key.get();
};

static uint64_t tree_serial(uint64_t k, unsigned depth, uint64_t &leaves) {
  if (depth == 0) {
    ++leaves;
    return k;
  }
  uint64_t a = tree_serial(mix(k), depth - 1, leaves), b = 0, c;
  if (k % 3 == 0) {
    b = tree_serial(mix(k + 1), depth - 1, leaves);
  }
  c = tree_serial(mix(k + 2), depth - 1, leaves);
  return hcombine(hcombine(a, b), c) ^ k;
}

inline constexpr auto root = [](auto self, Env *e, Job *j, uint64_t k, unsigned depth,
                                std::counting_semaphore<> *done) -> lf::task<uint64_t> {
  VH_CHECK(++j->runs == 1, "submission-run-twice", "a submission ran twice");
  uint64_t v = 0;
  co_await lf::call(&v, tree)(e, Tracked{k}, depth);
  co_await lf::join;
  j->result = v;
  if (done) {
    done->release();
  }
  co_return v;
};

template <class Pool>
static void storm(Pool &pool, rng &g, unsigned submitters, unsigned per, bool switches, char const *name) {
  Env env;
  if (switches) {
    env.ctx = pool.contexts();
  }
  std::counting_semaphore<> done(0);
  std::vector<std::unique_ptr<Job[]>> jobs;
  for (unsigned s = 0; s < submitters; ++s) {
    jobs.emplace_back(new Job[per]);
  }
  uint64_t seed = g.u64();
  unsigned maxdepth = (unsigned)g.range(0, 5);
  raw_atomic<uint64_t> leaves{0}, detached{0};
  size_t target = g.chance(1, 3) ? g.below(pool.contexts().size()) : ~0ull;
  struct to_one {
    Pool *p;
    size_t t;
    void schedule(lf::submit_handle h) { t == ~0ull ? p->schedule(h) : p->schedule_on(t, h); }
  };
  {
    watch w;
    std::vector<std::thread> ts;
    for (unsigned s = 0; s < submitters; ++s) {
      ts.emplace_back([&, s] {
        rng r(seed + s);
        to_one sch{&pool, target};
        uint64_t mine = 0;
        std::vector<lf::future<uint64_t>> fs;
        std::vector<uint64_t> want;
        for (unsigned i = 0; i < per; ++i) {
          uint64_t k = r.u64();
          unsigned d = (unsigned)r.below(maxdepth + 1);
          uint64_t v = tree_serial(k, d, mine);
          jobs[s][i].children = (int)d;
          switch (r.below(3)) {
            case 0:
              lf::detach(sch, root, &env, &jobs[s][i], k, d, &done);
              detached.fetch_add(1);
              break;
            case 1: {
              uint64_t x = lf::sync_wait(sch, root, &env, &jobs[s][i], k, d, nullptr);
              VH_CHECK(x == v && jobs[s][i].result == v, "wrong-value", "a submitted tree returned a wrong value");
              break;
            }
            default:
              fs.push_back(lf::schedule(sch, root, &env, &jobs[s][i], k, d, nullptr));
              want.push_back(v);
              break;
          }
          if (fs.size() > 6 || i + 1 == per) {
            for (size_t q = 0; q < fs.size(); ++q) {
              VH_CHECK(fs[q].get() == want[q], "wrong-value", "a submitted tree returned a wrong value");
            }
            fs.clear();
            want.clear();
          }
          progress_now();
        }
        leaves.fetch_add(mine);
      });
    }
    for (auto &t : ts) {
      t.join();
    }
    for (uint64_t d = detached.load(); d; --d) {
      done.acquire();
      progress_now();
    }
  }
  for (auto &a : jobs) {
    for (unsigned i = 0; i < per; ++i) {
      VH_CHECK(a[i].runs == 1, "submission-lost", "a submission ran %d times", a[i].runs);
    }
  }
  VH_CHECK(env.leaf_runs.load() == leaves.load(), "task-lost", "%llu leaves ran instead of %llu",
           (unsigned long long)env.leaf_runs.load(), (unsigned long long)leaves.load());
  count("submissions", (double)submitters * per);
  count("detached_submissions", (double)detached.load());
  count("leaf_tasks", (double)leaves.load());
  count("context_switches", (double)env.switches.load());
  evaluation();
  distinct(hcombine(hcombine(seed, leaves.load()), submitters * 1000 + per));
  static raw_atomic<int> k{0};
  if (k.fetch_add(1) % 23 == 0) {
    sample(std::string(name) + ": " + std::to_string(submitters) + " threads submitted " +
           std::to_string(submitters * per) + " trees (" + std::to_string(detached.load()) + " detached), " +
           std::to_string(leaves.load()) + " leaves, " + std::to_string(env.switches.load()) + " switches");
  }
}

// ------------------------------------------------------------------ a worker driven by hand

struct Catch { // a scheduler that only records the handle
  std::vector<lf::submit_handle> got;
  void schedule(lf::submit_handle h) { got.push_back(h); }
};

static void by_hand(rng &g) {
  unsigned n = (unsigned)g.range(1, 12);
  std::unique_ptr<Job[]> jobs(new Job[n]);
  Env env;
  std::vector<uint64_t> want, keys;
  std::vector<unsigned> depths;
  uint64_t leaves = 0;
  for (unsigned i = 0; i < n; ++i) {
    keys.push_back(g.u64());
    depths.push_back((unsigned)g.below(5));
    want.push_back(tree_serial(keys[i], depths[i], leaves));
  }
  Catch sch;
  std::vector<lf::future<uint64_t>> fs;
  std::thread submitter([&] {
    for (unsigned i = 0; i < n; ++i) {
      fs.push_back(lf::schedule(sch, root, &env, &jobs[i], keys[i], depths[i], nullptr));
    }
  });
  submitter.join();
  lf::worker_context *me = nullptr;
  unsigned notes = 0, ran = 0;
  unsigned mode = (unsigned)g.below(3);
  me = lf::worker_init(lf::nullary_function_t{[&] {
    ++notes;
    if (mode == 0) { // visible when notified: the owner may pop from within its own notification
      auto h = me->try_pop_all();
      VH_CHECK(h != nullptr, "notified-too-early", "the submission is not visible when its notification runs");
      unsigned k = 0;
      lf::resume(h);
      (void)k;
    }
  }});
  for (unsigned i = 0; i < n; ++i) {
    unsigned before = notes;
    me->schedule(sch.got[i]);
    VH_CHECK(notes == before + 1, "not-notified", "one submission caused %u notifications", notes - before);
    if (mode == 1 && g.chance(1, 2)) {
      if (auto h = me->try_pop_all()) {
        lf::resume(h);
      }
    }
    VH_CHECK(me->try_steal().code == lf::err::empty, "work-left-after-resume", "a task is left after resume");
  }
  if (auto h = me->try_pop_all()) {
    VH_CHECK(mode != 0, "submission-twice", "a submission was handed out twice");
    lf::resume(h);
  }
  VH_CHECK(me->try_pop_all() == nullptr, "submission-twice", "a submission was handed out twice");
  for (unsigned i = 0; i < n; ++i) {
    ran += (unsigned)jobs[i].runs;
    VH_CHECK(jobs[i].runs == 1, "submission-lost", "submission %u ran %d times", i, jobs[i].runs);
  }
  lf::finalize(me);
  for (unsigned i = 0; i < n; ++i) {
    VH_CHECK(fs[i].get() == want[i], "wrong-value", "a hand driven tree returned a wrong value");
  }
  count("hand_driven_submissions", n);
  evaluation();
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int rounds = (int)arg("rounds", 40), rate = (int)arg("rate", -1), maxw = (int)arg("workers", 7);
  rng g(seed);
  for (int i = -1; i < rounds; ++i) {
    static constexpr int rates[] = {0, 3000, 300, 50, 12};
    unsigned rt = rate >= 0 ? (unsigned)rate : (unsigned)rates[g.below(5)];
    set_delays(g.u64(), rt, (unsigned)g.below(3));
    unsigned what = (unsigned)g.below(5);
    size_t w = (size_t)g.range(1, maxw);
    unsigned policy = (unsigned)g.below(wp_count);
    set_case("seed=%llu round=%d scenario=%u workers=%zu policy=%u rate=%u", (unsigned long long)seed, i, what, w, policy,
             rt);
    int64_t before = heap_live();
    int64_t census = g_census.live.load();
    {
      watch wd;
      if (what < 2) {
        wild_pool pool(w, g.u64(), policy);
        for (int k = 0; k < 3; ++k) {
          storm(pool, g, (unsigned)g.range(1, 4), (unsigned)g.range(1, rt && rt < 100 ? 15 : 60), g.chance(1, 2),
                "wild");
        }
        pool.stop();
      } else if (what < 4) {
        sleepy_pool pool(w, g.u64(), g.chance(1, 2) ? 0 : (size_t)g.range(1, 20));
        for (int k = 0; k < 3; ++k) {
          storm(pool, g, (unsigned)g.range(1, 4), (unsigned)g.range(1, rt && rt < 100 ? 15 : 60), g.chance(1, 2),
                "sleepy");
        }
      } else {
        for (int k = 0; k < 20; ++k) {
          by_hand(g);
        }
      }
    }
    VH_SOFT(g_census.live.load() == census, "object-leak", "%lld objects live too many",
            (long long)(g_census.live.load() - census));
    if (heap_active && i >= 0) {
      VH_SOFT(heap_live() == before, "memory-leak", "%lld heap blocks are left when the workers are gone",
              (long long)(heap_live() - before));
      count("heap_balance_checks");
    }
  }
  finish();
}
