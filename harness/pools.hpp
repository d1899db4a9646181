// Schedulers used by the harnesses: a hostile one on libfork's extension API, and wrappers around libfork's own.
#ifndef VH_POOLS_HPP
#define VH_POOLS_HPP

#include "common.hpp"

#include <libfork.hpp>

namespace vh {

inline raw_atomic<uint32_t> g_thread_ids{0};
inline constinit thread_local uint32_t t_thread_id = 0;

// A small unique number per thread (never cached across a suspension: noinline).
__attribute__((noinline)) inline uint32_t thread_no() noexcept {
  if (t_thread_id == 0) {
    t_thread_id = 1 + g_thread_ids.fetch_add(1, std::memory_order_relaxed);
  }
  return t_thread_id;
}

// Policies of the hostile scheduler.
enum wild_policy : unsigned {
  wp_random,     // spin, random victim
  wp_scan,       // spin, scan all victims in order, steal before looking at own submissions
  wp_lazy,       // yields/sleeps between polls
  wp_reluctant,  // ignores work most of the time
  wp_oneway,     // worker i only ever steals from worker i-1
  wp_mixed,      // every worker its own policy
  wp_count
};

// Built on the extension API only. All member functions may be called from any thread.
class wild_pool {
 public:
  struct worker_stats {
    uint64_t submissions = 0, steals = 0, batches = 0;
  };

  wild_pool(std::size_t n, uint64_t seed, unsigned policy)
      : m_n(n), m_seed(seed), m_policy(policy), m_ctx(n), m_notified(n), m_pushed(n), m_stats(n) {
    for (std::size_t i = 0; i < n; ++i) {
      m_threads.emplace_back([this, i] {
        run(i);
      });
    }
    std::unique_lock lk(m_mtx);
    m_cv.wait(lk, [&] {
      return m_ready == m_n;
    });
  }
  wild_pool(wild_pool const &) = delete;

  void schedule(lf::submit_handle h) {
    uint64_t r = mix(m_seed ^ m_ticket.fetch_add(1, std::memory_order_relaxed));
    schedule_on(r % m_n, h);
  }
  void schedule_on(std::size_t i, lf::submit_handle h) { m_ctx[i]->schedule(h); }
  auto contexts() -> std::span<lf::worker_context *> { return m_ctx; }
  uint64_t notified(std::size_t i) const { return m_notified[i].load(); }
  worker_stats const &stats(std::size_t i) const { return m_stats[i]; } // after stop()

  void stop() {
    m_stop.store(true);
    for (auto &t : m_threads) {
      if (t.joinable()) {
        t.join();
      }
    }
  }
  ~wild_pool() { stop(); }

 private:
  void barrier(std::size_t &c) {
    std::unique_lock lk(m_mtx);
    if (++c == m_n) {
      m_cv.notify_all();
    }
    m_cv.wait(lk, [&] {
      return c >= m_n;
    });
  }

  void after_resume(std::size_t i) {
    // Nobody but this worker pushes here and it is outside resume(): there must be nothing to steal.
    auto r = m_ctx[i]->try_steal();
    VH_CHECK(r.code == lf::err::empty, "work-left-after-resume",
             "worker %zu still held a stealable task after resume() returned (code %d)", i, (int)r.code);
    progress();
  }

  void run(std::size_t i) {
    lf::worker_context *me = lf::worker_init(lf::nullary_function_t{[this, i] {
      m_notified[i].fetch_add(1);
    }});
    rng g(hcombine(m_seed, i));
    {
      std::unique_lock lk(m_mtx);
      m_ctx[i] = me;
    }
    barrier(m_ready);
    unsigned pol = m_policy == wp_mixed ? (unsigned)g.below(wp_mixed) : m_policy;
    auto &st = m_stats[i];
    unsigned idle = 0;

    auto submissions = [&]() -> bool {
      if (lf::submit_handle h = me->try_pop_all()) {
        ++st.batches;
        lf::resume(h);
        after_resume(i);
        return true;
      }
      return false;
    };
    auto steal_from = [&](std::size_t v) -> bool {
      if (v == i) {
        return false;
      }
      auto r = m_ctx[v]->try_steal();
      if (r) {
        ++st.steals;
        lf::resume(*r);
        after_resume(i);
        return true;
      }
      return false;
    };

    while (!m_stop.load(std::memory_order_relaxed)) {
      bool did = false;
      switch (pol) {
        case wp_random:
          did = submissions() || steal_from(g.below(m_n));
          break;
        case wp_scan:
          for (std::size_t v = 0; v < m_n && !did; ++v) {
            did = steal_from((i + 1 + v) % m_n);
          }
          did = submissions() || did;
          break;
        case wp_lazy:
          did = submissions() || steal_from(g.below(m_n));
          if (!did) {
            if (g.chance(1, 4)) {
              timespec ts{0, (long)(1000 + g.below(60000))};
              nanosleep(&ts, nullptr);
            } else {
              sched_yield();
            }
          }
          break;
        case wp_reluctant:
          if (g.chance(1, 20)) {
            did = submissions();
          } else if (g.chance(1, 20)) {
            did = steal_from(g.below(m_n));
          } else {
            sched_yield();
          }
          break;
        default:
          did = submissions() || steal_from((i + m_n - 1) % m_n);
          break;
      }
      if (did) {
        idle = 0;
      } else if (++idle > 64) {
        sched_yield();
      }
    }
    barrier(m_done); // nobody may observe a finalised context
    lf::finalize(me);
  }

  std::size_t m_n;
  uint64_t m_seed;
  unsigned m_policy;
  std::vector<lf::worker_context *> m_ctx;
  std::vector<raw_atomic<uint64_t>> m_notified, m_pushed;
  std::vector<worker_stats> m_stats;
  raw_atomic<uint64_t> m_ticket{0};
  raw_atomic<bool> m_stop{false};
  std::mutex m_mtx;
  std::condition_variable m_cv;
  std::size_t m_ready = 0, m_done = 0;
  std::vector<std::thread> m_threads;
};

// A uniform view of one pool; submissions are serialised where the pool's schedule() is not thread-safe.
struct any_pool {
  enum kind_t { unit, busy, lazy, wild };
  kind_t kind;
  std::size_t n;
  std::string name;
  std::mutex mtx;
  std::unique_ptr<lf::unit_pool> u;
  std::unique_ptr<lf::busy_pool> b;
  std::unique_ptr<lf::lazy_pool> l;
  std::unique_ptr<wild_pool> w;
  uint64_t ticket = 0;

  any_pool(kind_t k, std::size_t workers, uint64_t seed, unsigned policy = wp_mixed) : kind(k), n(workers) {
    rng g(seed);
    auto strat = g.chance(1, 2) ? lf::numa_strategy::fan : lf::numa_strategy::seq;
    switch (k) {
      case unit:
        n = 1;
        u = std::make_unique<lf::unit_pool>();
        name = "unit_pool";
        break;
      case busy:
        b = std::make_unique<lf::busy_pool>(n, strat);
        name = "busy_pool";
        break;
      case lazy:
        l = std::make_unique<lf::lazy_pool>(n, strat);
        name = "lazy_pool";
        break;
      case wild:
        w = std::make_unique<wild_pool>(n, seed, policy);
        name = "custom(policy " + std::to_string(policy) + ")";
        break;
    }
    name += "[" + std::to_string(n) + "]";
  }
  void schedule(lf::submit_handle h) {
    switch (kind) {
      case unit:
        u->schedule(h);
        return;
      case busy: {
        std::lock_guard lk(mtx);
        b->schedule(h);
        return;
      }
      case lazy: {
        std::lock_guard lk(mtx);
        l->schedule(h);
        return;
      }
      case wild:
        w->schedule(h);
        return;
    }
  }
  std::span<lf::worker_context *> contexts() {
    switch (kind) {
      case busy:
        return b->contexts();
      case lazy:
        return l->contexts();
      case wild:
        return w->contexts();
      default:
        return {};
    }
  }
};
static_assert(lf::scheduler<any_pool>);

} // namespace vh

#endif
