// lf::event_count: lost wake-ups show as a process in which everybody sleeps (watchdog).
#include "common.hpp"

#ifdef VH_SINGLE_HEADER
  #include <libfork.hpp>
#else
  #include <libfork/schedule/ext/event_count.hpp>
#endif

using namespace vh;

static uint64_t g_waits = 0;

// (1) Semaphore: consumers await on tokens, posters add a token and notify.
static void semaphore(rng &g, unsigned consumers, unsigned posters, uint32_t tokens, bool all, bool throwing) {
  auto evp = std::make_unique<lf::event_count>();
  lf::event_count &ev = *evp;
  raw_atomic<int64_t> avail{0};
  // plain payload: slot i is written before token i is posted, read by its (unique) consumer
  raw_atomic<uint32_t> next_post{0}, next_take{0};
  raw_atomic<uint64_t> thrown{0};
  std::vector<std::thread> ts;
  uint32_t per = tokens / posters;
  uint32_t total = per * posters;
  uint64_t seed = g.u64();
  raw_atomic<uint32_t> left{total};
  for (unsigned c = 0; c < consumers; ++c) {
    ts.emplace_back([&, c] {
      rng r(seed + c);
      for (;;) {
        // reserve one of the tokens so that everybody knows when to stop
        uint32_t l = left.load(std::memory_order_relaxed);
        while (l && !left.compare_exchange_weak(l, l - 1, std::memory_order_relaxed)) {
        }
        if (!l) {
          return;
        }
        for (bool got = false; !got;) {
          unsigned polls = 0, boom = throwing && r.chance(1, 3) ? 1 + (unsigned)r.below(3) : 0;
          auto pred = [&]() -> bool {
            perturb();
            if (boom && ++polls >= boom) {
              throw Exc(7);
            }
            int64_t a = avail.load(std::memory_order_relaxed);
            while (a > 0) {
              if (avail.compare_exchange_weak(a, a - 1, std::memory_order_relaxed)) {
                return true;
              }
            }
            return false;
          };
          try {
            ev.await(pred);
            got = true;
          } catch (Exc const &) {
            thrown.fetch_add(1, std::memory_order_relaxed);
          }
        }
        progress_now();
      }
    });
  }
  for (unsigned p = 0; p < posters; ++p) {
    ts.emplace_back([&, p] {
      rng r(seed * 3 + p);
      for (uint32_t i = 0; i < per; ++i) {
        if (r.chance(1, 4)) {
          timespec t{0, (long)r.below(40000)};
          nanosleep(&t, nullptr);
        }
        avail.fetch_add(1, std::memory_order_relaxed);
        perturb();
        if (all) {
          ev.notify_all();
        } else {
          ev.notify_one();
        }
      }
    });
  }
  {
    watch w;
    for (auto &t : ts) {
      t.join();
    }
  }
  VH_CHECK(avail.load() == 0, "harness-tokens", "tokens left over");
  g_waits += total;
  count("tokens_consumed", (double)total);
  count("predicate_exceptions", (double)thrown.load());
  distinct(hcombine(hcombine(total, consumers * 16 + posters), hcombine(thrown.load(), seed)));
}

// (2) Keys: k waiters obtain keys, publish that, then wait. One notify_all releases all of them; with notify_one each
// call releases at least one of those that are left.
static void keys(rng &g, unsigned k, bool all, bool settle, unsigned cancels, unsigned throws_) {
  auto evp = std::make_unique<lf::event_count>();
  lf::event_count &ev = *evp;
  // Others that prepared and cancelled, or whose predicate threw, must leave the count usable: an over- or
  // under-counted waiter would suppress the wake-up of exactly the right number of later waiters.
  for (unsigned i = 0; i < cancels; ++i) {
    [[maybe_unused]] auto key = ev.prepare_wait();
    ev.cancel_wait();
  }
  for (unsigned i = 0; i < throws_; ++i) {
    int n = 0;
    bool threw = false;
    try {
      ev.await([&]() -> bool {
        if (++n == 2) {
          throw Exc(3);
        }
        return false;
      });
    } catch (Exc const &) {
      threw = true;
    }
    VH_CHECK(threw && n == 2, "predicate-exception-lost", "await swallowed the exception of its condition");
  }
  if (g.chance(1, 4)) { // an exception of the very first evaluation
    try {
      ev.await([]() -> bool {
        throw Exc(4);
      });
      fail("predicate-exception-lost", "await swallowed the exception of its condition");
    } catch (Exc const &) {
    }
  }
  if (g.chance(1, 4)) { // true at once / at the second evaluation
    int n = 0;
    ev.await([&] {
      return ++n >= 1;
    });
    VH_CHECK(n == 1, "await-evaluations", "await evaluated a true condition %d times", n);
    n = 0;
    ev.await([&] {
      return ++n >= 2;
    });
    VH_CHECK(n == 2, "await-evaluations", "await evaluated the condition %d times instead of 2", n);
  }
  if (g.chance(1, 3)) { // notifications without a waiter
    ev.notify_all();
    ev.notify_one();
  }
  std::vector<std::thread> ts;
  std::counting_semaphore<1024> ready(0), returned(0);
  std::vector<raw_atomic<int>> tids(k);
  uint64_t payload = 0; // plain
  for (unsigned i = 0; i < k; ++i) {
    ts.emplace_back([&, i] {
      tids[i].store((int)syscall(SYS_gettid));
      auto key = ev.prepare_wait();
      ready.release();
      perturb();
      ev.wait(key);
      returned.release();
    });
  }
  watch w;
  for (unsigned i = 0; i < k; ++i) {
    ready.acquire();
  }
  unsigned slept = 0;
  if (settle) { // usually wait until they really sleep (coverage only)
    for (int spin = 0; spin < 200; ++spin) {
      slept = 0;
      for (auto &t : tids) {
        thread_info ti;
        slept += read_thread(t.load(), ti) && ti.state == 'S';
      }
      if (slept == k) {
        break;
      }
      timespec t{0, 50'000};
      nanosleep(&t, nullptr);
    }
  }
  payload = 1;
  (void)payload;
  if (all) {
    ev.notify_all();
    for (unsigned i = 0; i < k; ++i) {
      returned.acquire();
    }
  } else {
    unsigned released = 0;
    while (released < k) {
      ev.notify_one();
      returned.acquire(); // at least one of those that are left
      ++released;
      while (returned.try_acquire()) {
        ++released;
      }
      count("notify_one_calls");
    }
  }
  for (auto &t : ts) {
    t.join();
  }
  count("keyed_waits", k);
  count("keyed_waits_seen_asleep", slept);
  g_waits += k;
  distinct(hcombine(k * 4 + all * 2 + settle, hcombine(cancels * 64 + throws_, slept)));
}

// (3) Order: what was written before notify is visible after a prepare_wait that follows it (plain data: the
// ThreadSanitizer build decides). The flag `done` adds no ordering.
static void ordering(bool all) {
  auto evp = std::make_unique<lf::event_count>();
  lf::event_count &ev = *evp;
  uint64_t data = 0;
  raw_atomic<bool> done{false};
  std::thread t([&] {
    data = 42;
    all ? ev.notify_all() : ev.notify_one();
    done.store(true, std::memory_order_relaxed);
  });
  while (!done.load(std::memory_order_relaxed)) {
    sched_yield();
  }
  [[maybe_unused]] auto key = ev.prepare_wait();
  uint64_t v = data;
  ev.cancel_wait();
  VH_CHECK(v == 42, "condition-invisible", "a waiter that prepared after the notification does not see the condition");
  t.join();
  count("order_checks");
}

// (4) Ping-pong: two threads strictly alternate, each wake-up is needed.
static void pingpong(unsigned n, unsigned pairs, bool all) {
  auto evp = std::make_unique<lf::event_count>();
  lf::event_count &ev = *evp;
  std::vector<raw_atomic<uint32_t>> turn(pairs);
  bool one = pairs == 1 && !all; // with a single pair one waiter at most exists
  std::vector<std::thread> ts;
  for (unsigned p = 0; p < pairs; ++p) {
    for (unsigned side = 0; side < 2; ++side) {
      ts.emplace_back([&, p, side] {
        for (unsigned i = 0; i < n; ++i) {
          ev.await([&]() noexcept {
            return turn[p].load(std::memory_order_relaxed) % 2 == side;
          });
          turn[p].fetch_add(1, std::memory_order_relaxed);
          one ? ev.notify_one() : ev.notify_all();
          progress();
        }
      });
    }
  }
  watch w;
  for (auto &t : ts) {
    t.join();
  }
  g_waits += 2ull * n * pairs;
  count("pingpong_turns", 2.0 * n * pairs);
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int rounds = (int)arg("rounds", 300), rate = (int)arg("rate", -1);
  rng g(seed);
  for (int i = 0; i < rounds; ++i) {
    static constexpr int rates[] = {0, 300, 30, 6, 3};
    unsigned rt = rate >= 0 ? (unsigned)rate : (unsigned)rates[g.below(5)];
    unsigned kind = (unsigned)g.below(3);
    set_delays(g.u64(), rt, kind);
    unsigned what = (unsigned)g.below(8);
    set_case("seed=%llu round=%d scenario=%u rate=%u/%u", (unsigned long long)seed, i, what, rt, kind);
    if (what < 2) {
      unsigned c = (unsigned)g.range(1, 6), p = (unsigned)g.range(1, 4);
      semaphore(g, c, p, (uint32_t)g.range(20, rt && rt < 10 ? 80 : 400), g.chance(1, 2), g.chance(1, 3));
    } else if (what < 6) {
      keys(g, (unsigned)g.range(1, 5), g.chance(1, 2), g.chance(2, 3), (unsigned)(g.chance(1, 2) ? g.below(4) : 0),
           (unsigned)(g.chance(1, 2) ? g.below(4) : 0));
    } else if (what == 6) {
      ordering(g.chance(1, 2));
    } else {
      pingpong((unsigned)g.range(10, rt && rt < 10 ? 60 : 300), (unsigned)g.range(1, 3), g.chance(1, 2));
    }
    evaluation();
    if (i % 61 == 0) {
      sample(std::string(g_case) + ": " + std::to_string(g_waits) + " waits satisfied so far");
    }
  }
  count("waits_satisfied", (double)g_waits);
  finish();
}
