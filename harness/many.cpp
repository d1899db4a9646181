// C26: scopes with very many children, and scopes whose continuation is stolen very many times.
#include "pools.hpp"

using namespace vh;

struct Scope {
  uint64_t n = 0, forced = 0; // children; children that wait until their parent runs elsewhere
  int blocked = 0;            // children that outlast the parent's arrival at the join
  uint64_t held[4] = {};      // which ones
  uint64_t seed = 0;
  uint64_t parks = 0; // the first so many children switch away and come back only after the parent's arrival
  int64_t thrower = -1;
  lf::worker_context *dest = nullptr; // the parent switches there before it joins
  std::vector<lf::submit_handle> parked;
  raw_atomic<uint64_t> nparked{0}, stored{0};
  bool calls = false;
  raw_atomic<uint64_t> epoch{0}, done{0}, wrong{0}, moved{0};
  raw_atomic<int> passed{0};
  raw_atomic<bool> at_join{false}, gate{false};
};

static bool forced(Scope const &s, uint64_t i) {
  return s.forced == s.n || (s.forced && mix(s.seed + i) % s.n < s.forced);
}

struct Parker {
  Scope *s;
  auto await_ready() noexcept -> bool { return false; }
  void await_suspend(lf::submit_handle h) noexcept {
    Scope *t = s; // `this` may be gone once the handle is out, but nobody resumes before `stored` is complete
    t->parked[t->nparked.fetch_add(1)] = h;
    t->stored.fetch_add(1);
    progress();
  }
  void await_resume() noexcept {}
};
static_assert(lf::context_switcher<Parker>);

inline constexpr auto child = [](auto, Scope *s, uint64_t i) -> lf::task<uint32_t> {
  if (forced(*s, i)) {
    for (unsigned k = 0; s->epoch.load(std::memory_order_relaxed) <= i; ++k) {
      if (k > 2000) {
        sched_yield();
      }
    }
    s->moved.fetch_add(1, std::memory_order_relaxed);
    progress();
  }
  for (int k = 0; k < s->blocked; ++k) {
    if (s->held[k] == i) {
      while (!s->gate.load(std::memory_order_relaxed)) {
        sched_yield();
      }
    }
  }
  if (i < s->parks) {
    co_await Parker{s};
  }
  s->done.fetch_add(1, std::memory_order_relaxed);
  if (s->thrower == (int64_t)i) {
    throw Exc(i + 1);
  }
  co_return (uint32_t)(i * 2654435761u);
};

inline constexpr auto leaf = [](auto, raw_atomic<uint64_t> *n) -> lf::task<> {
  n->fetch_add(1, std::memory_order_relaxed);
  co_return;
};

inline constexpr auto other = [](auto, uint32_t x) -> lf::task<uint32_t> {
  co_return x;
};

// One scope, then a small one in the same frame.
inline constexpr auto parent = [](auto, Scope *s, uint32_t *out) -> lf::task<uint64_t> {
  raw_atomic<uint64_t> extra{0};
  for (uint64_t i = 0; i < s->n; ++i) {
    co_await lf::fork(out + i, child)(s, i);
    s->epoch.store(i + 1, std::memory_order_relaxed);
    if (s->calls && i % 1024 == 5) {
      co_await lf::call(leaf)(&extra);
    }
  }
  if (s->dest) {
    co_await lf::resume_on(s->dest);
  }
  bool early = false, late = false;
  if (s->thrower >= 0) {
    uint32_t r = 0;
    try {
      co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>(&r, other)(1);
    } catch (lf::exception_before_join const &) {
      early = true;
    } catch (Exc const &) {
      VH_CHECK(s->moved.load() + s->nparked.load() == 0, "eager-exception",
               "an eager call threw a sibling's exception before the join, after %llu moves of its scope",
               (unsigned long long)(s->moved.load() + s->nparked.load()));
      late = true;
    }
  }
  s->at_join.store(true);
  try {
    co_await lf::join;
  } catch (Exc const &e) {
    VH_CHECK(s->thrower >= 0 && e.token == (uint64_t)s->thrower + 1, "foreign-exception", "the join threw %llu",
             (unsigned long long)e.token);
    late = true;
  }
  VH_CHECK(late == (s->thrower >= 0), "exception-lost", "the exception of child %lld of %llu %s", (long long)s->thrower,
           (unsigned long long)s->n, late ? "was not thrown by any child" : "is lost");
  if (early) {
    count("exceptions_announced_before_the_join");
  }
  uint64_t d = s->done.load();
  int p = s->passed.fetch_add(1) + 1;
  VH_CHECK(d == s->n, "join-early", "a join of %llu children continued when %llu had finished", (unsigned long long)s->n,
           (unsigned long long)d);
  VH_CHECK(p == 1, "join-twice", "the parent of %llu children continued %d times", (unsigned long long)s->n, p);
  raw_atomic<uint64_t> m{0};
  for (int r = 0; r < 3; ++r) {
    for (int i = 0; i < 3; ++i) {
      co_await lf::fork(leaf)(&m);
    }
    co_await lf::join;
    VH_CHECK(m.load() == (uint64_t)(r + 1) * 3, "join-early", "a later small scope continued with %llu of %d children",
             (unsigned long long)m.load(), (r + 1) * 3);
  }
  co_return d;
};

static void run(any_pool &pool, rng &g, uint64_t n, uint64_t forced, int blocked, bool hold_last, uint64_t parks = 0,
                bool hop = false, int64_t thrower = -1) {
  Scope s;
  s.parks = pool.contexts().empty() ? 0 : std::min(parks, n);
  s.parked.resize(s.parks);
  s.thrower = thrower;
  s.dest = hop && !pool.contexts().empty() ? pool.contexts()[g.below(pool.contexts().size())] : nullptr;
  s.n = n;
  s.forced = forced;
  s.blocked = hop ? 0 : (int)std::min<uint64_t>((uint64_t)blocked, n); // (the destination could be blocked)
  s.seed = g.u64();
  s.calls = g.chance(1, 2);
  for (int k = 0; k < s.blocked; ++k) {
    s.held[k] = hold_last && k == 0 ? n - 1 : k == 1 ? (uint64_t)k : g.u64() % n;
  }
  std::vector<uint32_t> out(n, 0);
  set_case("one scope on %s: %llu children, %llu of them finish only after the parent runs elsewhere, %d still running and "
           "%llu parked at the join%s%s, exception %lld",
           pool.name.c_str(), (unsigned long long)n, (unsigned long long)forced, s.blocked, (unsigned long long)s.parks,
           s.calls ? ", some calls" : "", s.dest ? ", the parent switches" : "", (long long)thrower);
  watch wd;
  auto fut = lf::schedule(pool, parent, &s, out.data());
  if (s.blocked || s.parks) {
    while (!s.at_join.load() || s.stored.load() < s.parks) {
      usleep(200);
    }
    usleep((useconds_t)g.below(4000) + 500);
    int p = s.passed.load();
    VH_CHECK(p == 0, "join-early", "the parent of %llu children passed its join with %d of them still running, "
             "%llu parked", (unsigned long long)n, s.blocked, (unsigned long long)s.parks);
    s.gate.store(true);
    auto cs = pool.contexts();
    for (uint64_t i = 0; i < s.parks; ++i) {
      cs[mix(s.seed + i) % cs.size()]->schedule(s.parked[i]);
    }
    count("parked_children", (double)s.parks);
  }
  uint64_t d = fut.get();
  VH_CHECK(d == n && s.done.load() == n && s.passed.load() == 1, "join-early", "%llu of %llu children finished",
           (unsigned long long)s.done.load(), (unsigned long long)n);
  for (uint64_t i = 0; i < n; ++i) {
    VH_CHECK((int64_t)i == thrower || out[i] == (uint32_t)(i * 2654435761u), "wrong-result", "child %llu of %llu returned %u",
             (unsigned long long)i, (unsigned long long)n, out[i]);
  }
  count("children", (double)n);
  count("forced_moves", (double)s.moved.load());
  count_max("max.forced_moves_of_one_scope", (double)s.moved.load());
  count_max("max.children_of_one_scope", (double)n);
  count_max("max.parked_children_of_one_scope", (double)s.parks);
  count("switching_parents", s.dest != nullptr);
  count("scopes_with_an_exception", thrower >= 0);
  if (s.moved.load() >= 1 << 16) {
    count("scopes_past_2_16_moves");
  }
  evaluation();
  distinct(hcombine(hcombine(n, s.moved.load() + (s.parks << 32)), hcombine((uint64_t)s.blocked * 2 + s.calls, mix(pool.kind * 8 + pool.n))));
  sample(g_case);
}

// Many scopes of one task, each moved once.
inline constexpr auto many_scopes = [](auto, Scope *s, uint64_t scopes) -> lf::task<> {
  for (uint64_t i = 0; i < scopes; ++i) {
    uint32_t out = 0;
    uint64_t before = s->done.load(std::memory_order_relaxed);
    co_await lf::fork(&out, child)(s, i);
    s->epoch.store(i + 1, std::memory_order_relaxed);
    co_await lf::join;
    VH_CHECK(s->done.load() == before + 1 && out == (uint32_t)(i * 2654435761u), "join-early",
             "scope %llu of one task continued before its child had finished", (unsigned long long)i);
  }
  s->passed.fetch_add(1);
};

// Very many continuations waiting at once, one scope each.
inline constexpr auto deep = [](auto deep, uint64_t n, raw_atomic<uint64_t> *m) -> lf::task<uint64_t> {
  if (n == 0) {
    co_return 0;
  }
  uint64_t below = 0;
  co_await lf::fork(&below, deep)(n - 1, m);
  m->fetch_add(1, std::memory_order_relaxed);
  co_await lf::join;
  VH_CHECK(below == n - 1, "join-early", "level %llu continued with the result %llu", (unsigned long long)n,
           (unsigned long long)below);
  co_return below + 1;
};

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int64_t scale = arg("max", 131073), group = arg("group", 0), extra = arg("extra", 6);
  rng g(seed);
  set_delays(g.u64(), 0, 0);
  static constexpr uint64_t sizes[] = {1,     2,     127,   128,   255,   256,    257,    511,    512,    768,
                                       32767, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 262144, 524288, 1048576};
  auto make = [&](size_t w) {
    return std::make_unique<any_pool>(g.chance(1, 2) ? any_pool::busy : any_pool::lazy, w, g.u64());
  };
  if (group == 0) { // every child moves its parent: exactly n steals
    for (uint64_t n : sizes) {
      if (n > (uint64_t)scale) {
        break;
      }
      int b = (int)g.below(3);
      auto p = make((size_t)(b + g.range(2, 4)));
      run(*p, g, n, n, b, g.chance(1, 3));
      if (n >= 255) {
        run(*p, g, n, n, b ? 0 : std::min<int>(1, (int)p->n - 2), true);
        run(*p, g, n, n, b, false, 0, true, g.chance(1, 2) ? (int64_t)g.below(n / 2 + 1) : -1);
        run(*p, g, n, n, 0, false, 0, false, (int64_t)g.below(n / 2 + 1));
        if (n <= 140000) {
          run(*p, g, n, g.chance(1, 2) ? 0 : n, 0, false, n, g.chance(1, 3));
          run(*p, g, n + g.below(2000), 0, 0, false, n, g.chance(1, 3), g.chance(1, 3) ? (int64_t)n - 1 : -1);
        }
      }
    }
    for (int k = 0; k < extra; ++k) {
      int b = (int)g.below(3);
      auto p = make((size_t)(b + g.range(2, 4)));
      uint64_t n = sizes[g.below(14)] + g.below(6);
      run(*p, g, n, n, b, g.chance(1, 3));
    }
  } else if (group == 1) { // some children, and none, move it
    for (int k = 0; k < extra; ++k) {
      int b = (int)g.below(3);
      auto p = make((size_t)(b + g.range(2, 4)));
      uint64_t n = 1 + g.u64() % (uint64_t)(scale * 4);
      run(*p, g, n, g.u64() % (uint64_t)scale % n, b, g.chance(1, 3));
      n = sizes[g.below(20)] * (1 + g.below(4));
      run(*p, g, n, 0, 0, false);
      any_pool u(any_pool::unit, 1, g.u64());
      run(u, g, n, 0, 0, false);
    }
    auto p = make(4);
    run(*p, g, ((uint64_t)std::min<int64_t>(scale, 131073) << 7) + 1, 0, 0, false); // past 2^24
  } else { // many scopes in one task, many scopes at once
    for (int k = 0; k < extra; ++k) {
      auto p = make((size_t)g.range(2, 5));
      Scope s;
      uint64_t n = (uint64_t)scale / 2 + g.below(1000);
      s.n = s.forced = ~0ull;
      set_case("%llu scopes one after the other in one task on %s", (unsigned long long)n, p->name.c_str());
      {
        watch wd;
        lf::sync_wait(*p, many_scopes, &s, n);
      }
      VH_CHECK(s.passed.load() == 1 && s.done.load() == n, "join-early", "%llu of %llu children ran",
               (unsigned long long)s.done.load(), (unsigned long long)n);
      count("consecutive_scopes", (double)n);
      evaluation();
      distinct(hcombine(n, p->n));
      raw_atomic<uint64_t> m{0};
      n = (uint64_t)scale / 2 + g.below(100000);
      set_case("%llu continuations waiting at once on %s", (unsigned long long)n, p->name.c_str());
      watch wd;
      uint64_t r = lf::sync_wait(*p, deep, n, &m);
      VH_CHECK(r == n && m.load() == n, "wrong-result", "%llu of %llu levels", (unsigned long long)r, (unsigned long long)n);
      count("simultaneous_scopes", (double)n);
      evaluation();
      distinct(hcombine(n, p->n + 100));
    }
  }
  finish();
}
