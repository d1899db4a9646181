// C05: native stack use, storage held per live frame, system allocations per operation, growth over repetitions.
#include "pools.hpp"

using namespace vh;

// ------------------------------------------------------------------ native stack monitor

static raw_atomic<uint64_t> g_gen{1};
static raw_atomic<size_t> g_range{0};
inline constinit thread_local uintptr_t t_lo = 0, t_hi = 0;
inline constinit thread_local uint64_t t_gen = 0;
#if defined(VH_ASAN) || defined(VH_TSAN)
static constexpr size_t native_bound = 96 << 10;
#else
static constexpr size_t native_bound = 32 << 10;
#endif

// Called by tasks wherever they run: where the native stack of this thread is.
__attribute__((noinline)) static void note() {
  uintptr_t a = (uintptr_t)__builtin_frame_address(0);
  if (uint64_t g = g_gen.load(std::memory_order_relaxed); t_gen != g) {
    t_gen = g;
    t_lo = t_hi = a;
  }
  t_lo = std::min(t_lo, a);
  t_hi = std::max(t_hi, a);
  size_t r = t_hi - t_lo;
  VH_CHECK(r <= native_bound, "native-stack",
           "tasks used %zu bytes of the native stack of one thread (more than any single operation needs)", r);
  size_t o = g_range.load(std::memory_order_relaxed);
  while (o < r && !g_range.compare_exchange_weak(o, r)) {
  }
  progress();
}

// ------------------------------------------------------------------ tasks

static raw_atomic<uint64_t> g_tasks{0};

template <size_t S>
struct pad_t {
  unsigned char b[S];
  void fill(uint64_t k) {
    b[0] = (unsigned char)k;
    b[S / 2] = (unsigned char)(k >> 8);
    b[S - 1] = (unsigned char)(k >> 16);
    asm volatile("" : : "r"(b) : "memory");
  }
  void check(uint64_t k) {
    asm volatile("" : : "r"(b) : "memory");
    unsigned char x = (unsigned char)(k >> 16), y = S > 1 && S / 2 != S - 1 ? (unsigned char)(k >> 8) : x,
                  z = S > 1 ? (unsigned char)k : x;
    if (S >= 3) {
      VH_CHECK(b[S - 1] == x && b[S / 2] == y && b[0] == z, "frame-overwritten", "a live frame of %zu bytes changed", S);
    }
  }
};

enum how : unsigned { h_call, h_fork, h_fork_leaf, h_throw, h_mix, h_discard, h_eager, h_count };
static char const *how_name[] = {"call", "fork+join", "fork+leaf+join", "throw", "mixed", "discarded", "eager"};

inline constexpr auto leaf = [](auto, uint64_t k) -> lf::task<uint64_t> {
  note();
  co_return k;
};

struct deepest {
  uintptr_t prev = 0;
  size_t frame = SIZE_MAX; // smallest distance of two nested frames
};

// A chain of n frames that hold S bytes each.
template <size_t S>
struct chain_t {
  static constexpr auto fun = [](auto self, unsigned mode, uint64_t n, deepest *d) -> lf::task<uint64_t> {
    pad_t<S> p;
    uint64_t k = mix(n);
    p.fill(k);
    note();
    if (d) {
      uintptr_t a = (uintptr_t)&p;
      size_t x = a > d->prev ? a - d->prev : d->prev - a;
      d->frame = std::min(d->frame, x);
      d->prev = a;
    }
    uint64_t r = 0, q = 0;
    if (n == 0) {
      p.check(k);
      if (mode == h_throw) {
        throw Exc{7};
      }
      co_return 1;
    }
    unsigned m = mode == h_mix ? (unsigned)(k % 5) : mode;
    switch (m) {
      case h_fork:
        co_await lf::fork(&r, self)(mode, n - 1, d);
        co_await lf::join;
        break;
      case h_fork_leaf:
        co_await lf::fork(&r, self)(mode, n - 1, d);
        co_await lf::call(&q, leaf)(n);
        co_await lf::join;
        break;
      case h_discard: {
        // The result travels by side effect only.
        co_await lf::call(self)(mode, n - 1, d);
        r = n;
        break;
      }
      case h_eager:
        co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>(&r, self)(mode, n - 1, d);
        break;
      case h_throw: {
        bool caught = false;
        try {
          co_await lf::call(&r, self)(mode, n - 1, d);
          co_await lf::join;
        } catch (Exc const &) {
          caught = true;
        }
        note();
        VH_CHECK(mode != h_throw || caught, "exception-lost", "no exception arrived at depth %llu", (unsigned long long)n);
        p.check(k);
        if (mode == h_throw) {
          throw Exc{n};
        }
        break;
      }
      default:
        co_await lf::call(&r, self)(mode, n - 1, d);
        break;
    }
    note();
    p.check(k);
    co_return r + 1;
  };
};

// Wide scopes: many short children in one scope.
inline constexpr auto wide = [](auto, unsigned mode, uint64_t n) -> lf::task<uint64_t> {
  uint64_t r = 0, s = 0;
  std::vector<uint64_t, raw_alloc<uint64_t>> each(mode == 0 || mode == 6 ? n : 0);
  note();
  for (uint64_t i = 0; i < n; ++i) {
    switch (mode) {
      case 0:
        co_await lf::fork(&each[i], leaf)(i);
        break;
      case 1:
        co_await lf::call(&r, leaf)(i);
        s += r;
        break;
      case 2:
        co_await lf::fork(&r, leaf)(i);
        co_await lf::join;
        s += r;
        break;
      case 3: {
        uint64_t v = co_await lf::just(leaf)(i);
        s += v;
        break;
      }
      case 4:
        co_await lf::fork(leaf)(i);
        break;
      case 5:
        co_await lf::join;
        break;
      case 6:
        if (co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>(&each[i], leaf)(i)) {
          s += each[i];
        }
        break;
      default: {
        auto mem = co_await lf::co_new<uint64_t>(1 + i % 7);
        auto &&[sp] = mem;
        sp[0] = i;
        break;
      }
    }
    note();
  }
  co_await lf::join;
  note();
  co_return s;
};

inline constexpr auto hops = [](auto, lf::worker_context *const *c, size_t nc, uint64_t n, uint64_t seed) -> lf::task<void> {
  for (uint64_t i = 0; i < n; ++i) {
    note();
    co_await lf::resume_on(c[mix(seed + i) % nc]);
  }
};

inline constexpr auto hop_tree = [](auto self, lf::worker_context *const *c, size_t nc, unsigned d,
                                    uint64_t seed) -> lf::task<void> {
  note();
  if (d) {
    co_await lf::fork(self)(c, nc, d - 1, mix(seed));
    if (nc && seed % 3 == 0) {
      co_await lf::resume_on(c[seed / 3 % nc]);
    }
    co_await lf::call(self)(c, nc, d - 1, mix(seed + 1));
    co_await lf::join;
  }
  note();
};

inline constexpr auto fib = [](auto self, unsigned n) -> lf::task<uint64_t> {
  note();
  if (n < 2) {
    co_return n;
  }
  uint64_t a = 0, b = 0;
  co_await lf::fork(&a, self)(n - 1);
  co_await lf::call(&b, self)(n - 2);
  co_await lf::join;
  co_return a + b;
};

// ------------------------------------------------------------------ scheduling on the calling thread

// Runs a root task on the calling thread, which has a small native stack and is a worker for the duration.
struct here {
  lf::submit_handle got = nullptr;
  void schedule(lf::submit_handle h) { got = h; }
};
static_assert(lf::scheduler<here>);

// A root task built here and run by a fresh thread with `stack` bytes of native stack.
template <class F, class... A>
static auto run_small(size_t stack, F const &f, A... a) {
  here h;
  auto fut = lf::schedule(h, f, a...);
  struct arg_t {
    lf::submit_handle h;
    size_t allocs;
  } x{h.got, 0};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, stack);
  pthread_t t;
  int rc = pthread_create(
      &t, &at,
      [](void *p) -> void * {
        auto *y = (arg_t *)p;
        lf::worker_context *me = lf::worker_init(lf::nullary_function_t{[] {}});
        auto a0 = t_allocs;
        lf::resume(y->h);
        y->allocs = (size_t)(t_allocs - a0);
        lf::finalize(me);
        return nullptr;
      },
      &x);
  VH_CHECK(rc == 0, "harness", "pthread_create: %d", rc);
  pthread_join(t, nullptr);
  pthread_attr_destroy(&at);
  return fut;
}

static raw_string who;

// ------------------------------------------------------------------ A: depth

template <size_t S>
static void deep_one(unsigned mode, uint64_t n, size_t stack) {
  set_case("chain of %llu frames with %zu bytes by %s on a native stack of %zu", (unsigned long long)n, S, how_name[mode],
           stack);
  g_gen.fetch_add(1);
  int64_t b0 = heap_bytes();
  h_peak.store(b0);
  h_track_peak.store(true);
  deepest d;
  bool threw = false;
  uint64_t r = 0;
  size_t allocs = 0;
  {
    watch w;
    here h;
    {
      auto fut = run_small(stack, chain_t<S>::fun, mode, n, mode == h_mix ? nullptr : &d);
      try {
        r = fut.get();
      } catch (Exc const &) {
        threw = true;
      }
    }
  }
  h_track_peak.store(false);
  VH_CHECK(threw == (mode == h_throw), "exception-lost", "threw=%d", threw);
  if (mode != h_throw && mode != h_mix && mode != h_discard) {
    VH_CHECK(r == n + 1, "wrong-value", "%llu instead of %llu", (unsigned long long)r, (unsigned long long)n + 1);
  }
  if (heap_active && mode != h_mix && n > 100) {
    // Uniform frames: what the system had to provide, against what was alive at the deepest point.
    double live = double(n + 1) * double(d.frame), peak = double(h_peak.load() - b0);
    double extra = 96 << 10;
    if (mode == h_fork || mode == h_fork_leaf) {
      extra += double(n) * 8 * 4; // the queue of continuations and its earlier buffers
    }
    if (mode == h_throw) {
      extra += 64 << 10;
    }
    VH_CHECK(peak <= 6 * live + extra, "storage-not-bounded", "%.0f bytes of storage for %.0f bytes of frames", peak, live);
    count_max("max.storage_per_live_byte_x1000", 1000 * peak / (live + extra));
    count("peaks_compared");
    // Geometric growth: few system allocations.
    (void)allocs;
  }
  count("deep_chains");
  count("frames_in_chains", double(n));
  count_max("max.depth", double(n));
  evaluation();
  distinct(hcombine(hcombine(S, mode), n));
}

static void deep(rng &g, int rounds) {
  for (int i = 0; i < rounds; ++i) {
    unsigned mode = (unsigned)g.below(h_count);
    size_t stack = (192 << 10) + 2 * native_bound;
#if defined(VH_ASAN) || defined(VH_TSAN)
    uint64_t big = 60'000;
#else
    uint64_t big = i == 0 ? 1'000'000 : 150'000;
#endif
    if (mode == h_throw || mode == h_mix) {
      big = std::min<uint64_t>(big, 20'000);
    }
    uint64_t n = g.chance(1, 3) ? big : g.below(big / 4);
    switch (g.below(6)) {
      case 0:
        deep_one<1>(mode, n, stack);
        break;
      case 1:
        deep_one<64>(mode, n, stack);
        break;
      case 2:
        deep_one<500>(mode, n / 3, stack);
        break;
      case 3:
        deep_one<3000>(mode, n / 20, stack);
        break;
      case 4:
        deep_one<9000>(mode, n / 60, stack);
        break;
      default:
        deep_one<40000>(mode, n / 300, stack);
        break;
    }
  }
}

static void broad(rng &g, int rounds) {
  for (int i = 0; i < rounds; ++i) {
    unsigned mode = (unsigned)g.below(8);
    uint64_t n = 1000 + g.below(100'000);
    set_case("scope with %llu operations of kind %u", (unsigned long long)n, mode);
    g_gen.fetch_add(1);
    int64_t b0 = heap_bytes();
    h_peak.store(b0);
    h_track_peak.store(true);
    uint64_t r;
    {
      watch w;
      r = run_small((192 << 10) + 2 * native_bound, wide, mode, n).get();
    }
    h_track_peak.store(false);
    if (mode == 1 || mode == 2 || mode == 3) {
      VH_CHECK(r == n * (n - 1) / 2, "wrong-value", "sum of results");
    }
    if (heap_active) {
      // One worker: at any time at most two frames are alive.
      VH_CHECK(h_peak.load() - b0 <= (160 << 10), "storage-not-bounded", "%lld bytes for a scope of short children",
               (long long)(h_peak.load() - b0));
      count("peaks_compared");
    }
    count("broad_scopes");
    evaluation();
    distinct(hcombine(mode, n));
  }
}

// ------------------------------------------------------------------ B: allocations when a boundary is crossed

template <size_t S>
struct probe_t {
  // At depth n: repeat a call or fork of a short chain of frames like the ones below.
  static constexpr auto fun = [](auto self, unsigned how, uint64_t n, unsigned below, unsigned reps, int64_t *allocs,
                                 size_t block) -> lf::task<uint64_t> {
    pad_t<S> p;
    uint64_t k = mix(n);
    p.fill(k);
    uint64_t r = 0;
    if (n) {
      co_await lf::call(&r, self)(how, n - 1, below, reps, allocs, block);
    } else {
      int64_t a0 = 0;
      for (unsigned i = 0; i < reps + 1; ++i) {
        if (i == 1) {
          a0 = t_allocs; // the first repetition may set up
        }
        if (how == 0) {
          co_await lf::call(&r, chain_t<S>::fun)(h_call, below, nullptr);
        } else if (how == 1) {
          co_await lf::fork(&r, chain_t<S>::fun)(h_call, below, nullptr);
          co_await lf::join;
        } else if (how == 2) {
          auto m = co_await lf::co_new<std::byte>(block);
          auto &&[sp] = m;
          sp[block - 1] = std::byte{1};
        } else {
          co_await lf::fork(&r, chain_t<S>::fun)(h_fork, below, nullptr);
        }
        note();
      }
      co_await lf::join;
      *allocs = t_allocs - a0;
    }
    p.check(k);
    co_return r;
  };
};

template <size_t S>
static void boundary_one(rng &g, uint64_t n) {
  if (!heap_active) {
    return;
  }
  unsigned how = (unsigned)g.below(4), below = (unsigned)g.below(2), reps = 200;
  set_case("%u repetitions of %u nested frames of %zu bytes at depth %llu, way %u", reps, below + 1, S,
           (unsigned long long)n, how);
  // A block up to three times as large as everything below it.
  size_t block = 1 + g.below(3 * (n + 1) * S);
  g_gen.fetch_add(1);
  int64_t a = -1;
  {
    watch w;
    run_small(512 << 10, probe_t<S>::fun, how, n, below, reps, &a, block).get();
  }
  // Two nested frames can straddle at most one boundary each.
  VH_CHECK(a <= 12, "allocation-per-call", "%lld system allocations in %u repetitions", (long long)a, reps);
  count("boundary_probes");
  count_max("max.allocations_in_200_repetitions", double(a));
  evaluation();
  distinct(hcombine(hcombine(S, how), hcombine(n, below)));
}

static void boundary(rng &g, int rounds) {
  for (int i = 0; i < rounds; ++i) {
    // Every small depth sooner or later, and random larger ones.
    uint64_t n = g.chance(2, 3) ? 1 + g.below(64) : 1 + g.below(1500);
    switch (g.below(7)) {
      case 0:
        boundary_one<3>(g, n);
        break;
      case 1:
        boundary_one<100>(g, n);
        break;
      case 2:
        boundary_one<600>(g, n);
        break;
      case 3:
        boundary_one<1500>(g, n);
        break;
      case 4:
        boundary_one<3500>(g, n / 4 + 1);
        break;
      case 5:
        boundary_one<12000>(g, n / 10 + 1);
        break;
      default:
        boundary_one<50000>(g, n / 40 + 1);
        break;
    }
  }
}

// ------------------------------------------------------------------ C: storage held against what is alive, at any time

struct mem_acct {
  int64_t base = 0, live = 0, worst = 0;
  uint64_t checks = 0;
  uint64_t budget = 0;
  void check() {
    int64_t held = heap_bytes() - base;
    ++checks;
    worst = std::max(worst, held - 80 * live);
    VH_CHECK(held <= 100 * live + (160 << 10), "storage-held", "%lld bytes held while %lld bytes of frames are alive",
             (long long)held, (long long)live);
  }
};

struct rnd_any_t {
  template <class Self>
  auto operator()(Self self, mem_acct *a, uint64_t seed, unsigned depth) const -> lf::task<uint64_t>;
};
inline constexpr rnd_any_t rnd_any{};
template <size_t S>
struct rnd_t {
  static constexpr auto fun = [](auto, mem_acct *a, uint64_t seed, unsigned depth) -> lf::task<uint64_t> {
    pad_t<S> p;
    p.fill(seed);
    a->live += S + 64;
    note();
    a->check();
    rng g(seed);
    unsigned kids = depth ? (unsigned)g.below(4) : 0;
    for (unsigned i = 0; i < kids && a->budget; ++i) {
      --a->budget;
      uint64_t r = 0;
      if (g.chance(1, 4)) {
        size_t n = g.chance(1, 4) ? g.below(3'000'000) : g.below(6000);
        auto m = co_await lf::co_new<std::byte>(n);
        auto &&[sp] = m;
        a->live += (int64_t)n;
        a->check();
        if (g.chance(1, 2)) {
          co_await lf::call(&r, rnd_any)(a, g.u64(), depth - 1);
        }
        a->live -= (int64_t)n;
      } else if (g.chance(1, 2)) {
        co_await lf::call(&r, rnd_any)(a, g.u64(), depth - 1);
      } else {
        co_await lf::fork(&r, rnd_any)(a, g.u64(), depth - 1);
        co_await lf::join;
      }
      a->check();
    }
    p.check(seed);
    a->live -= S + 64;
    co_return 1;
  };
};

template <class Self>
auto rnd_any_t::operator()(Self, mem_acct *a, uint64_t seed, unsigned depth) const -> lf::task<uint64_t> {
  a->live += 64;
  note();
  rng g(seed);
  uint64_t r = 0;
  switch (g.below(5)) {
    case 0:
      co_await lf::call(&r, rnd_t<8>::fun)(a, g.u64(), depth);
      break;
    case 1:
      co_await lf::call(&r, rnd_t<300>::fun)(a, g.u64(), depth);
      break;
    case 2:
      co_await lf::call(&r, rnd_t<2500>::fun)(a, g.u64(), depth);
      break;
    case 3:
      co_await lf::call(&r, rnd_t<20000>::fun)(a, g.u64(), depth);
      break;
    default:
      co_await lf::call(&r, rnd_t<200000>::fun)(a, g.u64(), depth);
      break;
  }
  a->live -= 64;
  a->check();
  co_return r;
}

static void held(rng &g, int rounds) {
  if (!heap_active) {
    return;
  }
  for (int i = 0; i < rounds; ++i) {
    mem_acct a;
    uint64_t seed = g.u64();
    unsigned depth = 3 + (unsigned)g.below(20);
    a.budget = 3000;
    a.base = heap_bytes();
    set_case("random tree %llx of depth %u", (unsigned long long)seed, depth);
    g_gen.fetch_add(1);
    {
      watch w;
      run_small(512 << 10, rnd_any, &a, seed, depth).get();
    }
    count("held_storage_checks", double(a.checks));
    evaluation();
    distinct(hcombine(seed, depth));
  }
}

// ------------------------------------------------------------------ D: repetition

static void repeat(rng &g, int pools, int rounds) {
  for (int i = 0; i < pools; ++i) {
    unsigned kind = (unsigned)g.below(4);
    size_t n = 1 + g.below(6);
    any_pool p((any_pool::kind_t)kind, n, g.u64());
    n = p.n;
    who.assign(p.name.begin(), p.name.end());
    auto cs = p.contexts();
    size_t nc = cs.size();
    unsigned what = (unsigned)g.below(4);
    auto once = [&](int k) {
      watch w;
      switch (what) {
        case 0:
          lf::sync_wait(p, fib, 12u);
          break;
        case 1:
          lf::sync_wait(p, hop_tree, cs.data(), nc, 7u, mix((uint64_t)k));
          break;
        case 2:
          if (nc) {
            lf::sync_wait(p, hops, cs.data(), nc, (uint64_t)50, (uint64_t)k);
          } else {
            lf::sync_wait(p, fib, 10u);
          }
          break;
        default:
          lf::sync_wait(p, chain_t<500>::fun, (unsigned)h_mix, (uint64_t)200, nullptr);
          break;
      }
    };
    set_case("%s repeats computation %u", who.c_str(), what);
    g_gen.fetch_add(1);
    for (int k = 0; k < 20; ++k) {
      once(k);
    }
    auto settle = [&](int64_t limit_bytes, int64_t limit_blocks) {
      // Workers may still be tidying up after the last result.
      for (int tries = 0;; ++tries) {
        int64_t b = heap_bytes(), l = heap_live();
        if (b <= limit_bytes && l <= limit_blocks) {
          return;
        }
        VH_CHECK(tries < 4000, "memory-growth",
                 "%lld blocks, %lld bytes more than after the first 20 repetitions are still held after %d more",
                 (long long)(l - limit_blocks), (long long)(b - limit_bytes), rounds);
        timespec ts{0, 2'000'000};
        nanosleep(&ts, nullptr);
      }
    };
    if (heap_active) {
      // At rest each worker holds one small stacklet and possibly a cached one, whatever happened before.
      int64_t b0, l0;
      for (int s = 0;; ++s) {
        b0 = heap_bytes();
        l0 = heap_live();
        timespec ts{0, 3'000'000};
        nanosleep(&ts, nullptr);
        if ((b0 == heap_bytes() && l0 == heap_live()) || s > 200) {
          break;
        }
      }
      for (int k = 0; k < rounds; ++k) {
        once(k + 20);
      }
      settle(b0 + (int64_t)n * (48 << 10) + (16 << 10), l0 + 4 * (int64_t)n + 8);
      count("repetition_growth_checks");
      count("repetitions", rounds);
    } else {
      for (int k = 0; k < rounds / 4; ++k) {
        once(k + 20);
      }
    }
    evaluation();
    distinct(hcombine(hcombine(kind, n), what));
  }
}

// ------------------------------------------------------------------ E: native stack of pool threads

static void pools_native(rng &g, int pools, int rounds) {
  for (int i = 0; i < pools; ++i) {
    any_pool p((any_pool::kind_t)g.below(4), 1 + g.below(7), g.u64());
    auto cs = p.contexts();
    who.assign(p.name.begin(), p.name.end());
    for (int k = 0; k < rounds; ++k) {
      g_gen.fetch_add(1);
      unsigned what = (unsigned)g.below(5);
      set_case("%s native stack, computation %u", who.c_str(), what);
      watch w;
      switch (what) {
        case 0:
          lf::sync_wait(p, fib, 16u);
          break;
        case 1:
          lf::sync_wait(p, hop_tree, cs.data(), cs.size(), 9u, g.u64());
          break;
        case 2: {
          unsigned m = (unsigned)g.below(h_count);
          uint64_t n = 500 + g.below(m == h_throw || m == h_mix ? 3000 : 20000);
          try {
            lf::sync_wait(p, chain_t<64>::fun, m, n, nullptr);
          } catch (Exc const &) {
          }
          break;
        }
        case 3:
          lf::sync_wait(p, wide, (unsigned)g.below(8) % 7, (uint64_t)5000);
          break;
        default:
          if (!cs.empty()) {
            lf::sync_wait(p, hops, cs.data(), cs.size(), (uint64_t)400, g.u64());
          }
          break;
      }
      count("pool_computations");
      evaluation();
      distinct(hcombine(hcombine(p.kind, p.n), hcombine(what, 77)));
    }
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  rng g((uint64_t)arg("seed", 1));
  set_delays(g.u64(), (unsigned)arg("rate", 0), 0);
  {
    // First use of what is set up once.
    run_small(512 << 10, chain_t<64>::fun, (unsigned)h_throw, (uint64_t)3, nullptr).wait();
    any_pool p(any_pool::lazy, 2, 1);
    lf::sync_wait(p, fib, 5u);
  }
  int k = (int)arg("rounds", 10);
  int64_t live0 = 0, bytes0 = 0;
  for (int i = 0; i < 2; ++i) {
    live0 = heap_live();
    bytes0 = heap_bytes();
    deep(g, k * 2);
    broad(g, k * 2);
    boundary(g, k * 60);
    held(g, k * 3);
    repeat(g, k, 200);
    pools_native(g, k, 10);
    if (heap_active) {
      VH_CHECK(heap_live() == live0, "memory-leak", "%lld blocks (%lld bytes) were not released",
               (long long)(heap_live() - live0), (long long)(heap_bytes() - bytes0));
      count("heap_balance_checks");
    }
  }
  count_max("max.native_stack_range", double(g_range.load()));
  finish();
}
