// for_each, map, fold and scan against a free-monoid oracle: every operand is an interval of positions, so any wrong,
// repeated, missing or misordered application is visible in the operands themselves.
// -DVH_ALGO=1 for_each, 2 map, 3 fold, 4 scan.
#include "pools.hpp"

using namespace vh;

#ifndef VH_ALGO
  #define VH_ALGO 1
#endif

// ------------------------------------------------------------------ values

// A combined value: the interval [lo, hi) of positions it stands for.  `raw` marks a value not yet projected.
static constexpr uint64_t raw_bit = 1ull << 62;
static constexpr uint64_t img_bit = 1ull << 63; // result of a map
static uint64_t enc(uint64_t lo, uint64_t hi) { return lo << 31 | hi; }
static uint64_t lo_of(uint64_t v) { return (v & ~(raw_bit | img_bit)) >> 31; }
static uint64_t hi_of(uint64_t v) { return v & ((1ull << 31) - 1); }

// The three element types: plain, tracked (lifetime and moved-from checks), move-only (fold accumulators).
using Pod = uint64_t;
static uint64_t val(uint64_t v) { return v; }
static uint64_t val(Tracked const &t) { return t.get(); }
template <class T>
static T mk(uint64_t v) {
  return T(v);
}

struct MoveOnly {
  Tracked t;
  explicit MoveOnly(uint64_t v) : t(v) {}
  MoveOnly(MoveOnly &&) = default;
  MoveOnly &operator=(MoveOnly &&) = default;
};
static uint64_t val(MoveOnly const &t) { return t.t.get(); }

// ------------------------------------------------------------------ one execution of one algorithm

struct Ctx {
  raw_atomic<bool> active{false};
  raw_atomic<uint64_t> applied{0}, projected{0}, order{0};
  uint64_t seed = 0;
  unsigned throw_fun = 0, throw_proj = 0; // out of 4096
  unsigned throw_copy = 0;
  uint64_t copies_from = 0; // copies fail only after this many applications
  uint64_t throw_at = 0;    // the application to fail (for failures in the second pass of a scan)
  raw_atomic<uint64_t> copies{0};
  bool fan = false;
  unsigned hop = 0; // async functions switch workers this often (of 8)
  std::span<lf::worker_context *> ctx;
  raw_atomic<int> nthrown{0};
  uint64_t thrown[64];
  raw_atomic<uint64_t> token{0};

  void reset(uint64_t sd, unsigned tf, unsigned tp, bool f, unsigned tc = 0, unsigned h = 0) {
    applied = 0;
    projected = 0;
    order = 0;
    nthrown = 0;
    seed = sd;
    throw_fun = tf;
    throw_proj = tp;
    throw_copy = tc;
    throw_at = copies_from = 0;
    copies = 0;
    hop = h;
    fan = f;
  }
  void enter(char const *what) {
    VH_CHECK(active.load(), "late-application", "%s was applied while the algorithm was not running", what);
  }
  void maybe_throw(unsigned rate, uint64_t key) {
    if (rate && (mix(seed ^ key) & 4095) < rate) {
      uint64_t t = mix(seed + 77 * token.fetch_add(1));
      int i = nthrown.fetch_add(1);
      if (i < 64) {
        thrown[i] = t;
        throw Exc(t);
      }
    }
  }
};
static Ctx g_ctx; // async functions must not capture: `this` is gone when their coroutine runs

static void work(uint64_t key) {
  perturb();
  if (mix(key ^ g_ctx.seed) % 16 == 0) {
    sched_yield();
  }
  progress();
}

// The state of a function object: copies (inside an algorithm) can fail, moves cannot.
struct State : Tracked {
  explicit State(uint64_t v) : Tracked(v) {}
  State(State const &o) : Tracked(o) {
    if (g_ctx.throw_copy && g_ctx.active.load() && g_ctx.applied.load() >= g_ctx.copies_from) {
      g_ctx.maybe_throw(g_ctx.throw_copy, g_ctx.copies.fetch_add(1) + 0x99999);
    }
  }
  State(State &&) noexcept = default;
};

#define HOP(key)                                                                                                     \
  if (g_ctx.hop && !g_ctx.ctx.empty()) {                                                                             \
    if (uint64_t h = mix(g_ctx.seed + (key)); (h & 7) < g_ctx.hop) {                                                 \
      co_await lf::resume_on(g_ctx.ctx[(h >> 8) % g_ctx.ctx.size()]);                                                \
    }                                                                                                                \
  }

inline constexpr auto noop = [](auto, unsigned k) -> lf::task<> {
  perturb();
  if (k % 3 == 0) {
    sched_yield();
  }
  progress();
  co_return;
};

// ------------------------------------------------------------------ iterators that check every step

template <class T>
struct CkIt {
  using value_type = std::remove_cv_t<T>;
  using difference_type = std::ptrdiff_t;
  using reference = T &;
  using pointer = T *;
  using iterator_category = std::random_access_iterator_tag;
  using iterator_concept = std::random_access_iterator_tag;

  T *base = nullptr;
  std::ptrdiff_t i = 0, n = 0;

  void at(std::ptrdiff_t k) const {
    VH_CHECK(base && k >= 0 && k < n, "out-of-range", "position %td of a range of %td elements was accessed", k, n);
  }
  void same(CkIt const &o) const {
    VH_CHECK(base == o.base && n == o.n, "foreign-iterator", "iterators into different ranges were combined");
  }
  CkIt &move(std::ptrdiff_t k) {
    i += k;
    VH_CHECK(base && i >= 0 && i <= n, "out-of-range", "an iterator was moved to %td in a range of %td", i, n);
    return *this;
  }
  T &operator*() const {
    at(i);
    return base[i];
  }
  T *operator->() const { return &**this; }
  T &operator[](std::ptrdiff_t k) const {
    at(i + k);
    return base[i + k];
  }
  CkIt &operator++() { return move(1); }
  CkIt &operator--() { return move(-1); }
  CkIt operator++(int) {
    auto c = *this;
    move(1);
    return c;
  }
  CkIt operator--(int) {
    auto c = *this;
    move(-1);
    return c;
  }
  CkIt &operator+=(std::ptrdiff_t k) { return move(k); }
  CkIt &operator-=(std::ptrdiff_t k) { return move(-k); }
  friend CkIt operator+(CkIt a, std::ptrdiff_t k) { return a += k; }
  friend CkIt operator+(std::ptrdiff_t k, CkIt a) { return a += k; }
  friend CkIt operator-(CkIt a, std::ptrdiff_t k) { return a -= k; }
  friend std::ptrdiff_t operator-(CkIt const &a, CkIt const &b) {
    a.same(b);
    return a.i - b.i;
  }
  friend bool operator==(CkIt const &a, CkIt const &b) {
    a.same(b);
    return a.i == b.i;
  }
  friend auto operator<=>(CkIt const &a, CkIt const &b) {
    a.same(b);
    return a.i <=> b.i;
  }
};
static_assert(std::random_access_iterator<CkIt<int>> && std::random_access_iterator<CkIt<int const>>);

// An end of another type.
struct CkEnd {
  std::ptrdiff_t n = 0;
  template <class T>
  friend bool operator==(CkIt<T> const &a, CkEnd e) {
    return a.i == e.n;
  }
  template <class T>
  friend std::ptrdiff_t operator-(CkEnd e, CkIt<T> const &a) {
    return e.n - a.i;
  }
  template <class T>
  friend std::ptrdiff_t operator-(CkIt<T> const &a, CkEnd e) {
    return a.i - e.n;
  }
};
static_assert(std::sized_sentinel_for<CkEnd, CkIt<int>>);

// n cells surrounded by guard cells.
template <class T>
struct Guarded {
  std::vector<T, raw_alloc<T>> v;
  std::ptrdiff_t n;
  static constexpr std::ptrdiff_t pad = 5;
  static constexpr uint64_t guard = 0x123456789abcull;
  template <class Make>
  Guarded(std::ptrdiff_t len, Make make) : n(len) {
    v.reserve((size_t)(n + 2 * pad));
    for (std::ptrdiff_t i = -pad; i < n + pad; ++i) {
      v.push_back(i < 0 || i >= n ? T(guard) : make(i));
    }
  }
  T *data() { return v.data() + pad; }
  T &operator[](std::ptrdiff_t i) { return data()[i]; }
  void guards() {
    for (std::ptrdiff_t i = 0; i < pad; ++i) {
      VH_CHECK(val(data()[-1 - i]) == guard && val(data()[n + i]) == guard, "wrote-outside",
               "a cell outside the range was modified");
    }
  }
};

// ------------------------------------------------------------------ invoking an algorithm in different ways

enum how_t { by_just, by_fork, by_sync_wait, by_just_in_scope, how_count };
static constexpr char const *how_name[] = {"just", "fork", "sync_wait", "just inside a scope"};

template <class R>
struct Result {
  std::optional<R> v;
};

inline constexpr auto root_just = [](auto, auto algo, auto *out, auto *...args) -> lf::task<> {
  if constexpr (std::is_same_v<decltype(out), void **>) {
    co_await lf::just(algo)(*args...);
  } else {
    *out = co_await lf::just(algo)(*args...);
  }
};
inline constexpr auto root_fork = [](auto self, auto algo, auto *out, auto *...args) -> lf::task<> {
  co_await lf::fork(noop)(1u);
  try {
    if constexpr (std::is_same_v<decltype(out), void **>) {
      co_await lf::fork(algo)(*args...);
    } else {
      co_await lf::fork(out, algo)(*args...);
    }
  } catch (...) { // a copy of an argument failed
    self.stash_exception();
  }
  co_await lf::fork(noop)(2u);
  co_await lf::call(noop)(3u);
  co_await lf::join;
};
inline constexpr auto root_scope = [](auto self, auto algo, auto *out, auto *...args) -> lf::task<> {
  co_await lf::fork(noop)(3u);
  co_await lf::fork(noop)(0u);
  try {
    if constexpr (std::is_same_v<decltype(out), void **>) {
      co_await lf::just(algo)(*args...);
    } else {
      *out = co_await lf::just(algo)(*args...);
    }
  } catch (...) {
    self.stash_exception();
  }
  co_await lf::fork(noop)(2u);
  co_await lf::join;
};

// Runs algo(args...) on the pool; returns false if it threw one of the recorded exceptions.
template <how_t How, class Out, class Algo, class... Args>
static bool invoke(any_pool &pool, Algo algo, Out *out, Args... args) {
  g_ctx.active = true;
  bool threw = false;
  uint64_t token = 0;
  try {
    watch w;
    if constexpr (How == by_just) {
      lf::sync_wait(pool, root_just, algo, out, &args...);
    } else if constexpr (How == by_fork) {
      lf::sync_wait(pool, root_fork, algo, out, &args...);
    } else if constexpr (How == by_just_in_scope) {
      lf::sync_wait(pool, root_scope, algo, out, &args...);
    } else if constexpr (std::is_same_v<Out, void *>) {
      lf::sync_wait(pool, algo, args...);
    } else {
      *out = lf::sync_wait(pool, algo, args...);
    }
  } catch (Exc const &e) {
    threw = true;
    token = e.token;
  } catch (...) {
    fail("foreign-exception", "the algorithm threw something its functions did not throw");
  }
  g_ctx.active = false;
  int k = std::min(g_ctx.nthrown.load(), 64);
  if (k) {
    VH_CHECK(threw, "exception-lost", "%d applications threw but the algorithm returned normally", k);
    bool known = false;
    for (int i = 0; i < k; ++i) {
      known |= g_ctx.thrown[i] == token;
    }
    VH_CHECK(known, "foreign-exception", "the algorithm threw an exception none of its functions threw");
    count("runs_with_exceptions");
  } else {
    VH_CHECK(!threw, "spurious-exception", "the algorithm threw although nothing was thrown");
  }
  return !threw;
}

// ------------------------------------------------------------------ case description

struct Combo {
  unsigned proj; // 0 none, 1 sync, 2 async
  bool async, chunked, inplace;
  unsigned shape; // 0 checked iterators, 1 span, 2 iterator + other sentinel, 3 subrange with another sentinel
  how_t how;
  bool tracked;
};
// Parts of four: two consecutive ones have every overload, all pairs (and the important triples) of choices are covered.
inline constexpr Combo combos[] = {
#define C(p, a, c, i, s, h, t) {p, (bool)a, (bool)c, (bool)i, s, (how_t)h, (bool)t}
    C(0, 1, 0, 0, 2, 3, 1),
    C(0, 0, 0, 0, 1, 1, 0),
    C(2, 0, 1, 0, 2, 1, 1),
    C(1, 1, 1, 0, 1, 2, 0),
    C(1, 1, 0, 1, 0, 0, 0),
    C(2, 1, 0, 1, 1, 1, 1),
    C(0, 0, 1, 1, 2, 1, 1),
    C(1, 0, 1, 1, 1, 2, 1),
    C(1, 1, 0, 0, 0, 0, 1),
    C(1, 0, 0, 0, 3, 0, 1),
    C(0, 0, 1, 0, 0, 1, 0),
    C(2, 1, 1, 0, 1, 1, 0),
    C(0, 1, 0, 1, 2, 2, 1),
    C(2, 1, 0, 1, 3, 3, 0),
    C(1, 0, 1, 1, 2, 2, 0),
    C(2, 0, 1, 1, 1, 0, 1),
    C(0, 1, 0, 0, 2, 2, 0),
    C(2, 1, 0, 0, 3, 2, 1),
    C(1, 0, 1, 0, 2, 1, 1),
    C(0, 0, 1, 0, 1, 0, 1),
    C(1, 0, 0, 1, 0, 2, 0),
    C(0, 0, 0, 1, 3, 3, 0),
    C(1, 1, 1, 1, 2, 3, 1),
    C(2, 0, 1, 1, 1, 3, 0),
    C(2, 0, 0, 0, 0, 1, 0),
    C(2, 1, 0, 0, 3, 0, 0),
    C(1, 1, 1, 0, 0, 0, 1),
    C(0, 1, 1, 0, 1, 2, 0),
    C(0, 1, 0, 1, 2, 0, 1),
    C(1, 0, 0, 1, 3, 2, 0),
    C(0, 0, 1, 1, 2, 1, 0),
    C(2, 0, 1, 1, 1, 3, 1),
#undef C
};
#ifndef VH_PART
  #define VH_PART 0
#endif

struct Case {
  std::ptrdiff_t n = 0, chunk = 1;
};

static std::ptrdiff_t pick_len(rng &g) {
  switch (g.below(8)) {
    case 0:
      return g.range(0, 3);
    case 1:
      return g.range(0, 9);
    case 2:
      return 1ll << g.below(9);
    case 3:
      return (1ll << g.range(1, 8)) + g.range(-1, 1);
    case 4:
      return g.range(0, 700);
    default:
      return g.range(0, 120);
  }
}
static std::ptrdiff_t pick_chunk(rng &g, std::ptrdiff_t n) {
  std::ptrdiff_t c = 1;
  switch (g.below(8)) {
    case 0:
      c = 1;
      break;
    case 1:
      c = 2;
      break;
    case 2:
      c = 3;
      break;
    case 3:
      c = g.range(1, 12);
      break;
    case 4:
      c = n / 2 + g.range(-1, 1);
      break;
    case 5:
      c = n + g.range(-1, 1);
      break;
    case 6:
      c = g.chance(1, 4) ? PTRDIFF_MAX : g.range(1, n + 5);
      break;
    default:
      c = n / 4 + g.range(0, 2);
      break;
  }
  return std::max<std::ptrdiff_t>(c, 1);
}

// Calls k(range..., args...) with the range in the combination's shape.
template <Combo X, class K, class VT, class... Args>
static bool shaped(K k, VT *p, std::ptrdiff_t n, Args... args) {
  CkIt<VT> b{p, 0, n};
  if constexpr (X.shape == 0) {
    return k(b, CkIt<VT>{p, n, n}, args...);
  } else if constexpr (X.shape == 1) {
    return k(std::span<VT>(p, (size_t)n), args...);
  } else if constexpr (X.shape == 2) {
    return k(b, CkEnd{n}, args...);
  } else {
    return k(std::ranges::subrange<CkIt<VT>, CkEnd>(b, CkEnd{n}), args...);
  }
}
template <Combo X, class F>
static bool with_chunk(Case const &c, F f) {
  if constexpr (X.chunked) {
    return f(c.chunk);
  } else {
    return f();
  }
}
// Picks the function and projection of the combination.
template <Combo X, class F, class FS, class FA, class PS, class PA>
static bool with_functions(F f, FS fs, FA fa, PS ps, PA pa) {
  auto g = [&](auto fun) {
    if constexpr (X.proj == 0) {
      return f(fun);
    } else if constexpr (X.proj == 1) {
      return f(fun, ps);
    } else {
      return f(fun, pa);
    }
  };
  if constexpr (X.async) {
    return g(fa);
  } else {
    return g(fs);
  }
}

// ================================================================== for_each

#if VH_ALGO == 1

struct Inner {
  uint64_t idx = 0;
  uint32_t hits = 0; // plain: a second concurrent application is a data race
};
struct Cell {
  Tracked before{1};
  Inner in;
  uint32_t projected = 0;
};

static void hit(Inner &in) {
  g_ctx.enter("the function");
  work(in.idx);
  VH_CHECK(++in.hits == 1, "applied-twice", "the function was applied %u times to element %llu", in.hits,
           (unsigned long long)in.idx);
  g_ctx.applied.fetch_add(1);
  g_ctx.order.fetch_add(mix(in.idx * 1000003 + thread_no()));
  g_ctx.maybe_throw(g_ctx.throw_fun, in.idx);
}
static Inner &project(Cell &x) {
  g_ctx.enter("the projection");
  work(x.in.idx + 5);
  VH_CHECK(++x.projected == 1, "projected-twice", "element %llu was projected twice", (unsigned long long)x.in.idx);
  g_ctx.projected.fetch_add(1);
  g_ctx.maybe_throw(g_ctx.throw_proj, x.in.idx ^ 0x5555);
  return x.in;
}

struct fun_sync {
  State state{42}; // function objects are copied and must stay alive while used
  void operator()(Cell &x) const {
    VH_CHECK(state.get() == 42, "function-state", "the function object was corrupted");
    hit(x.in);
  }
  int operator()(Inner &x) const {
    VH_CHECK(state.get() == 42, "function-state", "the function object was corrupted");
    hit(x);
    return 1;
  }
};
struct proj_sync {
  State state{43};
  Inner &operator()(Cell &x) const {
    VH_CHECK(state.get() == 43, "function-state", "the projection object was corrupted");
    return project(x);
  }
};
inline constexpr auto fun_async = []<class X>(auto self, X &x) -> lf::task<>
  requires std::same_as<X, Cell> || std::same_as<X, Inner>
{
  if (g_ctx.fan) {
    co_await lf::fork(noop)(1u);
  }
  if (g_ctx.fan) {
    co_await lf::join;
  }
  if constexpr (std::same_as<X, Cell>) {
    HOP(x.in.idx)
    hit(x.in);
  } else {
    HOP(x.idx)
    hit(x);
  }
  co_return;
};
inline constexpr auto proj_async = [](auto, Cell &x) -> lf::task<Inner &> {
  if (g_ctx.fan) {
    co_await lf::fork(noop)(2u);
    co_await lf::call(noop)(1u);
    co_await lf::join;
  }
  HOP(x.in.idx + 1)
  co_return project(x);
};

template <Combo X>
static bool run_case(any_pool &pool, Case const &c) {
  std::vector<Cell, raw_alloc<Cell>> v((size_t)c.n + 8);
  for (size_t i = 0; i < v.size(); ++i) {
    v[i].in.idx = i;
  }
  Cell *p = v.data() + 4;
  void *none = nullptr;
  bool ok = with_functions<X>(
      [&](auto... tail) {
        return with_chunk<X>(c, [&](auto... chunk) {
          return shaped<X>(
              [&](auto... a) {
                return invoke<X.how>(pool, lf::for_each, &none, a...);
              },
              p, c.n, chunk..., tail...);
        });
      },
      fun_sync{}, fun_async, proj_sync{}, proj_async);
  for (std::ptrdiff_t i = -4; i < c.n + 4; ++i) {
    bool in = i >= 0 && i < c.n;
    VH_CHECK(p[i].in.hits <= (in ? 1u : 0u), "wrote-outside", "element %td of %td was touched", i, c.n);
    if (ok) {
      VH_CHECK(p[i].in.hits == (in ? 1u : 0u), "not-applied", "element %td of %td: %u applications", i, c.n,
               p[i].in.hits);
      VH_CHECK(p[i].projected == (in && X.proj ? 1u : 0u), "not-projected", "element %td of %td: %u projections", i,
               c.n, p[i].projected);
    }
    VH_CHECK(p[i].before.get() == 1, "corrupted", "element %td was overwritten", i);
  }
  if (ok) {
    VH_CHECK(g_ctx.applied.load() == (uint64_t)c.n, "application-count", "%llu applications for %td elements",
             (unsigned long long)g_ctx.applied.load(), c.n);
  }
  return ok;
}
static char const *algo_name = "for_each";

// ================================================================== map

#elif VH_ALGO == 2

// in: raw|enc(i, i); projection clears raw; the function produces img|enc(i, i).
static uint64_t image(uint64_t v, bool projected) {
  g_ctx.enter("the function");
  work(v);
  VH_CHECK(!(v & img_bit), "wrong-operand", "the function was applied to its own output (position %llu)",
           (unsigned long long)lo_of(v));
  VH_CHECK(!projected || !(v & raw_bit), "wrong-operand", "the function was applied to an unprojected element");
  g_ctx.applied.fetch_add(1);
  g_ctx.order.fetch_add(mix(v * 1000003 + thread_no()));
  g_ctx.maybe_throw(g_ctx.throw_fun, lo_of(v));
  return (v & ~raw_bit) | img_bit;
}
static uint64_t project(uint64_t v) {
  g_ctx.enter("the projection");
  work(v + 3);
  VH_CHECK(!(v & img_bit), "wrong-operand", "the projection was applied to an output");
  g_ctx.projected.fetch_add(1);
  g_ctx.maybe_throw(g_ctx.throw_proj, lo_of(v) ^ 0x5555);
  return v & ~raw_bit;
}

template <class T, bool P>
struct fun_sync {
  State state{42};
  T operator()(T const &x) const {
    VH_CHECK(state.get() == 42, "function-state", "the function object was corrupted");
    return mk<T>(image(val(x), P));
  }
};
template <class T>
struct proj_sync {
  State state{43};
  T operator()(T const &x) const {
    VH_CHECK(state.get() == 43, "function-state", "the projection object was corrupted");
    return mk<T>(project(val(x)));
  }
};
template <class T, bool P>
inline constexpr auto fun_async = [](auto, T const &x) -> lf::task<T> {
  if (g_ctx.fan) {
    co_await lf::fork(noop)(1u);
    co_await lf::call(noop)(4u);
    co_await lf::join;
  }
  HOP(lo_of(val(x)))
  co_return mk<T>(image(val(x), P));
};
template <class T>
inline constexpr auto proj_async = [](auto, T const &x) -> lf::task<T> {
  if (g_ctx.fan) {
    co_await lf::fork(noop)(2u);
    co_await lf::join;
  }
  HOP(lo_of(val(x)) + 1)
  co_return mk<T>(project(val(x)));
};

// An output cell that counts its assignments.
template <class T>
struct OutCell {
  T v;
  uint32_t writes = 0;
  explicit OutCell(uint64_t x) : v(mk<T>(x)) {}
  OutCell &operator=(T const &x) {
    v = x;
    ++writes;
    return *this;
  }
  OutCell &operator=(T &&x) {
    v = std::move(x);
    ++writes;
    return *this;
  }
};
template <class T>
static uint64_t val(OutCell<T> const &o) {
  return val(o.v);
}

template <Combo X, class T, class O>
static bool go2(any_pool &pool, Case const &c, T *p, O out) {
  void *none = nullptr;
  constexpr bool P = X.proj != 0;
  return with_functions<X>(
      [&](auto... tail) {
        return with_chunk<X>(c, [&](auto... chunk) {
          return shaped<X>(
              [&](auto... a) {
                return invoke<X.how>(pool, lf::map, &none, a...);
              },
              p, c.n, out, chunk..., tail...);
        });
      },
      fun_sync<T, P>{}, fun_async<T, P>, proj_sync<T>{}, proj_async<T>);
}

template <Combo X, class T>
static bool run_typed(any_pool &pool, Case const &c) {
  Guarded<T> in(c.n, [](std::ptrdiff_t i) {
    return mk<T>(raw_bit | enc((uint64_t)i, (uint64_t)i));
  });
  bool ok;
  if constexpr (X.inplace) {
    ok = go2<X>(pool, c, in.data(), CkIt<T>{in.data(), 0, c.n});
    if (ok) {
      for (std::ptrdiff_t i = 0; i < c.n; ++i) {
        VH_CHECK(val(in[i]) == (img_bit | enc((uint64_t)i, (uint64_t)i)), "wrong-output",
                 "in-place map wrote %llx to position %td of %td", (unsigned long long)val(in[i]), i, c.n);
      }
    }
  } else {
    Guarded<OutCell<T>> out(c.n, [](std::ptrdiff_t) {
      return OutCell<T>(7);
    });
    ok = go2<X>(pool, c, in.data(), CkIt<OutCell<T>>{out.data(), 0, c.n});
    for (std::ptrdiff_t i = 0; i < c.n; ++i) {
      VH_CHECK(val(in[i]) == (raw_bit | enc((uint64_t)i, (uint64_t)i)), "input-changed", "map changed its input");
      VH_CHECK(out[i].writes <= 1, "written-twice", "position %td was written %u times", i, out[i].writes);
      if (ok) {
        VH_CHECK(out[i].writes == 1 && val(out[i]) == (img_bit | enc((uint64_t)i, (uint64_t)i)), "wrong-output",
                 "map wrote %llx to position %td of %td", (unsigned long long)val(out[i]), i, c.n);
      }
    }
    out.guards();
  }
  in.guards();
  if (ok) {
    VH_CHECK(g_ctx.applied.load() == (uint64_t)c.n, "application-count", "%llu applications for %td elements",
             (unsigned long long)g_ctx.applied.load(), c.n);
    VH_CHECK(g_ctx.projected.load() == (X.proj ? (uint64_t)c.n : 0), "application-count",
             "%llu projections for %td elements", (unsigned long long)g_ctx.projected.load(), c.n);
  }
  return ok;
}
template <Combo X>
static bool run_case(any_pool &pool, Case const &c) {
  if constexpr (X.tracked) {
    return run_typed<X, Tracked>(pool, c);
  } else {
    return run_typed<X, Pod>(pool, c);
  }
}
static char const *algo_name = "map";

// ================================================================== fold and scan

#else

static uint64_t combine(uint64_t a, uint64_t b) {
  g_ctx.enter("the operator");
  work(a ^ b);
  VH_CHECK(!((a | b) & raw_bit), "wrong-operand", "the operator was applied to an unprojected element");
  VH_CHECK(hi_of(a) == lo_of(b) && lo_of(a) < hi_of(a) && lo_of(b) < hi_of(b), "wrong-operand",
           "the operator was applied to [%llu,%llu) and [%llu,%llu)", (unsigned long long)lo_of(a),
           (unsigned long long)hi_of(a), (unsigned long long)lo_of(b), (unsigned long long)hi_of(b));
  uint64_t nth = g_ctx.applied.fetch_add(1) + 1;
  g_ctx.order.fetch_add(mix(mix(a) * 31 + b + thread_no()));
  g_ctx.maybe_throw(nth == g_ctx.throw_at ? 4096 : g_ctx.throw_fun, a * 5 + b);
  return enc(lo_of(a), hi_of(b));
}
static uint64_t project(uint64_t v) {
  g_ctx.enter("the projection");
  work(v + 3);
  VH_CHECK(v & raw_bit, "wrong-operand", "the projection was applied to an output or a second time to its own result");
  g_ctx.projected.fetch_add(1);
  g_ctx.maybe_throw(g_ctx.throw_proj, lo_of(v) ^ 0x5555);
  return v & ~raw_bit;
}

template <class T>
struct bop_sync {
  State state{42};
  T operator()(T a, T b) const {
    VH_CHECK(state.get() == 42, "function-state", "the operator object was corrupted");
    return mk<T>(combine(val(a), val(b)));
  }
};
template <class T>
struct proj_sync {
  State state{43};
  template <class X>
  T operator()(X const &x) const {
    VH_CHECK(state.get() == 43, "function-state", "the projection object was corrupted");
    return mk<T>(project(val(x)));
  }
};
template <class T>
inline constexpr auto bop_async = [](auto, T a, T b) -> lf::task<T> {
  if (g_ctx.fan) {
    co_await lf::fork(noop)(1u);
    co_await lf::call(noop)(4u);
    co_await lf::join;
  }
  HOP(val(a) * 3 + val(b))
  co_return mk<T>(combine(val(a), val(b)));
};
template <class T>
inline constexpr auto proj_async = []<class X>(auto, X const &x) -> lf::task<T> {
  if (g_ctx.fan) {
    co_await lf::fork(noop)(2u);
    co_await lf::join;
  }
  HOP(lo_of(val(x)) + 1)
  co_return mk<T>(project(val(x)));
};

  #if VH_ALGO == 3

// T: accumulator, In: element.
template <Combo X, class T, class In>
static bool run_typed(any_pool &pool, Case const &c) {
  Guarded<In> in(c.n, [&](std::ptrdiff_t i) {
    return mk<In>((X.proj ? raw_bit : 0) | enc((uint64_t)i, (uint64_t)i + 1));
  });
  std::optional<T> r;
  bool ok = with_functions<X>(
      [&](auto... tail) {
        return with_chunk<X>(c, [&](auto... chunk) {
          return shaped<X>(
              [&](auto... a) {
                return invoke<X.how>(pool, lf::fold, &r, a...);
              },
              in.data(), c.n, chunk..., tail...);
        });
      },
      bop_sync<T>{}, bop_async<T>, proj_sync<T>{}, proj_async<T>);
  for (std::ptrdiff_t i = 0; i < c.n; ++i) {
    VH_CHECK(val(in[i]) == ((X.proj ? raw_bit : 0) | enc((uint64_t)i, (uint64_t)i + 1)), "input-changed",
             "fold changed its input at %td", i);
  }
  in.guards();
  if (ok) {
    VH_CHECK(r.has_value() == (c.n > 0), "wrong-result", "fold of %td elements returned %s", c.n,
             r ? "a value" : "nothing");
    if (r) {
      VH_CHECK(val(*r) == enc(0, (uint64_t)c.n), "wrong-result", "fold of %td elements covers [%llu,%llu)", c.n,
               (unsigned long long)lo_of(val(*r)), (unsigned long long)hi_of(val(*r)));
    }
    VH_CHECK(g_ctx.applied.load() == (uint64_t)std::max<std::ptrdiff_t>(c.n - 1, 0), "application-count",
             "%llu applications of the operator for %td elements", (unsigned long long)g_ctx.applied.load(), c.n);
    VH_CHECK(g_ctx.projected.load() == (X.proj ? (uint64_t)c.n : 0), "application-count",
             "%llu projections for %td elements", (unsigned long long)g_ctx.projected.load(), c.n);
  }
  return ok;
}
template <Combo X>
static bool run_case(any_pool &pool, Case const &c) {
  if constexpr (X.tracked) {
    if constexpr (X.proj && X.inplace) {
      return run_typed<X, MoveOnly, Tracked>(pool, c);
    } else {
      return run_typed<X, Tracked, Tracked>(pool, c);
    }
  } else {
    return run_typed<X, Pod, Pod>(pool, c);
  }
}
static char const *algo_name = "fold";

  #else

template <Combo X, class T, class... Pre>
static bool go2(any_pool &pool, Case const &c, T *p, Pre... pre) {
  void *none = nullptr;
  return with_functions<X>(
      [&](auto... tail) {
        return with_chunk<X>(c, [&](auto... chunk) {
          return shaped<X>(
              [&](auto... a) {
                return invoke<X.how>(pool, lf::scan, &none, a...);
              },
              p, c.n, pre..., chunk..., tail...);
        });
      },
      bop_sync<T>{}, bop_async<T>, proj_sync<T>{}, proj_async<T>);
}

template <Combo X, class T>
static bool run_typed(any_pool &pool, Case const &c) {
  auto make = [&](std::ptrdiff_t i) {
    return mk<T>((X.proj ? raw_bit : 0) | enc((uint64_t)i, (uint64_t)i + 1));
  };
  Guarded<T> in(c.n, make);
  Guarded<T> out(X.inplace ? 0 : c.n, [](std::ptrdiff_t) {
    return mk<T>(raw_bit | 7);
  });
  bool ok;
  if constexpr (X.inplace) {
    ok = go2<X>(pool, c, in.data());
  } else {
    ok = go2<X>(pool, c, in.data(), CkIt<T>{out.data(), 0, c.n});
  }
  Guarded<T> &res = X.inplace ? in : out;
  for (std::ptrdiff_t i = 0; i < c.n; ++i) {
    if (ok) {
      VH_CHECK(val(res[i]) == enc(0, (uint64_t)i + 1), "wrong-output",
               "scan of %td elements wrote %s[%llu,%llu) to position %td", c.n, val(res[i]) & raw_bit ? "raw " : "",
               (unsigned long long)lo_of(val(res[i])), (unsigned long long)hi_of(val(res[i])), i);
    }
    if (!X.inplace) {
      VH_CHECK(val(in[i]) == ((X.proj ? raw_bit : 0) | enc((uint64_t)i, (uint64_t)i + 1)), "input-changed",
               "scan changed its input at %td", i);
    }
  }
  in.guards();
  out.guards();
  if (ok && c.n) {
    uint64_t a = g_ctx.applied.load();
    VH_CHECK(a >= (uint64_t)c.n - 1, "application-count", "only %llu applications", (unsigned long long)a);
    count(a == (uint64_t)c.n - 1 ? "one_pass_scans" : "two_pass_scans");
    count("second_pass_applications", (double)(a - ((uint64_t)c.n - 1)));
  }
  return ok;
}
template <Combo X>
static bool run_case(any_pool &pool, Case const &c) {
  if constexpr (X.tracked) {
    return run_typed<X, Tracked>(pool, c);
  } else {
    return run_typed<X, Pod>(pool, c);
  }
}
static char const *algo_name = "scan";
  #endif
#endif

// ------------------------------------------------------------------

using runner = bool (*)(any_pool &, Case const &);
template <size_t... I>
static constexpr std::array<runner, 4> make_runners(std::index_sequence<I...>) {
  return {run_case<combos[VH_PART * 4 + I]>...};
}
static constexpr auto runners = make_runners(std::make_index_sequence<4>{});

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int pools = (int)arg("pools", 8), cases = (int)arg("cases", 150), rate = (int)arg("rate", -1);
  int maxw = (int)arg("workers", 6), throws = (int)arg("throws", 0), late = (int)arg("late", 2);
  rng g(seed);
  for (int i = 0; i < pools; ++i) {
    static constexpr int rates[] = {0, 3000, 300, 60, 15};
    auto kind = (any_pool::kind_t)(g.chance(1, 10) ? 0 : g.range(1, 3));
    size_t w = (size_t)g.range(1, maxw);
    int64_t census = g_census.live.load(), ecensus = g_exc_census.live.load();
    auto owner = std::make_unique<any_pool>(kind, w, g.u64(), (unsigned)g.below(wp_count));
    any_pool &pool = *owner;
    g_ctx.ctx = pool.contexts();
    for (int k = 0; k < cases; ++k) {
      unsigned rt = rate >= 0 ? (unsigned)rate : (unsigned)rates[g.below(5)];
      set_delays(g.u64(), rt, (unsigned)g.below(3));
      Case c;
      c.n = pick_len(g);
      c.chunk = pick_chunk(g, c.n);
      size_t which = g.below(4);
      Combo const &x = combos[VH_PART * 4 + which];
      unsigned tf = 0, tp = 0;
      if (throws && g.chance(4, 5)) {
        unsigned r = g.chance(1, 3) ? 4096 : (unsigned)(1 + 4096 * g.range(1, 6) / (c.n + 1));
        (g.chance(1, 2) || !x.proj ? tf : tp) = r;
        if (g.chance(1, 3)) {
          tf = tp = r;
        }
      }
      unsigned tc = 0;
      if (throws && g.chance(1, 3)) {
        tc = (unsigned)(1 + 4096 * g.range(1, 6) / (2 * c.n + 20));
        if (g.chance(1, 2)) {
          tf = tp = 0;
        }
      }
      g_ctx.reset(g.u64(), tf, tp, g.chance(1, 3), tc, g.chance(1, 3) ? (unsigned)g.range(1, 8) : 0);
      if (throws && c.n > 1 && g.chance((uint64_t)late, 8)) {
        g_ctx.throw_fun = g_ctx.throw_proj = g_ctx.throw_copy = tf = tp = tc = 0;
        if (g.chance(1, 2)) {
          g_ctx.throw_at = (uint64_t)(c.n - 1 + (1 << g.below(8)) - (int)g.chance(1, 2));
        } else {
          g_ctx.throw_copy = tc = (unsigned)(4096 >> g.below(5));
          g_ctx.copies_from = (uint64_t)(c.n - 1 + (int)g.below(3));
        }
        if (g.chance(1, 2)) {
          g_ctx.hop = (unsigned)g.range(1, 8);
        }
        count("runs_with_late_failures");
      }
      set_case("seed=%llu pool=%d case=%d %s on %s by %s: n=%td chunk=%td(%d) %s op, projection %u, shape %u, %s, "
               "%s, throw %u/%u/%u hop %u rate=%u",
               (unsigned long long)seed, i, k, algo_name, pool.name.c_str(), how_name[x.how], c.n, c.chunk, x.chunked,
               x.async ? "async" : "sync", x.proj, x.shape, x.inplace ? "in place" : "separate output",
               x.tracked ? "tracked" : "plain", tf, tp, tc, g_ctx.hop, rt);
      bool ok = runners[which](pool, c);
      count("elements", (double)c.n);
      count("applications", (double)g_ctx.applied.load());
      if (tc) {
        count("copies_that_could_fail", (double)g_ctx.copies.load());
      }
      if (g_ctx.hop && !g_ctx.ctx.empty() && (x.async || x.proj == 2)) {
        count("runs_with_switching_functions");
      }
      count("projections", (double)g_ctx.projected.load());
      count(std::string(ok ? "completed_" : "threw_") + algo_name);
      if (!ok && (g_ctx.throw_at || g_ctx.copies_from)) {
        count("late_failures");
      }
      evaluation();
      distinct(hcombine(g_ctx.order.load(), hcombine((uint64_t)c.n, (uint64_t)c.chunk)));
      if (k == 7 || k == 20) {
        sample(g_case);
      }
      if (!ok) { // everything must be usable again
        g_ctx.reset(g.u64(), 0, 0, false);
        VH_CHECK(runners[which](pool, c), "spurious-exception", "the repetition without exceptions threw");
        count("repetitions_after_exceptions");
      }
    }
    // A root task's own arguments may still be being destroyed when its result is out: judge once the workers are gone.
    {
      watch wd;
      owner.reset();
    }
    VH_SOFT(g_census.live.load() == census, "object-leak", "%lld objects are left after the algorithms",
            (long long)(g_census.live.load() - census));
    VH_SOFT(g_exc_census.live.load() == ecensus, "exception-leak", "%lld exceptions are left after the algorithms",
            (long long)(g_exc_census.live.load() - ecensus));
  }
  finish();
}
