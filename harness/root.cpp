// mode=1 (C14): root tasks - futures, sync_wait, detach, failing schedulers, argument passing.
// mode=2 (C15): worker_init / finalize against a model.
#include "pools.hpp"

using namespace vh;

// ------------------------------------------------------------------ what a root task reports

struct Ctl {
  // All plain: whoever waited for the task must see them without a race.
  int started = 0, finished = 0;
  uint64_t sum = 0;
  Tracked const *arg_addr = nullptr;
  Tracked const *ref_addr = nullptr;
  Tracked const *cref_addr = nullptr;
  raw_atomic<bool> done{false}; // for tasks nobody waits for
  raw_atomic<bool> gate{true};  // a closed gate holds the task
  uint64_t token = 0;
  unsigned mode = 0; // 0 return, 1 throw at once, 2 fork-join then return, 3 fork-join then throw, 4 throwing conversion
  Tracked target{0};
};

struct Conv { // conversion to the result type throws
  uint64_t token;
  operator Tracked() const { throw Exc(token); }
};

inline constexpr auto leaf = [](auto, uint64_t x) -> lf::task<uint64_t> {
  perturb();
  co_return mix(x);
};

static void hold(Ctl *c) {
  while (!c->gate.load()) {
    sched_yield();
  }
}

// R: result type.  The function object counts its copies.
template <class R>
struct Root {
  Tracked copies{1};
  auto operator()(auto self, Ctl *c, Tracked val, Tracked &ref, Tracked const &cref, std::unique_ptr<Tracked> own) const
      -> lf::task<R> {
    VH_CHECK(c->started == 0, "ran-twice", "a root task started twice");
    c->started = 1;
    c->arg_addr = &val;
    c->ref_addr = &ref;
    c->cref_addr = &cref;
    uint64_t v0 = val.get(), o0 = own->get();
    c->sum = hcombine(hcombine(v0, ref.get()), hcombine(cref.get(), o0));
    if (c->mode >= 2) {
      uint64_t a = 0, b = 0;
      co_await lf::fork(&a, leaf)(v0);
      co_await lf::fork(&b, leaf)(o0);
      co_await lf::join;
      VH_CHECK(a == mix(v0) && b == mix(o0), "wrong-value", "children of a root task");
    }
    hold(c);
    VH_CHECK(&val == c->arg_addr && val.get() == v0 && own->get() == o0, "argument-lifetime",
             "an argument changed while the task ran");
    progress();
    // Nobody may touch *c after done is set: the task may be detached.
    unsigned const mode = c->mode;
    uint64_t const token = c->token, sum = c->sum;
    if (mode == 1 || mode == 3) {
      c->finished = 1;
      c->done.store(true, std::memory_order_release);
      throw Exc(token);
    }
    if constexpr (std::same_as<R, void>) {
      c->finished = 1;
      c->done.store(true, std::memory_order_release);
      co_return;
    } else if constexpr (std::is_reference_v<R>) {
      Tracked &target = c->target;
      c->finished = 1;
      c->done.store(true, std::memory_order_release);
      co_return static_cast<R>(target);
    } else if constexpr (std::same_as<R, std::unique_ptr<Tracked>>) {
      auto r = std::make_unique<Tracked>(sum);
      c->finished = 1;
      c->done.store(true, std::memory_order_release);
      co_return r;
    } else {
      c->finished = 1;
      c->done.store(true, std::memory_order_release);
      if constexpr (std::same_as<R, Tracked>) {
        if (mode == 4) {
          co_return Conv{token};
        }
      }
      co_return R(sum);
    }
  }
};

struct Args {
  Ctl ctl;
  Tracked val, ref, cref;
  uint64_t sum = 0;
  std::unique_ptr<Tracked> own;
  explicit Args(rng &g) : val(g.u64()), ref(g.u64()), cref(g.u64()), own(std::make_unique<Tracked>(g.u64())) {
    sum = hcombine(hcombine(val.get(), ref.get()), hcombine(cref.get(), own->get()));
    ctl.token = g.u64();
    ctl.mode = (unsigned)g.below(4);
  }
  bool throws() const { return ctl.mode == 1 || ctl.mode == 3 || ctl.mode == 4; }
};

template <class R>
static lf::future<R> start(auto &&sch, Args &a, rng &g) {
  auto val0 = a.val.get();
  if (g.chance(1, 2)) {
    Root<R> const f{};
    auto fut = lf::schedule(std::forward<decltype(sch)>(sch), f, &a.ctl, a.val, a.ref, a.cref, std::move(a.own));
    VH_CHECK(!a.val.moved && a.val.get() == val0, "argument-moved", "an lvalue argument was moved from");
    VH_CHECK(a.own == nullptr, "argument-not-moved", "a move-only argument was not moved");
    return fut;
  }
  Tracked tmp(val0);
  auto fut = lf::schedule(std::forward<decltype(sch)>(sch), Root<R>{}, &a.ctl, std::move(tmp), a.ref, a.cref,
                          std::move(a.own));
  VH_CHECK(tmp.moved, "argument-not-moved", "an rvalue argument was copied");
  return fut;
}

template <class R>
static void check_done(Args &a, char const *after) {
  VH_CHECK(a.ctl.finished == 1 && a.ctl.started == 1, "returned-early", "%s: the task has not finished", after);
  VH_CHECK(a.ctl.sum == a.sum, "argument", "%s: the task received other arguments", after);
  VH_CHECK(a.ctl.ref_addr == &a.ref && a.ctl.cref_addr == &a.cref, "argument-identity",
           "%s: a reference parameter denotes another object", after);
  VH_CHECK(a.ctl.arg_addr != &a.val, "argument-identity", "%s: a by-value parameter is the caller's object", after);
}

template <class R, class F>
static void expect_result(Args &a, F get, char const *what) {
  bool threw = false;
  try {
    if constexpr (std::same_as<R, void>) {
      get();
    } else if constexpr (std::is_reference_v<R>) {
      static_assert(std::same_as<decltype(get()), R>);
      auto &&r = get();
      VH_CHECK(&r == &a.ctl.target, "wrong-value", "%s: another object", what);
    } else if constexpr (std::same_as<R, std::unique_ptr<Tracked>>) {
      auto r = get();
      VH_CHECK(r && r->get() == a.sum, "wrong-value", "%s: wrong value", what);
    } else if constexpr (std::same_as<R, Tracked>) {
      Tracked r = get();
      VH_CHECK(r.get() == a.sum, "wrong-value", "%s: wrong value", what);
    } else {
      VH_CHECK(get() == R(a.sum), "wrong-value", "%s: wrong value", what);
    }
  } catch (Exc const &e) {
    VH_CHECK(e.token == a.ctl.token, "wrong-exception", "%s: foreign exception", what);
    threw = true;
  } catch (lf::empty_future const &) {
    fail("unexpected-empty-future", "%s", what);
  } catch (lf::broken_future const &) {
    fail("unexpected-broken-future", "%s", what);
  }
  VH_CHECK(threw == a.throws(), threw ? "spurious-exception" : "exception-lost", "%s: task %s, caller got %s", what,
           a.throws() ? "threw" : "returned", threw ? "an exception" : "a value");
  check_done<R>(a, what);
  count(threw ? "exceptions_delivered" : "values_delivered");
}

template <class E, class F>
static void expect_throw(F f, char const *what) {
  try {
    f();
  } catch (E const &e) {
    VH_CHECK(e.what() != nullptr, "what", "%s", what);
    return;
  } catch (std::exception const &e) {
    fail("other-error", "%s: \"%s\" instead of the documented exception", what, e.what());
  } catch (...) {
    fail("other-error", "%s: another exception than the documented one", what);
  }
  fail("no-error", "%s: no exception", what);
}

template <class R>
static void spent(lf::future<R> &f, Args &a) { // after get(): waiting is fine, a second get is not
  for (int i = 0; i < 2; ++i) {
    VH_CHECK(f.valid(), "valid", "a consumed future must keep its shared state");
    expect_throw<lf::empty_future>([&] { (void)f.get(); }, "get() on a consumed future");
    f.wait();
  }
  (void)a;
}
template <class R>
static void broken(lf::future<R> &f) {
  VH_CHECK(!f.valid(), "valid", "a future without shared state claims to be valid");
  expect_throw<lf::broken_future>([&] { (void)f.get(); }, "get() on a future without state");
  expect_throw<lf::broken_future>([&] { f.wait(); }, "wait() on a future without state");
  f.detach();
}

// Opens the gate a little later, from another thread.
struct later {
  std::thread t;
  later(Args &a, rng &g) {
    if (g.chance(1, 3)) {
      a.ctl.gate.store(false);
      t = std::thread([&a, us = (long)g.below(300)] {
        timespec ts{0, us * 1000};
        nanosleep(&ts, nullptr);
        a.ctl.gate.store(true);
      });
    }
  }
  ~later() {
    if (t.joinable()) {
      t.join();
    }
  }
};

static void await_done(Args &a) {
  while (!a.ctl.done.load(std::memory_order_acquire)) {
    sched_yield();
  }
}

template <class R, class S>
static unsigned future_life(S &sch, rng &g) {
  Args a(g);
  if (std::same_as<R, Tracked> && g.chance(1, 6)) {
    a.ctl.mode = 4;
  }
  unsigned op = (unsigned)g.below(13);
  switch (op) {
    case 0: {
      later l(a, g);
      auto f = start<R>(sch, a, g);
      VH_CHECK(f.valid(), "valid", "a fresh future is not valid");
      expect_result<R>(a, [&]() -> R { return f.get(); }, "get");
      spent(f, a);
      break;
    }
    case 1: {
      later l(a, g);
      auto f = start<R>(sch, a, g);
      f.wait();
      check_done<R>(a, "wait");
      f.wait();
      expect_result<R>(a, [&]() -> R { return f.get(); }, "get after wait");
      spent(f, a);
      break;
    }
    case 2: {
      later l(a, g);
      { auto f = start<R>(sch, a, g); }
      check_done<R>(a, "~future");
      break;
    }
    case 3: { // detach never blocks: the gate opens only afterwards
      a.ctl.gate.store(false);
      {
        auto f = start<R>(sch, a, g);
        f.detach();
        broken(f);
      }
      VH_CHECK(!a.ctl.done.load(), "ran-through-gate", "a held task finished");
      a.ctl.gate.store(true);
      await_done(a);
      check_done<R>(a, "detach");
      break;
    }
    case 4: {
      auto f = start<R>(sch, a, g);
      auto h = std::move(f);
      broken(f);
      VH_CHECK(h.valid(), "valid", "the target of a move is not valid");
      expect_result<R>(a, [&]() -> R { return h.get(); }, "get after move");
      spent(h, a);
      auto k = std::move(h);
      broken(h);
      spent(k, a);
      break;
    }
    case 5: {
      std::optional<lf::future<R>> f(start<R>(sch, a, g));
      std::thread t([&, h = std::move(*f)]() mutable {
        expect_result<R>(a, [&]() -> R { return h.get(); }, "get on another thread");
      });
      f.reset();
      t.join();
      break;
    }
    case 6: {
      {
        auto f = start<R>(sch, a, g);
        f.wait();
        check_done<R>(a, "wait");
      }
      break;
    }
    case 7: {
      std::vector<lf::future<R>> v;
      std::deque<Args> as;
      for (int i = 0; i < 5; ++i) {
        as.emplace_back(g);
        v.push_back(start<R>(sch, as.back(), g));
      }
      for (size_t i = v.size(); i-- > 0;) {
        if (g.chance(1, 2)) {
          expect_result<R>(as[i], [&]() -> R { return v[i].get(); }, "get from a vector");
        } else {
          v.erase(v.begin() + (long)i);
          // Erasing shifts the later elements by move assignment; element i is overwritten, so it need not block.
          v.clear();
          break;
        }
      }
      v.clear();
      for (auto &x : as) {
        await_done(x);
      }
      break;
    }
    case 8: {
      Args b(g);
      auto f = start<R>(sch, a, g), h = start<R>(sch, b, g);
      std::swap(f, h);
      expect_result<R>(b, [&]() -> R { return f.get(); }, "get after swap");
      expect_result<R>(a, [&]() -> R { return h.get(); }, "get after swap");
      break;
    }
    case 9: { // assignment to a future without unfinished business
      Args b(g);
      auto f = start<R>(sch, a, g);
      if (g.chance(1, 2)) {
        expect_result<R>(a, [&]() -> R { return f.get(); }, "get");
      } else {
        f.detach();
        await_done(a);
      }
      f = start<R>(sch, b, g);
      VH_CHECK(f.valid(), "valid", "an assigned future is not valid");
      expect_result<R>(b, [&]() -> R { return f.get(); }, "get after assignment");
      break;
    }
    case 10: {
      later l(a, g);
      expect_result<R>(a, [&]() -> R {
        return lf::sync_wait(sch, Root<R>{}, &a.ctl, a.val, a.ref, a.cref, std::move(a.own));
      }, "sync_wait");
      break;
    }
    case 11: {
      lf::detach(sch, Root<R>{}, &a.ctl, a.val, a.ref, a.cref, std::move(a.own));
      await_done(a);
      check_done<R>(a, "detach");
      break;
    }
    default: { // the thread that scheduled is gone before the task runs to its end
      a.ctl.gate.store(false);
      std::optional<lf::future<R>> f;
      std::thread([&, s = g.u64()] {
        rng h(s);
        f.emplace(start<R>(sch, a, h));
      }).join();
      a.ctl.gate.store(true);
      expect_result<R>(a, [&]() -> R { return f->get(); }, "get after the scheduling thread ended");
      break;
    }
  }
  count("future_lives");
  return op;
}

// ------------------------------------------------------------------ failures

struct Broken { // throws without taking the handle
  uint64_t token;
  mutable int calls = 0;
  void schedule(lf::submit_handle h) const {
    VH_CHECK(h != nullptr, "null-handle", "schedule() received a null handle");
    ++calls;
    throw Exc(token);
  }
};

struct Bomb { // copying throws when armed; 256 bytes
  static inline raw_atomic<int> armed{0};
  Tracked t{3};
  std::array<char, 256> pad{};
  Bomb() = default;
  Bomb(Bomb const &o) : t(o.t) {
    if (armed.load()) {
      throw Exc(77);
    }
  }
  Bomb(Bomb &&o) noexcept : t(std::move(o.t)) {}
};
inline constexpr auto takes_bomb = [](auto, Ctl *c, Tracked, Bomb b) -> lf::task<uint64_t> {
  c->started = 1;
  co_return b.t.get();
};
struct BombFn {
  Tracked t{4};
  BombFn() = default;
  BombFn(BombFn const &o) : t(o.t) {
    if (Bomb::armed.load()) {
      throw Exc(78);
    }
  }
  BombFn(BombFn &&o) noexcept : t(std::move(o.t)) {}
  auto operator()(auto, Ctl *c) const -> lf::task<int> {
    c->started = 1;
    co_return 5;
  }
};
struct Big {
  std::array<unsigned char, 100000> b;
};
inline constexpr auto takes_big = [](auto, Big x, unsigned char want) -> lf::task<uint64_t> {
  for (auto c : x.b) {
    VH_CHECK(c == want, "argument", "a large argument was damaged");
  }
  co_return x.b.size();
};

template <class S>
static void failures(S &sch, rng &g, std::mutex &bomb) {
  Args a(g);
  switch (g.below(6)) {
    case 0:
    case 1: { // the scheduler refuses
      Broken b{g.u64()};
      int64_t live = 0;
      for (int i = 0; i < 3; ++i) {
        Args x(g);
        bool threw = false;
        try {
          switch (g.below(4)) {
            case 0: {
              auto f = lf::schedule(b, Root<Tracked>{}, &x.ctl, x.val, x.ref, x.cref, std::move(x.own));
              break;
            }
            case 1: lf::detach(std::as_const(b), Root<void>{}, &x.ctl, x.val, x.ref, x.cref, std::move(x.own)); break;
            case 2: lf::sync_wait(Broken{b.token}, Root<Tracked &>{}, &x.ctl, x.val, x.ref, x.cref, std::move(x.own)); break;
            default: {
              auto big = std::make_unique<Big>();
              lf::sync_wait(b, takes_big, *big, 0);
            }
          }
        } catch (Exc const &e) {
          threw = e.token == b.token;
        }
        VH_CHECK(threw, "schedule-failure", "the scheduler's exception did not reach the caller");
        VH_CHECK(x.ctl.started == 0, "ran-refused", "a refused task ran");
      }
      (void)live;
      count("refused_submissions", 3);
      break;
    }
    case 2: { // an argument cannot be copied
      std::lock_guard lk(bomb);
      Bomb b;
      Bomb::armed.store(1);
      bool threw = false;
      try {
        lf::sync_wait(sch, takes_bomb, &a.ctl, a.val, b);
      } catch (Exc const &e) {
        threw = e.token == 77;
      }
      Bomb::armed.store(0);
      VH_CHECK(threw && a.ctl.started == 0, "build-failure", "failed argument copy: threw %d, started %d", threw,
               a.ctl.started);
      VH_CHECK(lf::sync_wait(sch, takes_bomb, &a.ctl, a.val, b) == 3, "wrong-value", "after a failed copy");
      count("failed_argument_copies");
      break;
    }
    case 3: { // the function object cannot be copied
      std::lock_guard lk(bomb);
      BombFn f;
      Bomb::armed.store(1);
      bool threw = false;
      try {
        lf::sync_wait(sch, f, &a.ctl);
      } catch (Exc const &e) {
        threw = e.token == 78;
      }
      Bomb::armed.store(0);
      VH_CHECK(threw && a.ctl.started == 0, "build-failure", "failed function copy: threw %d, started %d", threw,
               a.ctl.started);
      VH_CHECK(lf::sync_wait(sch, f, &a.ctl) == 5, "wrong-value", "after a failed copy");
      count("failed_function_copies");
      break;
    }
    case 4: {
      auto big = std::make_unique<Big>();
      auto v = (unsigned char)g.below(256);
      big->b.fill(v);
      VH_CHECK(lf::sync_wait(sch, takes_big, *big, v) == big->b.size(), "wrong-value", "large argument");
      VH_CHECK(lf::sync_wait(sch, takes_big, std::move(*big), v) == 100000, "wrong-value", "large argument");
      count("large_roots");
      break;
    }
    default: break;
  }
  // Whatever failed, this thread can schedule.
  Args z(g);
  expect_result<Tracked>(z, [&] {
    return lf::sync_wait(sch, Root<Tracked>{}, &z.ctl, z.val, z.ref, z.cref, std::move(z.own));
  }, "sync_wait after a failure");
}

// Scheduling from inside a task (of whatever pool) is refused and harmless.
struct nested_fn {
  auto operator()(auto self, any_pool *p, uint64_t seed, unsigned depth) const -> lf::task<uint64_t> {
    rng g(seed);
    unsigned refused = 0;
    {
      Args x(g);
      for (int i = 0; i < 3; ++i) {
        try {
          Tracked t(9);
          if (i == 0) {
            auto f = lf::schedule(*p, Root<Tracked>{}, &x.ctl, std::move(t), x.ref, x.cref, std::move(x.own));
          } else if (i == 1) {
            lf::sync_wait(*p, Root<void>{}, &x.ctl, std::move(t), x.ref, x.cref, std::move(x.own));
          } else {
            lf::detach(*p, Root<Tracked &>{}, &x.ctl, std::move(t), x.ref, x.cref, std::move(x.own));
          }
        } catch (lf::schedule_in_worker const &e) {
          VH_CHECK(e.what() != nullptr, "what", "schedule_in_worker");
          ++refused;
        }
      }
      VH_CHECK(refused == 3 && x.ctl.started == 0, "schedule-in-worker", "%u of 3 refused, started %d", refused,
               x.ctl.started);
      VH_CHECK(x.own != nullptr, "schedule-in-worker", "a refused schedule consumed its arguments");
    }
    uint64_t a = 0, b = 0;
    if (depth) {
      co_await lf::fork(&a, self)(p, mix(seed), depth - 1);
      co_await lf::call(&b, self)(p, mix(seed + 1), depth - 1);
      co_await lf::join;
    }
    count("refused_in_worker", 3);
    co_return a + b + 1;
  }
};
inline constexpr nested_fn nested{};

// A scheduler that keeps handles for a while and passes them on from its own thread, in any order.
struct slow_post {
  any_pool &to;
  uint64_t seed;
  std::mutex m;
  std::vector<lf::submit_handle> q;
  bool stop = false;
  std::thread t;
  slow_post(any_pool &p, uint64_t s) : to(p), seed(s), t([this] { run(); }) {}
  void schedule(lf::submit_handle h) {
    std::lock_guard lk(m);
    q.push_back(h);
  }
  void run() {
    rng g(seed);
    for (;;) {
      lf::submit_handle h = nullptr;
      {
        std::lock_guard lk(m);
        if (q.empty() && stop) {
          return;
        }
        if (!q.empty()) {
          size_t i = g.below(q.size());
          h = q[i];
          q.erase(q.begin() + (long)i);
        }
      }
      if (h) {
        to.schedule(h);
      } else {
        sched_yield();
      }
    }
  }
  ~slow_post() {
    {
      std::lock_guard lk(m);
      stop = true;
    }
    t.join();
  }
};

static void roots(uint64_t seed, int pools, int rounds) {
  rng g(seed);
  int64_t bal0 = 0;
  for (int p = -1; p < pools; ++p) {
    int64_t live0 = heap_live(), census0 = g_census.live.load(), exc0 = g_exc_census.live.load();
    {
      auto kind = (any_pool::kind_t)g.below(4);
      size_t n = 1 + g.below(5);
      static uint32_t const rates[] = {0, 50, 300, 3000};
      uint32_t rate = g.pick(rates);
      set_case("seed=%llu roots pool=%d kind=%d n=%zu rate=%u", (unsigned long long)seed, p, (int)kind, n, rate);
      watch w;
      any_pool pool(kind, n, g.u64());
      std::mutex bomb;
      set_delays(g.u64(), rate);
      auto client = [&](uint64_t s, auto &sch) {
        rng h(s);
        uint64_t sig = 0;
        for (int r = 0; r < rounds; ++r) {
          unsigned t = (unsigned)h.below(8), op = 0;
          switch (t) {
            case 0: op = future_life<Tracked>(sch, h); break;
            case 1: op = future_life<std::unique_ptr<Tracked>>(sch, h); break;
            case 2: op = future_life<void>(sch, h); break;
            case 3: op = future_life<Tracked &>(sch, h); break;
            case 4: op = future_life<uint64_t>(sch, h); break;
            case 5: op = future_life<Tracked &&>(sch, h); break;
            case 6: failures(sch, h, bomb); break;
            default: {
              unsigned d = (unsigned)h.below(5);
              uint64_t got = lf::sync_wait(sch, nested, &pool, h.u64(), d);
              VH_CHECK(got == (2u << d) - 1, "wrong-value", "nested: %llu", (unsigned long long)got);
            }
          }
          evaluation();
          distinct(hcombine(hcombine((uint64_t)kind, t), hcombine(op, sig % 64)));
          sig = hcombine(sig, hcombine(t, op));
          progress_now();
        }
      };
      int clients = n == 1 ? 1 : 1 + (int)g.below(3);
      if (clients == 1) { // on this thread, which schedules again and again
        client(g.u64(), pool);
        if (g.chance(1, 2)) {
          slow_post post(pool, g.u64());
          client(g.u64(), post);
          count("slow_posts");
        }
      } else {
        // Held tasks occupy workers, so there are fewer clients than workers or the gates are opened by others.
        std::vector<std::thread> ts;
        for (int c = 0; c < clients; ++c) {
          ts.emplace_back([&, s = g.u64()] { client(s, pool); });
        }
        for (auto &t : ts) {
          t.join();
        }
      }
      if (p % 5 == 0) {
        sample(g_case);
      }
      set_delays(0, 0);
    }
    VH_CHECK(g_census.live.load() == census0, "object-leak", "%lld objects too many or few after the pool was destroyed",
             (long long)(g_census.live.load() - census0));
    VH_CHECK(g_exc_census.live.load() == exc0, "exception-leak", "%lld exceptions left",
             (long long)(g_exc_census.live.load() - exc0));
    if (heap_active && p >= 0) {
      VH_CHECK(heap_live() == live0, "memory-leak", "%lld heap blocks too many or few", (long long)(heap_live() - live0));
      count("heap_balance_checks");
    }
    (void)bal0;
  }
}

// ------------------------------------------------------------------ C15

struct Notify {
  Tracked t{1};
  raw_atomic<uint64_t> *n;
  explicit Notify(raw_atomic<uint64_t> *c) : n(c) {}
  Notify(Notify &&) = default;
  void operator()() {
    (void)t.get();
    n->fetch_add(1, std::memory_order_relaxed);
  }
};

struct direct {
  lf::worker_context *ctx;
  void schedule(lf::submit_handle h) const { ctx->schedule(h); }
};

inline constexpr auto small = [](auto self, uint64_t x, unsigned d) -> lf::task<uint64_t> {
  if (d == 0) {
    co_return mix(x);
  }
  uint64_t a = 0, b = 0;
  co_await lf::fork(&a, self)(x + 1, d - 1);
  co_await lf::call(&b, self)(x + 2, d - 1);
  co_await lf::join;
  co_return a ^ b;
};
static uint64_t small_serial(uint64_t x, unsigned d) {
  return d == 0 ? mix(x) : small_serial(x + 1, d - 1) ^ small_serial(x + 2, d - 1);
}

struct Shared {
  std::mutex m;
  std::vector<lf::worker_context *> live; // contexts of workers that are initialised now
  any_pool *side;
};

static void run_as_worker(lf::worker_context *me, raw_atomic<uint64_t> &notified, rng &g) {
  // Somebody else submits, this thread works.
  uint64_t before = notified.load();
  uint64_t x = g.u64();
  unsigned d = (unsigned)g.below(5);
  raw_atomic<bool> done{false};
  std::thread client([&] {
    uint64_t r = lf::sync_wait(direct{me}, small, x, d);
    VH_CHECK(r == small_serial(x, d), "wrong-value", "a hand driven worker computed something else");
    done.store(true);
  });
  while (!done.load()) {
    if (auto h = me->try_pop_all()) {
      lf::resume(h);
    }
    sched_yield();
  }
  client.join();
  VH_CHECK(notified.load() == before + 1, "not-notified", "%llu notifications for one submission",
           (unsigned long long)(notified.load() - before));
  VH_CHECK(me->try_steal().code == lf::err::empty, "work-left-after-resume", "work left on the worker");
  count("work_done_by_hand");
}

static void use_side_pool(Shared &sh, rng &g) {
  uint64_t x = g.u64();
  VH_CHECK(lf::sync_wait(*sh.side, small, x, 3) == small_serial(x, 3), "wrong-value", "side pool");
  count("schedules_as_non_worker");
}

static void worker_script(Shared &sh, uint64_t seed, int steps) {
  rng g(seed);
  raw_atomic<uint64_t> notified{0};
  lf::worker_context *me = nullptr, *old = nullptr;
  uint64_t sig = 0;
  int64_t mine = 0; // notification objects that ought to exist
  auto make = [&] {
    return lf::nullary_function_t{Notify(&notified)};
  };
  lf::finalize(lf::worker_init(make())); // and touch all thread local variables, whose registration allocates
  auto must_throw = [&](auto f, char const *what) {
    bool threw = false;
    try {
      f();
    } catch (std::exception const &) {
      threw = true;
    }
    VH_CHECK(threw, "no-error", "%s did not throw", what);
  };
  for (int i = 0; i < steps || me; ++i) {
    unsigned op = i >= steps ? 9u : (unsigned)g.below(10);
    progress_now();
    if (!me) {
      switch (op) {
        case 0: use_side_pool(sh, g); break;
        case 1:
          must_throw([&] { lf::finalize(old); }, "finalising an already finalised (or null) worker");
          count("double_finalize");
          break;
        case 2: {
          std::lock_guard lk(sh.m);
          if (!sh.live.empty()) {
            must_throw([&] { lf::finalize(g.pick(sh.live)); }, "finalising a foreign worker");
            count("foreign_finalize");
          }
          break;
        }
        case 3: { // initialisation runs out of memory at some point
          if (!heap_active) {
            break;
          }
          for (int64_t k = 0; k < 40; ++k) {
            auto f = make();
            bool threw = false;
            lf::worker_context *c = nullptr;
            {
              inject_scope inj(k);
              try {
                c = lf::worker_init(std::move(f));
              } catch (std::bad_alloc const &) {
                threw = true;
              }
              inj.stop();
            }
            if (!threw) {
              me = c;
              break;
            }
            count("failed_inits");
            switch (g.below(3)) {
              case 0: use_side_pool(sh, g); break;
              case 1: must_throw([&] { lf::finalize(old); }, "finalising after a failed initialisation"); break;
              default: break;
            }
          }
          VH_CHECK(me != nullptr, "harness-inject", "initialisation never succeeded");
          run_as_worker(me, notified, g);
          std::lock_guard lk(sh.m);
          sh.live.push_back(me);
          mine = 1;
          break;
        }
        default: {
          me = lf::worker_init(make());
          VH_CHECK(me != nullptr, "null-context", "worker_init returned null");
          mine = 1;
          std::lock_guard lk(sh.m);
          sh.live.push_back(me);
          count("inits");
        }
      }
    } else {
      switch (op) {
        case 0:
        case 1:
          must_throw([&] { (void)lf::worker_init(make()); }, "initialising twice");
          count("double_init");
          break;
        case 2: {
          std::lock_guard lk(sh.m);
          auto *o = g.pick(sh.live);
          if (o != me) {
            must_throw([&] { lf::finalize(o); }, "finalising a foreign worker");
            count("foreign_finalize");
          }
          break;
        }
        case 3: must_throw([&] { lf::finalize(nullptr); }, "finalising null"); break;
        case 4: {
          bool refused = false;
          try {
            (void)lf::sync_wait(*sh.side, small, 1, 1);
          } catch (lf::schedule_in_worker const &) {
            refused = true;
          }
          VH_CHECK(refused, "schedule-in-worker", "a worker could schedule");
          count("refused_in_worker");
          break;
        }
        case 5:
        case 6:
        case 7: run_as_worker(me, notified, g); break;
        default: {
          {
            std::lock_guard lk(sh.m); // from now on nobody tries to finalise it
            std::erase(sh.live, me);
          }
          lf::finalize(me);
          old = me;
          me = nullptr;
          mine = 0;
          count("finalizes");
        }
      }
    }
    sig = hcombine(sig, op);
    distinct(sig);
    evaluation();
  }
  (void)mine;
}

static void workers(uint64_t seed, int rounds, int steps) {
  rng g(seed);
  for (int r = -1; r < rounds; ++r) {
    set_case("seed=%llu workers round=%d", (unsigned long long)seed, r);
    int64_t live0 = heap_live(), census0 = g_census.live.load();
    {
      watch w;
      any_pool side((any_pool::kind_t)g.below(4), 2, g.u64());
      Shared sh;
      sh.side = &side;
      static uint32_t const rates[] = {0, 50, 300};
      set_delays(g.u64(), g.pick(rates));
      std::vector<std::thread> ts;
      // The fault injector is process wide: rounds that use it have one worker.
      int n = 1 + (int)g.below(3);
      std::mutex inject;
      for (int i = 0; i < n; ++i) {
        ts.emplace_back([&, s = g.u64()] { worker_script(sh, s, steps); });
        if (r % 2 == 0) { // one after another
          ts.back().join();
          ts.pop_back();
        }
      }
      if (r % 2 != 0) {
        for (auto &t : ts) {
          t.join();
        }
      }
      set_delays(0, 0);
      // This (main) thread too.
      worker_script(sh, g.u64(), steps / 2);
    }
    VH_CHECK(g_census.live.load() == census0, "object-leak", "%lld notification objects too many or few",
             (long long)(g_census.live.load() - census0));
    if (heap_active && r >= 0) {
      VH_CHECK(heap_live() == live0, "memory-leak", "%lld heap blocks too many or few", (long long)(heap_live() - live0));
      count("heap_balance_checks");
    }
    if (r % 7 == 0) {
      sample(g_case);
    }
  }
}

static void warm_up() { // what the libraries below allocate once
  for (int k = 0; k < 4; ++k) {
    any_pool p((any_pool::kind_t)k, 2, 1);
    VH_CHECK(lf::sync_wait(p, small, 1, 3) == small_serial(1, 3), "wrong-value", "warm-up");
  }
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  warm_up();
  if (arg("mode", 1) == 1) {
    roots(seed, (int)arg("pools", 12), (int)arg("rounds", 60));
  } else {
    workers(seed, (int)arg("rounds", 30), (int)arg("steps", 40));
  }
  finish();
}
