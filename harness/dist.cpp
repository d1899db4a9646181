// C25: what a program can observe deterministically, as a log. The build against the single header runs the build against
// the modular headers (peer=...) and compares the logs.
#include "pools.hpp"

using namespace vh;

static std::vector<std::string> g_log;
static std::string g_section = "start";

static void L(std::string const &k, std::string const &v) { g_log.push_back(g_section + " | " + k + " = " + v); }
template <class T>
static void L(std::string const &k, T v) {
  if constexpr (std::is_arithmetic_v<T>) {
    L(k, std::to_string(v));
  } else {
    L(k, std::string(v));
  }
}

// ------------------------------------------------------------------ constraints

struct MoveOnlyT {
  MoveOnlyT(MoveOnlyT &&) = default;
  auto operator=(MoveOnlyT &&) -> MoveOnlyT & = default;
};
struct Immovable {
  Immovable() = default;
  Immovable(Immovable &&) = delete;
};
struct NoDefault {
  explicit NoDefault(int) {}
};
struct alignas(64) Wide {
  int x = 0;
};
struct Big {
  long a[4] = {};
};
struct NonTrivial {
  NonTrivial(NonTrivial const &) {}
  auto operator=(NonTrivial const &) -> NonTrivial & = default;
};
struct FakeSched {
  void schedule(lf::submit_handle) {}
};
struct FakeSchedPtr {
  void schedule(void *) {}
};
struct ConstSched {
  void schedule(lf::submit_handle) const {}
};
struct Sw1 {
  auto await_ready() -> bool { return true; }
  void await_suspend(lf::submit_handle) {}
  void await_resume() {}
};
struct Sw2 { // wrong return type
  auto await_ready() -> bool { return true; }
  auto await_suspend(lf::submit_handle) -> bool { return true; }
  void await_resume() {}
};
struct Sw3 { // wrong handle
  auto await_ready() -> bool { return true; }
  void await_suspend(std::coroutine_handle<>) {}
  void await_resume() {}
};
struct GenBool {
  using result_type = unsigned;
  static constexpr auto min() -> unsigned { return 0; }
  static constexpr auto max() -> unsigned { return 9; }
  auto operator()() -> unsigned { return 1; }
};
struct GenBad {
  static constexpr auto min() -> unsigned { return 0; }
  static constexpr auto max() -> unsigned { return 9; }
  auto operator()() -> unsigned { return 1; }
};

inline constexpr auto f_void = [](auto, int) -> lf::task<void> {
  co_return;
};
inline constexpr auto f_int = [](auto, int a, int b) -> lf::task<int> {
  co_return a + b;
};
inline constexpr auto f_ref = [](auto, int &a) -> lf::task<int &> {
  co_return a;
};
inline constexpr auto f_move = [](auto, std::unique_ptr<int> p) -> lf::task<std::unique_ptr<int>> {
  co_return std::move(p);
};
inline constexpr auto f_not = [](auto, int) -> int {
  return 1;
};
struct f_call_only_t {
  template <lf::first_arg S>
    requires (S::tag == lf::tag::call)
  auto operator()(S, int) const -> lf::task<int> {
    co_return 1;
  }
};
struct f_no_root_t {
  template <lf::first_arg S>
    requires (S::tag != lf::tag::root)
  auto operator()(S, int) const -> lf::task<int> {
    co_return 1;
  }
};
struct f_const_t {
  auto operator()(auto, int) -> lf::task<int> { co_return 1; }
};
inline constexpr auto f_plus = [](auto, long a, long b) -> lf::task<long> {
  co_return a + b;
};
inline constexpr auto f_half = [](auto, int a) -> lf::task<double> {
  co_return a / 2.0;
};
static long plus_sync(long a, long b) { return a + b; }
static double half_sync(int a) { return a / 2.0; }

#define T1(name, concept_)                                                                                           \
  template <class T>                                                                                                 \
  static constexpr bool name = concept_<T>;
T1(t_returnable, lf::returnable)
T1(t_co_allocable, lf::co_allocable)
T1(t_atomicable, lf::atomicable)
T1(t_lock_free, lf::lock_free)
T1(t_dequeable, lf::dequeable)
T1(t_storable, lf::storable)
T1(t_deref, lf::dereferenceable)
T1(t_quasi, lf::quasi_pointer)
T1(t_fun, lf::async_function_object)
T1(t_sched, lf::scheduler)
T1(t_switch, lf::context_switcher)
T1(t_urbg, lf::uniform_random_bit_generator)

template <class... T>
static void concepts_over(char const *, char const *const *names) {
  int i = 0;
  (
      [&] {
        std::string n = names[i++];
        std::string v;
        auto add = [&](char const *k, bool b) {
          v += b ? std::string(k) + " " : std::string();
        };
        if constexpr (!std::is_abstract_v<T>) {
          add("returnable", t_returnable<T>);
          if constexpr (std::is_object_v<T>) {
            add("co_allocable", t_co_allocable<T>);
            add("atomicable", t_atomicable<T>);
            if constexpr (std::is_trivially_copyable_v<T> && std::is_copy_constructible_v<T> &&
                          std::is_copy_assignable_v<T>) {
              add("lock_free", t_lock_free<T>);
              add("dequeable", t_dequeable<T>);
            }
          }
          add("storable", t_storable<T>);
          add("dereferenceable", t_deref<T>);
          add("quasi_pointer", t_quasi<T>);
          add("async_function_object", t_fun<T>);
          add("scheduler", t_sched<T>);
          add("context_switcher", t_switch<T>);
          add("uniform_random_bit_generator", t_urbg<T>);
        }
        L(n, v);
      }(),
      ...);
}
#define TYPES                                                                                                        \
  int, int &, int const &, int &&, int *, void, void *, MoveOnlyT, Immovable, NoDefault, Wide, Big, NonTrivial,      \
      std::string, std::unique_ptr<int>, std::unique_ptr<int[]>, std::optional<int>, lf::eventually<int>,             \
      lf::eventually<int> *, lf::try_eventually<int &>, lf::try_eventually<void> *, FakeSched, FakeSchedPtr, ConstSched, \
      FakeSched const, Sw1, Sw2, Sw3, Sw1 &, GenBool, GenBad, lf::xoshiro, std::mt19937_64, lf::unit_pool,              \
      lf::busy_pool, lf::lazy_pool, lf::lazy_pool &, lf::worker_context *, lf::submit_handle, lf::task_handle,           \
      decltype(f_void), decltype(f_not), f_call_only_t, f_no_root_t, f_const_t, std::vector<int>::iterator, long double, \
      lf::future<int>, lf::deque<int>, lf::event_count, lf::numa_topology
#define STR1(...) #__VA_ARGS__
#define STR(...) STR1(__VA_ARGS__)

template <class F, class... A>
static void invocable(char const *n) {
  std::string v;
  auto add = [&](char const *k, bool b) {
    v += b ? std::string(k) + " " : std::string();
  };
  add("callable", lf::callable<F, A...>);
  add("rootable", lf::rootable<F, A...>);
  add("forkable", lf::forkable<F, A...>);
  add("async_invocable", lf::async_invocable<F, A...>);
  add("invocable", lf::invocable<F, A...>);
  L(n, v);
}
template <class I, class Proj, class Bop, class O>
static void algorithms(char const *n) {
  std::string v;
  auto add = [&](char const *k, bool b) {
    v += b ? std::string(k) + " " : std::string();
  };
  add("unary", lf::indirectly_unary_invocable<Proj, I>);
  if constexpr (lf::indirectly_regular_unary_invocable<Proj, I>) {
    using P = lf::projected<I, Proj>;
    add("fun", lf::indirectly_unary_invocable<Bop, P>);
    add("foldable", lf::indirectly_foldable<Bop, P>);
    add("scannable", lf::indirectly_scannable<Bop, O, P>);
  }
  L(n, v);
}

static void constraints() {
  g_section = "constraints";
  static std::vector<std::string> names;
  std::string all = STR(TYPES), cur;
  int depth = 0;
  for (char c : all) {
    depth += c == '<' || c == '(';
    depth -= c == '>' || c == ')';
    if (c == ',' && depth == 0) {
      names.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  names.push_back(cur);
  std::vector<char const *> p;
  for (auto &n : names) {
    p.push_back(n.c_str());
  }
  concepts_over<TYPES>("", p.data());
#define INV(...) invocable<__VA_ARGS__>(STR(__VA_ARGS__))
  INV(decltype(f_void), int);
  INV(decltype(f_void), char const *);
  INV(decltype(f_void));
  INV(decltype(f_int), int, int);
  INV(decltype(f_int), int);
  INV(decltype(f_ref), int &);
  INV(decltype(f_ref), int);
  INV(decltype(f_move), std::unique_ptr<int>);
  INV(decltype(f_move), std::unique_ptr<int> &);
  INV(decltype(f_not), int);
  INV(f_call_only_t, int);
  INV(f_no_root_t, int);
  INV(f_const_t, int);
  INV(f_const_t const, int);
  INV(f_const_t &, int);
  INV(decltype(plus_sync) *, long, long);
  INV(decltype(plus_sync) *, long);
#define ALG(...) algorithms<__VA_ARGS__>(STR(__VA_ARGS__))
  ALG(int *, std::identity, decltype(plus_sync) *, long *);
  ALG(int *, std::identity, decltype(f_plus), long *);
  ALG(long *, std::identity, std::plus<>, long *);
  ALG(long const *, std::identity, std::plus<>, long *);
  ALG(long *, std::identity, std::plus<>, long const *);
  ALG(int *, decltype(half_sync) *, std::plus<>, double *);
  ALG(int *, decltype(f_half), std::plus<>, double *);
  ALG(int *, decltype(f_half), decltype(f_plus), double *);
  ALG(int *, std::identity, decltype(f_void), int *);
  ALG(std::unique_ptr<int> *, std::identity, std::plus<>, long *);
  ALG(std::string *, std::identity, std::plus<>, std::string *);
  ALG(std::vector<long>::iterator, std::identity, std::multiplies<>, std::vector<long>::iterator);
#define IS(...) L(STR(__VA_ARGS__), (int)(__VA_ARGS__))
  IS(LF_VERSION_MAJOR);
  IS(LF_VERSION_MINOR);
  IS(LF_VERSION_PATCH);
  IS(std::is_copy_constructible_v<lf::future<int>>);
  IS(std::is_move_assignable_v<lf::busy_pool>);
  IS(std::is_copy_constructible_v<lf::busy_pool>);
  IS(std::is_move_constructible_v<lf::lazy_pool>);
  IS(std::is_copy_constructible_v<lf::lazy_pool>);
  IS(std::is_default_constructible_v<lf::unit_pool>);
  IS(std::is_move_constructible_v<lf::eventually<int>>);
  IS(std::is_default_constructible_v<lf::eventually<std::string>>);
  IS(std::is_assignable_v<lf::eventually<std::string> &, char const *>);
  IS(std::is_assignable_v<lf::eventually<int &> &, int>);
  IS(std::is_assignable_v<lf::eventually<int const &> &, int>);
  IS(std::is_convertible_v<lf::task_handle, void *>);
}

// ------------------------------------------------------------------ generator, topology, containers

static void generators() {
  g_section = "generator";
  for (uint64_t s : {0ull, 1ull, 42ull, 0x123456789abcdefull}) {
    std::mt19937_64 mt(s);
    lf::xoshiro x(lf::seed, mt);
    uint64_t h = 0;
    for (int i = 0; i < 300; ++i) {
      h = hcombine(h, x());
      if (i == 100) {
        x.jump();
      }
      if (i == 200) {
        x.long_jump();
      }
    }
    L("seed " + std::to_string(s), h);
    std::uniform_int_distribution<int> d(0, 99);
    std::string v;
    for (int i = 0; i < 10; ++i) {
      v += std::to_string(d(x)) + " ";
    }
    L("dice " + std::to_string(s), v);
  }
  lf::xoshiro a({1, 2, 3, 4});
  L("state", a());
  L("min", lf::xoshiro::min());
  L("max", lf::xoshiro::max());
}

static void topology() {
  g_section = "topology";
  for (auto strat : {lf::numa_strategy::fan, lf::numa_strategy::seq}) {
    lf::numa_topology t;
    for (size_t n : {1, 2, 3, 5, 8, 13, 24}) {
      std::vector<std::shared_ptr<int>> data;
      for (size_t i = 0; i < n; ++i) {
        data.push_back(std::make_shared<int>((int)i));
      }
      std::string v;
      for (auto &nd : t.distribute(data, strat)) {
        v += std::to_string(nd.numa) + ":";
        for (auto &grp : nd.neighbors) {
          v += "[";
          std::vector<int> o;
          for (auto &p : grp) {
            o.push_back(*p);
          }
          std::sort(o.begin(), o.end());
          for (int k : o) {
            v += std::to_string(k) + " ";
          }
          v += "]";
        }
        v += ";";
      }
      L("distribute " + std::to_string(n) + (strat == lf::numa_strategy::fan ? " fan" : " seq"), v);
    }
  }
}

static void containers(rng &g) {
  g_section = "deque";
  for (int r = 0; r < 10; ++r) {
    lf::deque<int> d(1 << g.below(6));
    std::string v = std::to_string(d.capacity()) + " ";
    for (int i = 0, k = 0; i < 200; ++i) {
      switch (g.below(4)) {
        case 0:
        case 1:
          d.push(k++);
          break;
        case 2: {
          auto p = d.pop();
          v += p ? std::to_string(*p) + "p " : "- ";
          break;
        }
        default: {
          auto s = d.steal();
          v += s ? std::to_string(*s) + "s " : s.code == lf::err::empty ? "e " : "l ";
        }
      }
    }
    L("history " + std::to_string(r), v + std::to_string(d.size()) + (d.empty() ? " empty" : "") + " cap " +
                                          std::to_string(d.capacity()));
  }
  g_section = "event count";
  lf::event_count ec;
  auto k1 = ec.prepare_wait();
  auto k2 = ec.prepare_wait();
  ec.cancel_wait();
  ec.notify_one();
  ec.wait(k1);
  (void)k2;
  L("ok", 1);
}

// ------------------------------------------------------------------ programs on one worker: their order is defined

struct Tr {
  std::string s;
  rng g;
  int budget = 200;
  int64_t base;
  explicit Tr(uint64_t sd) : g(sd) {}
  void operator()(std::string const &x) { s += x + ' '; }
};

inline constexpr auto prog = [](auto prog, Tr *t, int depth, Tracked arg) -> lf::task<std::string> {
  (*t)("(" + std::to_string(depth) + ":" + std::to_string(arg.get()));
  Tracked local(arg.get() * 31 + 1);
  if (t->budget-- <= 0 || t->g.chance(1, 5)) {
    if (t->g.chance(1, 8)) {
      (*t)("!");
      throw Exc(arg.get());
    }
    (*t)(")");
    co_return "L" + std::to_string(depth);
  }
  std::string res;
  std::string a[3];
  lf::eventually<std::string> b;
  lf::try_eventually<std::string> c;
  if (t->g.chance(1, 3)) {
    auto mem = co_await lf::co_new<Tracked>(3);
    auto &&[sp] = mem;
    (*t)("new" + std::to_string(sp.size()));
    try {
      res += co_await lf::just(prog)(t, depth - 1, Tracked(1));
    } catch (Exc const &e) {
      (*t)("caught" + std::to_string(e.token));
    }
  }
  int scopes = (int)t->g.range(0, 2);
  for (int s = 0; s < scopes; ++s) {
    try {
      int n = (int)t->g.range(1, 3);
      bool stop = false;
      for (int i = 0; i < n && !stop; ++i) {
        switch (t->g.below(5)) {
          case 0:
            co_await lf::call(&a[i], prog)(t, depth - 1, Tracked(10 + (uint64_t)i));
            break;
          case 1: {
            bool r = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>(&a[i], prog)(t, depth - 1, Tracked(5));
            (*t)(r ? "sync" : "async");
            break;
          }
          default:
            co_await lf::fork(&a[i], prog)(t, depth - 1, Tracked(20 + (uint64_t)i));
        }
      }
      co_await lf::join;
      (*t)("joined");
    } catch (Exc const &e) {
      (*t)("exc" + std::to_string(e.token));
    }
  }
  if (t->g.chance(1, 3)) {
    co_await lf::fork(&b, prog)(t, depth - 1, Tracked(31));
    co_await lf::call(&c, prog)(t, depth - 1, Tracked(32));
    try {
      co_await lf::join;
      res += *b;
    } catch (Exc const &e) {
      (*t)("b" + std::to_string(e.token));
    }
    if (c.has_exception()) {
      (*t)("c!");
    } else if (!c.empty()) {
      res += *c;
    }
  }
  (*t)(")");
  for (auto &x : a) {
    res += x;
  }
  co_return res.size() > 60 ? res.substr(0, 60) : res;
};

inline constexpr auto nested = [](auto, lf::unit_pool *p) -> lf::task<int> {
  try {
    lf::sync_wait(*p, f_int, 1, 2);
  } catch (lf::schedule_in_worker const &e) {
    L("scheduling in a worker", e.what());
    co_return 1;
  }
  co_return 0;
};
inline constexpr auto thrower = [](auto, uint64_t t) -> lf::task<int> {
  throw Exc(t);
  co_return 0;
};

static void programs(uint64_t seed) {
  g_section = "program";
  lf::unit_pool u;
  int64_t live = 0;
  for (int i = 0; i < 400; ++i) {
    Tr t(seed * 1000 + (uint64_t)i);
    int64_t c0 = g_census.live.load(), e0 = g_exc_census.live.load();
    if (i == 50) {
      live = heap_live() - (int64_t)g_log.size();
    }
    std::string r;
    set_case("program %d of seed %llu", i, (unsigned long long)seed);
    try {
      r = lf::sync_wait(u, prog, &t, (int)(i % 9), Tracked((uint64_t)i));
    } catch (Exc const &e) {
      r = "threw " + std::to_string(e.token);
    }
    for (int k = 0; k < 20000 && (g_census.live.load() != c0 || g_exc_census.live.load() != e0); ++k) {
      usleep(100); // the root's own arguments go a moment after its result
    }
    L(std::to_string(i), t.s + " -> " + r + " objects " + std::to_string(g_census.live.load() - c0) + " exceptions " +
                             std::to_string(g_exc_census.live.load() - e0));
    count("programs");
  }
  (void)live;
  g_section = "roots";
  L("nested", lf::sync_wait(u, nested, &u));
  auto f = lf::schedule(u, f_int, 20, 22);
  L("valid", f.valid());
  f.wait();
  L("get", f.get());
  try {
    f.get();
  } catch (std::exception const &e) {
    L("get twice", e.what());
  }
  lf::future<int> moved = std::move(f);
  try {
    f.get();
  } catch (std::exception const &e) {
    L("get of a moved-from future", e.what());
  }
  auto x = lf::schedule(u, thrower, (uint64_t)7);
  try {
    x.get();
  } catch (Exc const &e) {
    L("exception", e.token);
  }
  L("announcement", lf::exception_before_join{}.what());
  try {
    lf::finalize(nullptr);
  } catch (std::exception const &e) {
    L("finalize", e.what());
  }
  {
    auto *w = lf::worker_init(lf::nullary_function_t{[] {}});
    try {
      lf::worker_init(lf::nullary_function_t{[] {}});
    } catch (std::exception const &e) {
      L("worker_init twice", e.what());
    }
    lf::finalize(w);
  }
}

static void algorithm_results(rng &g) {
  g_section = "algorithm";
  lf::unit_pool u;
  any_pool m(any_pool::busy, 3, 7);
  auto both = [&](auto &&f, std::string const &name) {
    f(u, name + " unit");
    f(m, name + " busy");
  };
  for (int r = 0; r < 60; ++r) {
    std::ptrdiff_t n = g.range(0, 200), chunk = g.range(1, 30);
    std::vector<std::string> in;
    for (std::ptrdiff_t i = 0; i < n; ++i) {
      in.push_back(std::string(1, (char)('a' + i % 26)));
    }
    auto up = [](std::string const &s) {
      return std::string(1, (char)std::toupper(s[0]));
    };
    auto tag = std::to_string(r);
    both(
        [&](auto &pool, std::string k) {
          std::optional<std::string> s = lf::sync_wait(pool, lf::fold, in, chunk, std::plus<>{}, up);
          L(k, s ? *s : std::string("nothing"));
        },
        "fold " + tag);
    both(
        [&](auto &pool, std::string k) {
          std::vector<std::string> out((size_t)n);
          lf::sync_wait(pool, lf::map, in, out.begin(), chunk, up);
          std::string s;
          for (auto &o : out) {
            s += o + ",";
          }
          L(k, s);
        },
        "map " + tag);
    both(
        [&](auto &pool, std::string k) {
          std::vector<std::string> out((size_t)n);
          lf::sync_wait(pool, lf::scan, in, out.begin(), chunk, std::plus<>{}, up);
          uint64_t h = 0;
          for (auto &o : out) {
            h = hcombine(h, std::hash<std::string>{}(o));
          }
          L(k, h);
        },
        "scan " + tag);
    both(
        [&](auto &pool, std::string k) {
          std::vector<raw_atomic<int>> hit((size_t)n);
          std::vector<int> idx((size_t)n);
          std::iota(idx.begin(), idx.end(), 0);
          lf::sync_wait(pool, lf::for_each, idx, chunk, [&](int i) {
            hit[(size_t)i].fetch_add(1);
          });
          std::string s;
          for (auto &h : hit) {
            s += (char)('0' + h.load());
          }
          L(k, s);
        },
        "for_each " + tag);
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  std::string peer = sarg("peer", "");
  set_delays(0, 0, 0);
  rng g(seed);
  {
    watch wd;
    constraints();
    generators();
    topology();
    containers(g);
    programs(seed);
    algorithm_results(g);
  }
  if (peer.empty()) {
    for (auto &l : g_log) {
      printf("D %s\n", l.c_str());
    }
    evaluation(g_log.size());
    distinct(seed);
    finish();
  }
  FILE *p = popen((peer + " seed=" + std::to_string(seed)).c_str(), "r");
  std::vector<std::string> other;
  std::string line;
  for (int c; (c = fgetc(p)) != EOF;) {
    if (c == '\n') {
      if (line.starts_with("D ")) {
        other.push_back(line.substr(2));
      }
      line.clear();
    } else {
      line += (char)c;
    }
  }
  int rc = pclose(p);
  if (rc != 0) {
    printf("the build against the modular headers failed (%d)\n", rc);
    _exit(3);
  }
  for (size_t i = 0; i < std::max(other.size(), g_log.size()); ++i) {
    std::string a = i < g_log.size() ? g_log[i] : "(nothing)", b = i < other.size() ? other[i] : "(nothing)";
    VH_CHECK(a == b, "distributions-differ", "single header: %.300s / modular headers: %.300s", a.c_str(), b.c_str());
    evaluation();
    distinct(mix(std::hash<std::string>{}(a)));
    if (i % 400 == 30) {
      sample(a.substr(0, 300));
    }
  }
  count("observations_compared", (double)g_log.size());
  finish();
}
