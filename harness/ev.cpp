// C16: eventually / try_eventually against a model, directly and bound to tasks.
#include "pools.hpp"

#ifndef VH_PART
  #define VH_PART 2 // 0: first half of the kinds, 1: second half, 2: all
#endif

using namespace vh;

// ---------------------------------------------------------------- value types

struct Thrower { // conversion throws for odd values, after a member has been constructed
  Tracked part;
  uint64_t v;
  explicit(false) Thrower(uint64_t x) : part(x), v(x) {
    if (x & 1) throw Exc(x);
  }
  Thrower(Thrower const &) = default;
  Thrower(Thrower &&) noexcept = default;
  Thrower &operator=(Thrower const &) = default;
  Thrower &operator=(Thrower &&) noexcept = default;
};
struct alignas(128) Wide {
  Tracked t;
  std::array<uint64_t, 20> fill;
  Wide() : Wide(0) {}
  explicit(false) Wide(uint64_t v) : t(v) { fill.fill(v ^ 0x5555); }
  void check(uint64_t v) const {
    VH_CHECK(t.get() == v, "value", "wide object holds %llu, expected %llu", (unsigned long long)t.get(),
             (unsigned long long)v);
    for (auto f : fill) VH_CHECK(f == (v ^ 0x5555), "value", "wide object damaged");
    VH_CHECK((uintptr_t)this % 128 == 0, "alignment", "over-aligned value at %p", (void const *)this);
  }
};
struct Empty {
  friend bool operator==(Empty, Empty) { return true; }
};
struct Other {
  uint64_t pad = 7;
  virtual ~Other() = default;
};
struct Derived : Other, Tracked {
  explicit Derived(uint64_t v) : Tracked(v) {}
};
// Converts from, and compares equal to, almost anything.
struct Greedy {
  uint64_t v = 0;
  Greedy() = default;
  template <class U>
    requires std::convertible_to<U, uint64_t>
  Greedy(U &&u) : v((uint64_t)u) {}
};

// ---------------------------------------------------------------- kinds: how to feed and inspect an eventually<T>

// Each kind has: T; Source (what a test prepares); ways (number of assignment forms); assign(ev, src, way);
// check(content reference, src); give(src) for tasks.
template <class X, class = void>
struct plain_value {
  using T = X;
  struct Source {
    uint64_t v;
    explicit Source(uint64_t s) : v(s % 100) {}
  };
  static constexpr unsigned ways = 3;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    X x = X(s.v);
    X const cx = x;
    switch (way) {
      case 0: return e = x;
      case 1: return e = cx;
      default: return e = std::move(x);
    }
  }
  static void check(X const &x, Source &s) {
    VH_CHECK(x == X(s.v), "value", "wrong content");
  }
  static X give(Source &s) { return X(s.v); }
};

struct k_int : plain_value<int> {};
struct k_bool : plain_value<bool> {};
struct k_double : plain_value<double> {};

struct k_ptr {
  using T = int *;
  struct Source {
    int i = 0;
    bool null;
    explicit Source(uint64_t s) : null(s & 1) {}
  };
  static constexpr unsigned ways = 2;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    if (s.null && way) return e = nullptr;
    return e = (s.null ? nullptr : &s.i);
  }
  static void check(int *const &x, Source &s) { VH_CHECK(x == (s.null ? nullptr : &s.i), "value", "wrong pointer"); }
  static int *give(Source &s) { return s.null ? nullptr : &s.i; }
};
struct k_empty {
  using T = Empty;
  struct Source {
    explicit Source(uint64_t) {}
  };
  static constexpr unsigned ways = 1;
  template <class E>
  static E &assign(E &e, Source &, unsigned) {
    return e = Empty{};
  }
  static void check(Empty const &, Source &) {}
  static Empty give(Source &) { return {}; }
};
struct k_greedy {
  using T = Greedy;
  struct Source {
    uint64_t v;
    explicit Source(uint64_t s) : v(s) {}
  };
  static constexpr unsigned ways = 3;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    Greedy g(s.v);
    switch (way) {
      case 0: return e = s.v;
      case 1: return e = g;
      default: return e = (int64_t)s.v;
    }
  }
  static void check(Greedy const &x, Source &s) { VH_CHECK(x.v == s.v, "value", "wrong content"); }
  static Greedy give(Source &s) { return Greedy(s.v); }
};
struct k_tracked {
  using T = Tracked;
  struct Source {
    uint64_t v;
    explicit Source(uint64_t s) : v(s) {}
  };
  static constexpr unsigned ways = 4;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    Tracked t(s.v);
    Tracked const c(s.v);
    E *r = nullptr;
    switch (way) {
      case 0:
        r = &(e = t);
        VH_CHECK(t.get() == s.v, "source-changed", "assigning an lvalue changed it");
        break;
      case 1:
        r = &(e = c);
        VH_CHECK(c.get() == s.v, "source-changed", "assigning a const lvalue changed it");
        break;
      case 2:
        r = &(e = std::move(t));
        VH_CHECK(t.moved, "not-moved", "an rvalue was copied");
        break;
      default:
        r = &(e = s.v); // explicit constructor
        break;
    }
    return *r;
  }
  static void check(Tracked const &x, Source &s) {
    VH_CHECK(x.get() == s.v, "value", "holds %llu, expected %llu", (unsigned long long)x.get(), (unsigned long long)s.v);
  }
  static Tracked give(Source &s) { return Tracked(s.v); }
};
struct k_unique {
  using T = std::unique_ptr<Tracked>;
  struct Source {
    uint64_t v;
    explicit Source(uint64_t s) : v(s) {}
  };
  static constexpr unsigned ways = 2;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    if (way) return e = std::make_unique<Tracked>(s.v);
    auto p = std::make_unique<Tracked>(s.v);
    auto &r = (e = std::move(p));
    VH_CHECK(!p, "not-moved", "source of a move still owns its object");
    return r;
  }
  static void check(T const &x, Source &s) { VH_CHECK(x && x->get() == s.v, "value", "wrong content"); }
  static T give(Source &s) { return std::make_unique<Tracked>(s.v); }
};
struct k_wide {
  using T = Wide;
  struct Source {
    uint64_t v;
    explicit Source(uint64_t s) : v(s) {}
  };
  static constexpr unsigned ways = 2;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    Wide w(s.v);
    if (way) return e = w;
    return e = std::move(w);
  }
  static void check(Wide const &x, Source &s) { x.check(s.v); }
  static Wide give(Source &s) { return Wide(s.v); }
};
struct k_thrower {
  using T = Thrower;
  struct Source {
    uint64_t v;
    explicit Source(uint64_t s) : v(s & ~uint64_t{1}) {}
  };
  static constexpr unsigned ways = 3;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    Thrower t(s.v);
    switch (way) {
      case 0: return e = t;
      case 1: return e = std::move(t);
      default: return e = s.v;
    }
  }
  template <class E>
  static void failing(E &e, uint64_t v) {
    v |= 1;
    bool threw = false;
    try {
      e = v;
    } catch (Exc const &x) {
      threw = x.token == v;
    }
    VH_CHECK(threw, "conversion-exception", "the exception of a throwing conversion did not come out");
    count("failed_assignments");
  }
  static void check(Thrower const &x, Source &s) {
    VH_CHECK(x.v == s.v && x.part.get() == s.v, "value", "wrong content");
  }
  static Thrower give(Source &s) { return Thrower(s.v); }
};
struct k_exception_ptr { // a value type that is itself an exception_ptr
  using T = std::exception_ptr;
  struct Source {
    uint64_t v;
    explicit Source(uint64_t s) : v(s) {}
  };
  static constexpr unsigned ways = 2;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    auto p = s.v & 1 ? std::exception_ptr{} : std::make_exception_ptr(Exc(s.v));
    if (way) return e = p;
    return e = std::move(p);
  }
  static void check(std::exception_ptr const &x, Source &s) {
    if (s.v & 1) {
      VH_CHECK(x == nullptr, "value", "null exception_ptr became something else");
      return;
    }
    VH_CHECK(x != nullptr, "value", "exception_ptr lost");
    try {
      std::rethrow_exception(x);
    } catch (Exc const &ex) {
      VH_CHECK(ex.token == s.v, "value", "another exception");
    }
  }
  static T give(Source &s) { return s.v & 1 ? std::exception_ptr{} : std::make_exception_ptr(Exc(s.v)); }
};
struct k_string {
  using T = std::string;
  struct Source {
    std::string v;
    explicit Source(uint64_t s) : v(s % 60, 'a' + (char)(s % 26)) {}
  };
  static constexpr unsigned ways = 4;
  template <class E>
  static E &assign(E &e, Source &s, unsigned way) {
    switch (way) {
      case 0: return e = s.v;
      case 1: return e = s.v.c_str();
      case 2: return e = std::string_view(s.v);
      default: return e = std::string(s.v);
    }
  }
  static void check(std::string const &x, Source &s) { VH_CHECK(x == s.v, "value", "wrong string"); }
  static std::string give(Source &s) { return s.v; }
};

template <class R, class Obj>
struct ref_kind {
  using T = R;
  struct Source {
    Obj o;
    uint64_t v;
    explicit Source(uint64_t s) : o(s), v(s) {}
  };
  static constexpr unsigned ways = 1;
  template <class E>
  static E &assign(E &e, Source &s, unsigned) {
    return e = static_cast<std::conditional_t<std::is_rvalue_reference_v<R>, Obj &&, Obj &>>(s.o);
  }
  static void check(std::remove_reference_t<R> &x, Source &s) {
    VH_CHECK(std::addressof(x) == static_cast<std::remove_reference_t<R> *>(&s.o), "identity",
             "the reference denotes another object");
    VH_CHECK(x.get() == s.v, "value", "referenced object changed");
  }
  static R give(Source &s) { return static_cast<R>(s.o); }
};
struct k_ref : ref_kind<Tracked &, Tracked> {};
struct k_cref : ref_kind<Tracked const &, Tracked> {};
struct k_rref : ref_kind<Tracked &&, Tracked> {};
struct k_crref : ref_kind<Tracked const &&, Tracked> {};
struct k_base : ref_kind<Tracked const &, Derived> {}; // binds to a base at an offset

// ---------------------------------------------------------------- inspection

enum st { s_empty, s_value, s_exc };

template <class E, class K>
void inspect(E &e, typename K::Source *src, st want, uint64_t token, rng &g) {
  using T = typename K::T;
  constexpr bool ex = requires { e.has_exception(); };
  for (int rep = 0; rep < 2; ++rep) {
    VH_CHECK(e.empty() == (want == s_empty), "state", "empty() is %d in state %d", e.empty(), want);
    VH_CHECK(std::as_const(e).has_value() == (want == s_value), "state", "has_value() is %d in state %d", e.has_value(),
             want);
    if constexpr (ex) {
      VH_CHECK(e.has_exception() == (want == s_exc), "state", "has_exception() is %d in state %d", e.has_exception(),
               want);
    }
    if (want == s_value) {
      K::check(*e, *src);
      K::check(*std::as_const(e), *src);
      if constexpr (!std::is_pointer_v<T>) {
        VH_CHECK((void const *)e.operator->() == (void const *)std::addressof(*e), "arrow", "-> and * differ");
        VH_CHECK((void const *)std::as_const(e).operator->() == (void const *)std::addressof(*e), "arrow",
                 "-> and * differ");
      }
      if constexpr (!std::is_reference_v<T>) {
        auto p = (uintptr_t)std::addressof(*e), lo = (uintptr_t)&e;
        VH_CHECK(p >= lo && p + sizeof(T) <= lo + sizeof(E), "storage", "the value is not stored inside");
        static_assert(std::same_as<decltype(*e), T &>);
        static_assert(std::same_as<decltype(*std::as_const(e)), T const &>);
        static_assert(std::same_as<decltype(*std::move(e)), T &&>);
      } else {
        static_assert(std::same_as<decltype(*std::move(e)), T>);
      }
      // Forming the rvalue does not consume anything.
      auto &&r = *std::move(e);
      K::check(r, *src);
      auto &&cr = *std::move(std::as_const(e));
      K::check(cr, *src);
      if constexpr (std::is_reference_v<T> && !std::is_rvalue_reference_v<T>) {
        static_assert(std::is_lvalue_reference_v<decltype(r)>);
      }
    }
    if constexpr (ex) {
      if (want == s_exc) {
        std::exception_ptr p = g.chance(1, 2) ? e.exception() : std::as_const(e).exception();
        VH_CHECK(p != nullptr, "exception", "null exception_ptr");
        try {
          std::rethrow_exception(p);
        } catch (Exc const &x) {
          VH_CHECK(x.token == token, "exception", "another exception");
        }
      }
    }
  }
}

// ---------------------------------------------------------------- direct model

template <class K, bool Ex>
void direct(uint64_t seed, int rounds, char const *name) {
  using T = typename K::T;
  using E = lf::basic_eventually<T, Ex>;
  static_assert(std::same_as<E, std::conditional_t<Ex, lf::try_eventually<T>, lf::eventually<T>>>);
  static_assert(!std::is_move_constructible_v<E> && !std::is_copy_constructible_v<E>);
  rng g(seed);
  auto *mem = static_cast<unsigned char *>(::aligned_alloc(std::max<size_t>(alignof(E), 64), (sizeof(E) + 191) / 128 * 128));
  for (int r = 0; r < rounds; ++r) {
    int64_t live = g_census.live.load(), exl = g_exc_census.live.load();
    {
      set_case("seed=%llu direct %s%s round %d", (unsigned long long)seed, Ex ? "try_" : "", name, r);
      std::memset(mem, (int)g.below(256), sizeof(E)); // no reliance on zeroed memory
      E *e = ::new (mem) E;
      auto src = std::make_unique<typename K::Source>(g.u64() >> 1);
      uint64_t token = g.u64();
      inspect<E, K>(*e, nullptr, s_empty, 0, g);
      if constexpr (requires { K::failing(*e, token); }) {
        for (uint64_t k = g.below(3); k; --k) {
          K::failing(*e, g.u64());
          inspect<E, K>(*e, nullptr, s_empty, 0, g);
        }
      }
      st want = s_empty;
      uint64_t choice = g.below(Ex ? 5 : 4);
      unsigned way = (unsigned)g.below(K::ways);
      if (choice == 0) {
        count("left_empty");
      } else if (choice < 4) {
        E &back = K::assign(*e, *src, way);
        VH_CHECK(&back == e, "assign-result", "operator= did not return the object");
        want = s_value;
        count("assignments");
      } else if constexpr (Ex) {
        try {
          throw Exc(token);
        } catch (...) {
          static_assert(noexcept(stash_exception(*e)));
          stash_exception(*e);
        }
        want = s_exc;
        count("exceptions_stashed");
      }
      inspect<E, K>(*e, src.get(), want, token, g);
      if (want == s_value && g.chance(1, 2)) {
        // Consume it: the state stays, the object is destroyed once.
        if constexpr (!std::is_reference_v<T>) {
          T taken = *std::move(*e);
          K::check(taken, *src);
          VH_CHECK(e->has_value() && !e->empty(), "state", "moving out changed the state");
        } else if constexpr (std::same_as<T, Tracked &&>) {
          T taken = *std::move(*e);
          K::check(taken, *src);
        }
        count("moved_out");
      }
      if constexpr (Ex) {
        if (want == s_exc && g.chance(1, 2)) {
          std::exception_ptr p = std::move(*e).exception();
          try {
            std::rethrow_exception(p);
          } catch (Exc const &x) {
            VH_CHECK(x.token == token, "exception", "another exception");
          }
        }
      }
      e->~E();
      distinct(hcombine(hcombine(std::hash<std::string_view>{}(name), Ex), hcombine(want, way)));
    }
    VH_CHECK(g_census.live.load() == live, "object-leak", "%lld objects too many or few after destruction",
             (long long)(g_census.live.load() - live));
    VH_CHECK(g_exc_census.live.load() == exl, "exception-leak", "%lld exception objects too many or few",
             (long long)(g_exc_census.live.load() - exl));
    evaluation();
  }
  ::free(mem);
}

void direct_void(uint64_t seed, int rounds) {
  using E = lf::try_eventually<void>;
  rng g(seed);
  alignas(E) unsigned char mem[sizeof(E)];
  for (int r = 0; r < rounds; ++r) {
    int64_t exl = g_exc_census.live.load();
    set_case("seed=%llu direct try_eventually<void> round %d", (unsigned long long)seed, r);
    std::memset(mem, (int)g.below(256), sizeof(E));
    E *e = ::new (mem) E;
    VH_CHECK(e->empty() && !e->has_exception(), "state", "not empty after construction");
    uint64_t token = g.u64();
    if (g.chance(1, 2)) {
      try {
        throw Exc(token);
      } catch (...) {
        stash_exception(*e);
      }
      VH_CHECK(!e->empty() && e->has_exception(), "state", "no exception after stashing one");
      try {
        std::rethrow_exception(e->exception());
      } catch (Exc const &x) {
        VH_CHECK(x.token == token, "exception", "another exception");
      }
      count("exceptions_stashed");
    }
    e->~E();
    VH_CHECK(g_exc_census.live.load() == exl, "exception-leak", "exception object leaked");
    evaluation();
  }
}

// ---------------------------------------------------------------- bound to tasks

inline constexpr auto nop = [](auto) -> lf::task<void> {
  co_return;
};

template <class K>
struct producer {
  // mode: 0 returns, 1 throws, 2 returns after calling another task, 3 throws after one, 4 conversion throws
  auto operator()(auto self, typename K::Source *src, unsigned mode, uint64_t token) const -> lf::task<typename K::T> {
    perturb();
    if (mode == 2 || mode == 3) {
      co_await lf::call(nop)();
      co_await lf::join;
    }
    if (mode == 1 || mode == 3) throw Exc(token);
    if constexpr (requires(lf::eventually<typename K::T> &e) { K::failing(e, token); }) {
      if (mode == 4) co_return token | 1;
    }
    co_return K::give(*src);
  }
};

template <class K, bool Ex>
struct consumer {
  static constexpr int most = 24;
  auto operator()(auto self, uint64_t seed, int n) const -> lf::task<void> {
    using E = lf::basic_eventually<typename K::T, Ex>;
    rng g(seed);
    constexpr bool conv = requires(E &e) { K::failing(e, 1); };
    {
      auto evs = std::make_unique<E[]>((size_t)n);
      std::vector<std::unique_ptr<typename K::Source>> src;
      std::vector<unsigned> mode;
      std::vector<uint64_t> token;
      bool calm = !Ex && g.chance(1, 2);
      for (int i = 0; i < n; ++i) {
        src.push_back(std::make_unique<typename K::Source>(g.u64() >> 1));
        mode.push_back(calm ? (unsigned)g.below(2) * 2 : (unsigned)g.below(conv ? 5 : 4));
        token.push_back(g.u64() | 1);
      }
      bool may_throw = false;
      std::exception_ptr caught;
      std::vector<bool> started((size_t)n, false);
      bool early = false;
      for (int i = 0; i < n && !early; ++i) {
        auto u = (size_t)i;
        started[u] = true;
        bool throws = mode[u] == 1 || mode[u] >= 3;
        if (throws && !Ex) may_throw = true;
        if (g.chance(2, 3)) {
          co_await lf::fork(&evs[u], producer<K>{})(src[u].get(), mode[u], token[u]);
        } else {
          co_await lf::call(&evs[u], producer<K>{})(src[u].get(), mode[u], token[u]);
          // A call's result is there at once.
          VH_CHECK(evs[u].empty() == (throws && !Ex), "call-result", "after a call: empty() is %d", evs[u].empty());
        }
      }
      try {
        co_await lf::join;
      } catch (...) {
        caught = std::current_exception();
      }
      VH_CHECK((caught != nullptr) == may_throw, "join-exception", "join %s", caught ? "threw" : "did not throw");
      if (caught) {
        bool known = false;
        try {
          std::rethrow_exception(caught);
        } catch (Exc const &x) {
          for (int i = 0; i < n; ++i) known |= x.token == token[(size_t)i] && (mode[(size_t)i] & 1 || mode[(size_t)i] == 4);
        }
        VH_CHECK(known, "join-exception", "unknown exception");
        caught = nullptr;
      }
      for (int i = 0; i < n; ++i) {
        auto u = (size_t)i;
        bool throws = mode[u] == 1 || mode[u] >= 3;
        st want = throws ? (Ex ? s_exc : s_empty) : s_value;
        inspect<E, K>(evs[u], src[u].get(), want, token[u], g);
        count(throws ? "tasks_that_threw" : "tasks_that_returned");
      }
      for (int i = 0; i < n; ++i) {
        if constexpr (!std::is_reference_v<typename K::T>) {
          if (evs[(size_t)i].has_value() && g.chance(1, 2)) {
            // On the heap: coroutine frames do not support over-aligned locals with every compiler.
            auto t = std::make_unique<typename K::T>(*std::move(evs[(size_t)i]));
            K::check(*t, *src[(size_t)i]);
          }
        }
      }
    }
    co_return;
  }
};

template <class K, bool Ex>
void bound(any_pool &pool, uint64_t seed, char const *name) {
  rng g(seed);
  for (int r = 0; r < 6; ++r) {
    set_case("seed=%llu tasks bound to %s%s on %s", (unsigned long long)seed, Ex ? "try_" : "", name, pool.name.c_str());
    int n = 1 + (int)g.below(consumer<K, Ex>::most);
    {
      watch w;
      lf::sync_wait(pool, consumer<K, Ex>{}, g.u64(), n);
    }
    evaluation();
    count("bound_programs");
  }
}

// What may be bound must not dangle (judged at run time so that a mistake here is a finding, not a build failure).
template <class T, class From>
constexpr bool binds = std::is_assignable_v<lf::eventually<T> &, From>;
static void bindings() {
  set_case("binding rules");
  struct row {
    bool got, want;
    char const *what;
  };
  row rows[] = {
      {binds<int &, int &>, true, "int& = int lvalue"},
      {binds<int &, int const &>, false, "int& = const lvalue"},
      {binds<int &, int>, false, "int& = rvalue"},
      {binds<int const &, int &>, true, "const int& = lvalue"},
      {binds<int const &, int const &>, true, "const int& = const lvalue"},
      {binds<int const &, int>, false, "const int& = rvalue"},
      {binds<int &&, int>, true, "int&& = rvalue"},
      {binds<int &&, int &>, false, "int&& = lvalue"},
      {binds<int const &&, int>, true, "const int&& = rvalue"},
      {binds<std::string const &, char const *>, false, "string const& = temporary"},
      {binds<std::string &&, char const *>, false, "string&& = temporary"},
      {binds<std::unique_ptr<int>, std::unique_ptr<int>>, true, "unique_ptr = rvalue"},
      {binds<std::unique_ptr<int>, std::unique_ptr<int> &>, false, "unique_ptr = lvalue"},
      {binds<std::string, char const *>, true, "string = literal"},
      {binds<int, std::string>, false, "int = string"},
  };
  for (auto const &r : rows) {
    VH_CHECK(r.got == r.want, "binding", "%s is %s", r.what, r.got ? "accepted" : "rejected");
    count("binding_rules");
  }
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int rounds = (int)arg("rounds", 300), pools = (int)arg("pools", 6);
  rng g(seed);
  bindings();
  auto each = [&](auto f) {
#if VH_PART != 1
    f.template operator()<k_int>("eventually<int>");
    f.template operator()<k_bool>("eventually<bool>");
    f.template operator()<k_double>("eventually<double>");
    f.template operator()<k_ptr>("eventually<int*>");
    f.template operator()<k_empty>("eventually<Empty>");
    f.template operator()<k_greedy>("eventually<Greedy>");
    f.template operator()<k_tracked>("eventually<Tracked>");
#endif
#if VH_PART != 0
    f.template operator()<k_unique>("eventually<unique_ptr>");
    f.template operator()<k_wide>("eventually<Wide>");
    f.template operator()<k_thrower>("eventually<Thrower>");
    f.template operator()<k_exception_ptr>("eventually<exception_ptr>");
    f.template operator()<k_string>("eventually<string>");
    f.template operator()<k_ref>("eventually<T&>");
    f.template operator()<k_cref>("eventually<T const&>");
    f.template operator()<k_rref>("eventually<T&&>");
    f.template operator()<k_crref>("eventually<T const&&>");
    f.template operator()<k_base>("eventually<Base const&>");
#endif
  };
  each([&]<class K>(char const *name) {
    direct<K, false>(g.u64(), rounds, name);
    direct<K, true>(g.u64(), rounds, name);
  });
  direct_void(g.u64(), rounds);
  sample("direct: 17 value and reference types, with and without exceptions");

  for (int p = 0; p < pools; ++p) {
    int64_t live = g_census.live.load(), exl = g_exc_census.live.load();
    {
      auto kind = (any_pool::kind_t)g.below(4);
      any_pool pool(kind, 1 + g.below(6), g.u64());
      static uint32_t const rates[] = {0, 50, 300, 3000};
      set_delays(g.u64(), g.pick(rates));
      each([&]<class K>(char const *name) {
        bound<K, false>(pool, g.u64(), name);
        bound<K, true>(pool, g.u64(), name);
      });
      sample(g_case);
      set_delays(0, 0);
    }
    VH_CHECK(g_census.live.load() == live && g_exc_census.live.load() == exl, "object-leak",
             "%lld objects and %lld exceptions left after the pool was destroyed",
             (long long)(g_census.live.load() - live), (long long)(g_exc_census.live.load() - exl));
  }
  finish();
}
