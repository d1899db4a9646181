// Random structured fork-join programs on libfork, judged against their serial elision and by per-task monitors.
//
// features (bit mask, argument "feat"):
//   1 return kinds/frames   2 exceptions   4 context switches   8 co_new   16 modifiers/just
#include "pools.hpp"

using namespace vh;

// ------------------------------------------------------------------ programs

enum : unsigned { F_KINDS = 1, F_EXC = 2, F_SWITCH = 4, F_ALLOC = 8, F_MODS = 16 };

enum class K : uint8_t { fork, call, join, work, sw, stash };

// How a child is invoked.
enum How : uint8_t {
  h_core,      // the interpreter itself, result in the parent's frame or slot
  h_tracked,   // 64 byte frame pad, Tracked result by pointer
  h_void,      // 512 byte pad, void
  h_wide,      // 3000 byte pad
  h_huge,      // 9000 byte pad, Tracked into eventually
  h_ref,       // reference result into eventually<T&>
  h_ev,        // eventually<u64>
  h_try,       // try_eventually<u64>
  h_tryvoid,   // try_eventually<void>
  h_discard,   // result discarded
  h_alloc1,    // task holding co_new storage
  h_alloc2,
  h_mod,       // fork: sync, call: eager_throw
  h_modout,    // fork: sync_outside, call: eager_throw_outside
  h_just,      // call only
  h_count
};

struct Op {
  K k;
  uint8_t how = 0;
  bool stashed = false; // exception goes to the return object / to the caller at once, not to the scope
  int child = -1;
  uint32_t arg = 0;
};

struct Node {
  std::vector<Op> ops;
  int parent = -1;
  uint32_t seed = 0;
  bool throws_end = false;
  bool catches = false;
  // serial elision
  bool runs = false;
  bool threw = false;
  uint64_t value = 0;
};

struct Program {
  std::vector<Node> nodes;
  unsigned feat = 0;
  int work = 0;
};

static constexpr uint64_t EXCK = 0xE0E0E0E0, JUSTK = 0x1057, TRYK = 0x7247;

static uint64_t spin_work(uint64_t x, unsigned n) {
  for (unsigned i = 0; i < n; ++i) {
    x = mix(x + i);
  }
  return x;
}

// Serial elision, also decides which nodes run (a node that throws early skips the rest of its ops).
static void serial(Program &p, int id);

struct Gen {
  Program &p;
  rng g;
  int budget;
  unsigned shape; // 0 wide, 1 deep, 2 mixed, 3 chain of many forks in one scope

  int make(int parent, int depth) {
    int id = (int)p.nodes.size();
    p.nodes.emplace_back();
    --budget;
    Node n;
    n.parent = parent;
    n.seed = (uint32_t)g.u64();
    n.catches = g.chance(1, 2);
    n.throws_end = (p.feat & F_EXC) && g.chance(1, 7);

    int scopes = (budget > 0) ? (shape == 1 ? 1 : (int)g.range(depth == 0 ? 1 : 0, 3)) : 0;
    bool may_throw_out = false;

    for (int s = 0; s < scopes && !may_throw_out; ++s) {
      int width = shape == 0   ? (int)g.range(1, 9)
                  : shape == 1 ? (int)g.range(1, 2)
                  : shape == 3 ? (int)g.range(8, 40)
                               : (int)g.range(1, 4);
      bool thrower = false, open = false;
      for (int i = 0; i < width; ++i) {
        if (g.chance(1, 6)) {
          n.ops.push_back({.k = K::work, .arg = (uint32_t)g.u64()});
        }
        if ((p.feat & F_SWITCH) && g.chance(1, 4)) {
          n.ops.push_back({.k = K::sw, .arg = (uint32_t)g.u64()});
        }
        if ((p.feat & F_EXC) && g.chance(1, 30)) {
          n.ops.push_back({.k = K::stash, .arg = (uint32_t)g.u64()});
          thrower = open = true;
        }
        if (budget <= 0) {
          break;
        }
        Op o;
        o.k = g.chance(2, 3) ? K::fork : K::call;
        o.how = h_core;
        if ((p.feat & F_KINDS) && g.chance(1, 2)) {
          o.how = (uint8_t)g.range(h_tracked, h_discard);
        }
        if ((p.feat & F_ALLOC) && g.chance(1, 3)) {
          o.how = g.chance(1, 2) ? h_alloc1 : h_alloc2;
        }
        if ((p.feat & F_MODS) && g.chance(1, 3)) {
          o.how = (uint8_t)(g.chance(1, 3) && o.k == K::call ? h_just : (!open && g.chance(1, 2)) ? h_modout : h_mod);
        }
        if (shape == 1 && i == width - 1 && g.chance(1, 2)) {
          o.k = K::call;
          if (o.how == h_just || o.how == h_modout || o.how == h_mod) {
            o.how = h_core;
          }
        }
        o.arg = (uint32_t)g.u64();
        o.child = make(id, depth + 1);
        serial(p, o.child);
        bool ct = p.nodes[(size_t)o.child].threw;
        o.stashed = o.how == h_try || o.how == h_tryvoid || o.how == h_just;
        n.ops.push_back(o);
        open = true;
        if (ct && !o.stashed) {
          thrower = true;
        }
        if (thrower && (o.how == h_mod || o.how == h_modout)) {
          break; // an early rethrow here depends on the schedule: go straight to the join
        }
      }
      n.ops.push_back({.k = K::join});
      may_throw_out = thrower && !n.catches;
    }
    p.nodes[(size_t)id] = std::move(n);
    return id;
  }
};

static void serial(Program &p, int id) {
  Node &n = p.nodes[(size_t)id];
  n.runs = true;
  uint64_t acc = mix(n.seed);
  std::vector<Op const *> scope;
  bool thrown = false;
  for (Op const &o : n.ops) {
    switch (o.k) {
      case K::work:
        acc = spin_work(acc ^ o.arg, o.arg % 16);
        break;
      case K::sw:
        break;
      case K::stash:
        thrown = true;
        break;
      case K::fork:
      case K::call: {
        Node &c = p.nodes[(size_t)o.child];
        if (o.how == h_just) {
          acc = hcombine(acc, c.threw ? JUSTK : c.value);
        } else {
          scope.push_back(&o);
          thrown |= c.threw && !o.stashed;
        }
        break;
      }
      case K::join:
        if (thrown) {
          acc = hcombine(acc, EXCK);
          for (auto *s : scope) { // results stored beside the return value remain readable
            if (s->stashed && p.nodes[(size_t)s->child].threw) {
              acc = hcombine(acc, TRYK);
            }
          }
          if (!n.catches) {
            n.threw = true;
            return;
          }
        } else {
          for (auto *s : scope) {
            Node &c = p.nodes[(size_t)s->child];
            acc = hcombine(acc, c.threw ? TRYK : (s->how == h_discard ? 0x0d15 : c.value));
          }
        }
        scope.clear();
        thrown = false;
        break;
    }
  }
  if (n.throws_end) {
    n.threw = true;
    return;
  }
  n.value = acc;
}

static Program generate(uint64_t seed, unsigned feat, int budget) {
  Program p;
  p.feat = feat;
  rng g(seed);
  Gen gen{p, rng(g.u64()), budget, (unsigned)g.below(4)};
  gen.make(-1, 0);
  serial(p, 0);
  return p;
}

// ------------------------------------------------------------------ monitors (plain memory on purpose)

struct Mon {
  int armed = 0;
  int core_started = 0, core_done = 0;
  int outer_alive = 0, outer_done = 0;
  int pc = 0;
  int threw = 0;
  uint64_t token = 0;
  uint32_t worker = 0;
  uint64_t secret = 0; // written by the parent before the fork, read by the child
  uint64_t reply = 0;  // written by the child at its end, read by the parent after the join
};

struct Slot {
  uint64_t u = 0;
  Tracked t{};
  lf::eventually<uint64_t &> er;
  lf::eventually<uint64_t> eu;
  lf::eventually<Tracked> et;
  lf::try_eventually<uint64_t> tu;
  lf::try_eventually<void> tv;
  uint64_t cell = 0;
};

struct Run {
  Program const &p;
  any_pool &pool;
  std::unique_ptr<Mon[]> mon;
  std::unique_ptr<Slot[]> slot;
  uint64_t tag;
  std::vector<lf::worker_context *> ctx;
  std::vector<uint32_t> ctx_thread;
  any_pool *other = nullptr; // a second pool, whose contexts follow those of the first in ctx
  struct Courier *courier = nullptr;
  uint64_t steals_seen = 0;
  bool checked_values = true;

  Run(Program const &prog, any_pool &pl, uint64_t t) : p(prog), pool(pl), tag(t) {
    mon = std::make_unique<Mon[]>(p.nodes.size());
    slot = std::make_unique<Slot[]>(p.nodes.size());
  }
};

// An external thread that delivers suspended tasks to workers after a delay.
struct Courier {
  struct item {
    lf::submit_handle h;
    lf::worker_context *to;
    unsigned delay;
  };
  std::mutex m;
  std::condition_variable cv;
  std::deque<item> q;
  bool stop = false;
  uint64_t delivered = 0;
  std::thread th;
  Courier() {
    th = std::thread([this] {
      std::unique_lock lk(m);
      for (;;) {
        cv.wait(lk, [&] {
          return stop || !q.empty();
        });
        if (q.empty()) {
          return;
        }
        item it = q.front();
        q.pop_front();
        ++delivered;
        lk.unlock();
        if (it.delay) {
          timespec ts{0, (long)it.delay * 100};
          nanosleep(&ts, nullptr);
        }
        it.to->schedule(it.h);
        lk.lock();
      }
    });
  }
  void send(item it) {
    std::lock_guard lk(m);
    q.push_back(it);
    cv.notify_one();
  }
  ~Courier() {
    {
      std::lock_guard lk(m);
      stop = true;
      cv.notify_one();
    }
    th.join();
  }
};

// A user-written context switcher.
struct Switcher {
  Run *r;
  unsigned dest;
  unsigned mode; // 0 direct, 1 via courier, 2 ready, 3 throws in await_suspend before handing over
  uint64_t cookie;
  auto await_ready() const noexcept -> bool { return mode == 2; }
  void await_suspend(lf::submit_handle h) {
    if (mode == 3) {
      throw Exc(cookie);
    }
    // The coroutine (and *this) may be gone as soon as it is handed over.
    auto *to = r->ctx[dest];
    if (mode == 1) {
      r->courier->send({h, to, (unsigned)(cookie % 300)});
    } else {
      to->schedule(h);
    }
  }
  auto await_resume() const noexcept -> uint64_t { return cookie ^ 0x5a5a; }
};
static_assert(lf::context_switcher<Switcher>);

__attribute__((noinline)) static void fill(uint8_t *b, size_t n, uint64_t seed) {
  for (size_t i = 0; i < n; ++i) {
    b[i] = (uint8_t)(mix(seed + i / 8) >> (8 * (i % 8)));
  }
}
__attribute__((noinline)) static void verify(uint8_t const *b, size_t n, uint64_t seed, char const *what, int node) {
  for (size_t i = 0; i < n; ++i) {
    if (b[i] != (uint8_t)(mix(seed + i / 8) >> (8 * (i % 8)))) {
      fail("frame-overwritten", "%s of live task %d was overwritten at byte %zu of %zu", what, node, i, n);
    }
  }
}

template <int N>
struct Pad {
  uint64_t seed;
  int node;
  uint8_t b[N];
  Pad(uint64_t s, int nd) : seed(s), node(nd) { fill(b, N, seed); }
  ~Pad() { verify(b, N, seed, "a local array", node); }
};

// Marks the life of the outermost task of a node. Its destructor runs after every other local is gone.
struct Outer {
  Run *r;
  int id;
  uint64_t self_check;
  Outer(Run *run, int node) : r(run), id(node), self_check(mix((uint64_t)node ^ run->tag)) {
    Mon &m = r->mon[(size_t)id];
    VH_CHECK(m.outer_alive == 0 && m.outer_done == 0, "task-started-twice", "task %d was started a second time", id);
    m.outer_alive = 1;
    if (int p = r->p.nodes[(size_t)id].parent; p >= 0) {
      VH_CHECK(m.armed == 1, "started-before-fork", "task %d ran although its parent had not dispatched it", id);
      VH_CHECK(m.secret == mix(r->tag + (uint64_t)id), "parent-write-invisible",
               "task %d does not see what its parent wrote before the fork", id);
      VH_CHECK(r->mon[(size_t)p].core_done == 0, "child-outlives-parent", "task %d runs after its parent %d ended", id,
               p);
    }
  }
  ~Outer() {
    VH_CHECK(self_check == mix((uint64_t)id ^ r->tag), "frame-overwritten", "a local of task %d was overwritten", id);
    Mon &m = r->mon[(size_t)id];
    VH_CHECK(m.outer_alive == 1 && m.outer_done == 0, "task-finished-twice", "task %d finished a second time", id);
    m.outer_alive = 0;
    m.outer_done = 1;
    m.reply = mix(r->tag ^ (uint64_t)id * 77);
  }
};

// ------------------------------------------------------------------ tasks

struct core_fn {
  auto operator()(auto self, Run *r, int id, bool outer) const -> lf::task<uint64_t>;
};
inline constexpr core_fn core{};

static uint64_t make_token(Run *r, int id, int k) { return mix(r->tag ^ ((uint64_t)id << 20) ^ (uint64_t)k); }

// co_await a (possible) switch, used by several tasks.
#define MAYBE_SWITCH(r, id, a)                                                                                       \
  if (!(r)->ctx.empty()) {                                                                                           \
    unsigned _d = (unsigned)((a) >> 8) % (unsigned)(r)->ctx.size();                                                  \
    unsigned _m = (unsigned)(a) % 8;                                                                                 \
    if (_m < 3) {                                                                                                    \
      co_await lf::resume_on((r)->ctx[_d]);                                                                          \
      check_on(r, id, _d);                                                                                           \
    } else if (_m == 3) {                                                                                            \
      any_pool *_p = ((r)->other && (_d & 1)) ? (r)->other : &(r)->pool;                                             \
      co_await lf::resume_on(_p);                                                                                    \
      check_in(r, id, _p);                                                                                           \
    } else {                                                                                                         \
      uint64_t _c = mix((r)->tag ^ (a));                                                                             \
      bool _threw = false;                                                                                           \
      uint64_t _v = 0;                                                                                               \
      unsigned _mode = _m == 7 ? 3u : (_m - 4);                                                                      \
      try {                                                                                                          \
        _v = co_await Switcher{r, _d, _mode, _c};                                                                    \
      } catch (Exc const &e) {                                                                                       \
        VH_CHECK(e.token == _c, "switch-exception", "task %d: wrong exception out of a context switch", id);         \
        _threw = true;                                                                                               \
      }                                                                                                              \
      VH_CHECK(_threw == (_mode == 3), "switch-exception", "task %d: context switch threw: %d", id, (int)_threw);    \
      if (!_threw) {                                                                                                 \
        VH_CHECK(_v == (_c ^ 0x5a5a), "switch-value", "task %d: wrong value out of a context switch", id);           \
        if (_mode != 2) {                                                                                            \
          check_on(r, id, _d);                                                                                       \
        }                                                                                                            \
      }                                                                                                              \
    }                                                                                                                \
  }

__attribute__((noinline)) static void check_on(Run *r, int id, unsigned dest) {
  if (!r->ctx_thread.empty()) {
    VH_CHECK(thread_no() == r->ctx_thread[dest], "switch-wrong-worker",
             "task %d switched to worker %u (thread %u) but runs on thread %u", id, dest, r->ctx_thread[dest],
             thread_no());
  }
}

__attribute__((noinline)) static void check_in(Run *r, int id, any_pool *p) {
  if (!r->ctx_thread.empty()) {
    size_t lo = p == &r->pool ? 0 : r->pool.contexts().size(), n = p->contexts().size();
    auto b = r->ctx_thread.begin() + (long)lo;
    VH_CHECK(std::find(b, b + (long)n, thread_no()) != b + (long)n, "switch-wrong-worker",
             "task %d switched to %s but runs on thread %u", id, p->name.c_str(), thread_no());
  }
}

template <int P, class R>
struct adapter {
  auto operator()(auto self, Run *r, int id, Tracked arg) const -> lf::task<R> {
    Outer outer{r, id};
    uint64_t sd = mix(r->tag * 3 + (uint64_t)id);
    VH_CHECK(arg.get() == sd, "argument", "task %d received a wrong argument", id);
    Pad<P> pad{sd, id};
    Tracked local{sd};
    uint64_t v = 0x1111;
    uint32_t s = r->p.nodes[(size_t)id].seed;
    if ((r->p.feat & F_SWITCH) && s % 5 == 0) {
      MAYBE_SWITCH(r, id, s);
    }
    if (s % 2) {
      co_await lf::fork(&v, core)(r, id, false);
    } else {
      co_await lf::call(&v, core)(r, id, false);
    }
    co_await lf::join;
    VH_CHECK(arg.get() == sd && local.get() == sd, "argument", "an argument or local of task %d changed", id);
    Slot &sl = r->slot[(size_t)id];
    sl.u = v;
    if constexpr (std::is_void_v<R>) {
      co_return;
    } else if constexpr (std::is_reference_v<R>) {
      sl.cell = v;
      co_return sl.cell;
    } else if constexpr (std::same_as<R, Tracked>) {
      co_return Tracked{v};
    } else {
      co_return v;
    }
  }
};

// Elements whose construction can fail.
struct Picky {
  static inline thread_local int64_t fail_at = -1;
  static inline thread_local int64_t built = 0, ruined = 0;
  uint64_t body[3];
  Picky() {
    if (fail_at == built) {
      throw Exc{0xbad};
    }
    ++built;
    body[0] = body[2] = (uint64_t)(uintptr_t)this;
  }
  Picky(Picky const &) = delete;
  ~Picky() {
    VH_CHECK(body[0] == (uint64_t)(uintptr_t)this && body[2] == body[0], "co_new-destroyed", "destroyed something else");
    ++ruined;
  }
};

// A task that is ended by the failure of a request made while it holds other storage.
inline constexpr auto failing_alloc = [](auto, uint64_t s) -> lf::task<uint64_t> {
  static constexpr size_t sizes[] = {1, 5, 60, 400, 3000};
  auto a = co_await lf::co_new<Tracked>(sizes[s % 4]);
  auto &[sa] = a;
  sa[0] = Tracked{s};
  size_t n = sizes[(s >> 4) % 5];
  Picky::built = Picky::ruined = 0;
  Picky::fail_at = (int64_t)((s >> 8) % n);
  auto b = co_await lf::co_new<Picky>(n);
  co_return 1;
};

template <class T>
struct alloc_adapter {
  auto operator()(auto self, Run *r, int id, Tracked arg) const -> lf::task<uint64_t> {
    Outer outer{r, id};
    uint32_t s = r->p.nodes[(size_t)id].seed;
    uint64_t sd = mix(r->tag * 3 + (uint64_t)id);
    static constexpr size_t sizes[] = {0, 1, 3, 17, 100, 700, 2500, 12000};
    size_t n = sizes[s % 8], n2 = sizes[(s >> 8) % 7];
    uint64_t v = 0;
    auto a = co_await lf::co_new<T>(n);
    auto &[sa] = a;
    VH_CHECK(sa.size() == n, "co_new-size", "co_new gave %zu elements instead of %zu", sa.size(), n);
    VH_CHECK(n == 0 || (uintptr_t)sa.data() % alignof(T) == 0, "co_new-align", "misaligned co_new storage");
    void const *where = sa.data();
    for (size_t i = 0; i < n; ++i) {
      put(sa[i], sd + i);
    }
    if ((r->p.feat & F_SWITCH) && s % 3 == 0) {
      MAYBE_SWITCH(r, id, s);
    }
    if (s % 7 == 0) {
      bool threw = false;
      try {
        auto big = co_await lf::co_new<T>(SIZE_MAX / sizeof(T) + (sizeof(T) > 1 ? 2 : 0) - (s % 3));
        auto &[sb] = big;
        (void)sb;
      } catch (std::bad_alloc const &) {
        threw = true;
      }
      VH_CHECK(threw, "co_new-unsatisfiable", "an impossible co_new request did not throw");
    }
    if ((s >> 3) % 3 == 0) {
      static constexpr size_t many[] = {1, 3, 50, 300, 2000, 9000};
      size_t n3 = many[(s >> 6) % 6];
      Picky::built = Picky::ruined = 0;
      Picky::fail_at = (int64_t)((s >> 9) % n3);
      bool threw = false;
      try {
        auto c = co_await lf::co_new<Picky>(n3);
        auto &[sc] = c;
        (void)sc;
      } catch (Exc const &e) {
        threw = e.token == 0xbad;
      }
      VH_CHECK(threw, "co_new-constructor", "the exception of a constructor did not come out of co_new");
      VH_CHECK(Picky::built == Picky::fail_at && Picky::ruined == Picky::built, "co_new-constructor",
               "%lld of %lld constructed elements were destroyed", (long long)Picky::ruined, (long long)Picky::built);
      Picky::fail_at = -1;
      count("throwing_constructors");
    }
    if ((s >> 5) % 5 == 0) {
      uint64_t z = 0;
      bool threw = false;
      co_await lf::call(&z, failing_alloc)(sd);
      try {
        co_await lf::join;
      } catch (Exc const &e) {
        threw = e.token == 0xbad;
      }
      Picky::fail_at = -1;
      VH_CHECK(threw && z == 0, "co_new-constructor", "the exception of a constructor did not come out of the task");
      count("tasks_ended_by_co_new");
    }
    {
      auto b = co_await lf::co_new<uint8_t>(n2);
      auto &[sb] = b;
      VH_CHECK(sb.size() == n2, "co_new-size", "co_new gave %zu elements instead of %zu", sb.size(), n2);
      fill(sb.data(), n2, sd ^ 99);
      if (s % 2) {
        co_await lf::fork(&v, core)(r, id, false);
      } else {
        co_await lf::call(&v, core)(r, id, false);
      }
      co_await lf::join;
      verify(sb.data(), n2, sd ^ 99, "co_new storage", id);
    }
    VH_CHECK(where == sa.data(), "co_new-moved", "co_new storage moved");
    for (size_t i = 0; i < n; ++i) {
      VH_CHECK(got(sa[i]) == (sd + i) % modulus(), "co_new-overwritten", "co_new element %zu of task %d was overwritten",
               i, id);
    }
    VH_CHECK(arg.get() == sd, "argument", "argument of task %d changed", id);
    r->slot[(size_t)id].u = v;
    co_return v;
  }
  static uint64_t modulus() { return sizeof(T) == 1 ? 251 : 1ull << 40; }
  static void put(T &t, uint64_t x) {
    if constexpr (std::same_as<T, Tracked>) {
      t.val = x % modulus();
    } else {
      t = (T)(x % modulus());
    }
  }
  static uint64_t got(T const &t) {
    if constexpr (std::same_as<T, Tracked>) {
      return t.get();
    } else {
      return (uint64_t)t;
    }
  }
};

inline constexpr adapter<64, Tracked> a_tracked{};
inline constexpr adapter<512, void> a_void{};
inline constexpr adapter<3000, uint64_t> a_wide{};
inline constexpr adapter<9000, Tracked> a_huge{};
inline constexpr adapter<8, uint64_t &> a_ref{};
inline constexpr adapter<16, uint64_t> a_u64{};
inline constexpr alloc_adapter<Tracked> a_alloc1{};
inline constexpr alloc_adapter<uint8_t> a_alloc2{};

// Facts about one scope, checked outside the coroutine (keeps the coroutine body small).
struct Scope {
  int first = 0;          // index of the first op of the scope
  bool real = false;      // an eager modifier already delivered the real exception
  bool substitute = false;
  uint64_t real_token = 0;
  bool stashed_self = false;
  int before_throwers = 0; // children dispatched earlier in this scope (or the stash) that throw
};

__attribute__((noinline)) static void arm(Run *r, int child) {
  Mon &m = r->mon[(size_t)child];
  VH_CHECK(m.armed == 0, "continuation-run-twice", "task %d is dispatched twice", child);
  m.armed = 1;
  m.secret = mix(r->tag + (uint64_t)child);
}

__attribute__((noinline)) static void check_child_done(Run *r, int parent, int child, char const *when) {
  Mon &m = r->mon[(size_t)child];
  VH_CHECK(m.outer_done == 1 && m.outer_alive == 0, "join-before-child",
           "task %d continued past %s although its child %d had not finished", parent, when, child);
  VH_CHECK(m.reply == mix(r->tag ^ (uint64_t)child * 77), "child-write-invisible",
           "task %d does not see what child %d wrote", parent, child);
}

// Does `token` come from a child (not stashed) of this scope, or its own stash?
__attribute__((noinline)) static bool token_in_scope(Run *r, int id, Node const &n, Scope const &s, int upto, uint64_t token) {
  for (int i = s.first; i <= upto; ++i) {
    Op const &o = n.ops[(size_t)i];
    if (o.k == K::stash && token == make_token(r, id, 1000 + i)) {
      return true;
    }
    if ((o.k == K::fork || o.k == K::call) && !o.stashed) {
      Mon &m = r->mon[(size_t)o.child];
      if (r->p.nodes[(size_t)o.child].threw && m.token == token) {
        return true;
      }
    }
  }
  return false;
}

// After a modified dispatch. what: 0 returned, 1 Exc, 2 exception_before_join
__attribute__((noinline)) static void after_modified(Run *r, int id, Scope &s, int pc, int what, uint64_t token,
                                                     int sync) {
  Node const &n = r->p.nodes[(size_t)id];
  Op const &o = n.ops[(size_t)pc];
  bool child_throws = r->p.nodes[(size_t)o.child].threw;
  bool completed = o.k == K::call || sync == 1 || what != 0;
  if (what == 0 && completed) {
    check_child_done(r, id, o.child, o.k == K::call ? "an eager call" : "a synchronously completed fork");
    VH_CHECK(!child_throws, "eager-lost",
             "task %d: child %d threw but the %s that waited for it did not", id, o.child,
             o.k == K::call ? "eager call" : "sync fork");
  }
  if (what != 0) {
    check_child_done(r, id, o.child, "an eager rethrow");
    VH_CHECK(child_throws || s.before_throwers > 0, "spurious-exception",
             "task %d: an eager dispatch threw although nothing in the scope threw", id);
  }
  if (what == 1) {
    // Only token of children that finished: m.token of an unfinished child is not read (it cannot be the source).
    bool known = (child_throws && r->mon[(size_t)o.child].token == token) ||
                 (s.before_throwers > 0 && token_in_scope(r, id, n, s, pc, token));
    VH_CHECK(known, "wrong-exception", "task %d: eager dispatch delivered a foreign exception", id);
    if (o.how == h_modout) {
      VH_CHECK(child_throws && r->mon[(size_t)o.child].token == token, "wrong-exception",
               "task %d: dispatch outside a scope delivered another exception than its child's", id);
    }
    s.real = true;
    s.real_token = token;
  }
  if (what == 2) {
    VH_CHECK(o.how != h_modout, "substitute-outside", "task %d: substitute exception outside a fork-join scope", id);
    s.substitute = true;
  }
}

// After the join of a scope. Returns the token of the exception the scope delivers (0: none).
__attribute__((noinline)) static uint64_t after_join(Run *r, int id, Scope const &s, int pc, bool join_threw,
                                                     uint64_t token, uint64_t *acc, uint64_t const *loc) {
  Node const &n = r->p.nodes[(size_t)id];
  bool any = s.stashed_self;
  for (int i = s.first; i < pc; ++i) {
    Op const &o = n.ops[(size_t)i];
    if (o.k == K::fork || o.k == K::call) {
      check_child_done(r, id, o.child, "a join");
      any |= r->p.nodes[(size_t)o.child].threw && !o.stashed;
    }
  }
  if (s.real) {
    VH_CHECK(!join_threw, "exception-twice", "task %d: the join threw again after an eager rethrow", id);
    token = s.real_token;
  } else {
    VH_CHECK(!any || join_threw, "exception-lost", "task %d: a child threw but the join did not", id);
    VH_CHECK(any || !join_threw, "spurious-exception", "task %d: the join threw although nothing in the scope threw",
             id);
  }
  if (join_threw) {
    VH_CHECK(token_in_scope(r, id, n, s, pc - 1, token), "wrong-exception",
             "task %d: the join delivered an exception from elsewhere (token %llx)", id, (unsigned long long)token);
  }
  bool thrown = join_threw || s.real;
  if (thrown) {
    *acc = hcombine(*acc, EXCK);
  }
  for (int i = s.first; i < pc; ++i) {
    Op const &o = n.ops[(size_t)i];
    if ((o.k != K::fork && o.k != K::call) || o.how == h_just) {
      continue;
    }
    Slot &sl = r->slot[(size_t)o.child];
    Node const &c = r->p.nodes[(size_t)o.child];
    if (o.stashed) {
      bool he = o.how == h_try ? sl.tu.has_exception() : sl.tv.has_exception();
      VH_CHECK(he == c.threw, c.threw ? "exception-lost" : "spurious-exception",
               "task %d: child %d bound to a try_eventually %s but it %s an exception", id, o.child,
               c.threw ? "threw" : "returned", he ? "holds" : "does not hold");
      if (he) {
        std::exception_ptr e = o.how == h_try ? sl.tu.exception() : sl.tv.exception();
        try {
          std::rethrow_exception(e);
        } catch (Exc const &x) {
          VH_CHECK(x.token == r->mon[(size_t)o.child].token, "wrong-exception", "try_eventually of %d holds a foreign exception",
                   o.child);
        } catch (...) {
          fail("wrong-exception", "try_eventually of %d holds an unknown exception", o.child);
        }
        *acc = hcombine(*acc, TRYK);
        continue;
      }
      if (o.how == h_try) {
        VH_CHECK(sl.tu.has_value(), "value-missing", "try_eventually of %d holds no value", o.child);
      }
    }
    if (c.threw) {
      bool empty = true;
      empty = o.how == h_ev ? sl.eu.empty() : o.how == h_huge ? sl.et.empty() : o.how == h_ref ? sl.er.empty() : true;
      VH_CHECK(empty, "spurious-value", "the eventually of throwing child %d is not empty", o.child);
    }
    if (thrown) {
      continue;
    }
    uint64_t v = 0;
    switch (o.how) {
      case h_core:
        v = (o.arg % 2 && i - s.first < 4) ? loc[i - s.first] : sl.u;
        break;
      case h_tracked:
        v = sl.t.get();
        break;
      case h_huge:
        VH_CHECK(sl.et.has_value(), "value-missing", "eventually of child %d is empty", o.child);
        v = sl.et->get();
        break;
      case h_ref:
        VH_CHECK(sl.er.has_value(), "value-missing", "eventually of child %d is empty", o.child);
        VH_CHECK(&*sl.er == &sl.cell, "wrong-reference", "child %d: reference result refers elsewhere", o.child);
        v = *sl.er;
        break;
      case h_ev:
        VH_CHECK(sl.eu.has_value(), "value-missing", "eventually of child %d is empty", o.child);
        v = *sl.eu;
        break;
      case h_try:
        v = *sl.tu;
        break;
      case h_discard:
        v = 0x0d15;
        break;
      default:
        v = sl.u;
        break;
    }
    if (o.how != h_discard) {
      VH_CHECK(v == c.value, "wrong-value", "task %d: child %d (dispatch kind %d) delivered %llx instead of %llx", id,
               o.child, (int)o.how, (unsigned long long)v, (unsigned long long)c.value);
    }
    *acc = hcombine(*acc, v);
  }
  return thrown ? (join_threw ? token : s.real_token) : 0;
}

struct CoreGuard {
  Run *r;
  int id;
  uint64_t check;
  CoreGuard(Run *run, int node) : r(run), id(node), check(mix((uint64_t)node * 31 ^ run->tag)) {
    Mon &m = r->mon[(size_t)id];
    VH_CHECK(m.core_started == 0, "task-started-twice", "the body of task %d was started twice", id);
    m.core_started = 1;
    m.worker = thread_no();
    progress();
  }
  ~CoreGuard() {
    VH_CHECK(check == mix((uint64_t)id * 31 ^ r->tag), "frame-overwritten", "a local of task %d was overwritten", id);
    Mon &m = r->mon[(size_t)id];
    VH_CHECK(m.core_done == 0, "task-finished-twice", "the body of task %d finished twice", id);
    m.core_done = 1;
  }
};

struct MaybeOuter {
  Outer *o = nullptr;
  alignas(Outer) char buf[sizeof(Outer)];
  MaybeOuter(Run *r, int id, bool on) {
    if (on) {
      o = new (buf) Outer(r, id);
    }
  }
  ~MaybeOuter() {
    if (o) {
      o->~Outer();
    }
  }
};

inline constexpr auto d_sync = lf::dispatch<lf::tag::fork, lf::modifier::sync>;
inline constexpr auto d_sync_out = lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>;
inline constexpr auto d_eager = lf::dispatch<lf::tag::call, lf::modifier::eager_throw>;
inline constexpr auto d_eager_out = lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside>;

#define FORK_SYNC sync = (co_await d_sync(&sl.u, a_u64)(r, c, Tracked{sd})) ? 1 : 0
#define FORK_SYNC_OUT sync = (co_await d_sync_out(&sl.u, a_u64)(r, c, Tracked{sd})) ? 1 : 0
#define CALL_EAGER co_await d_eager(&sl.u, a_u64)(r, c, Tracked{sd})
#define CALL_EAGER_OUT co_await d_eager_out(&sl.u, a_u64)(r, c, Tracked{sd})

#define DISPATCH(D, MOD, MODOUT)                                                                                     \
  switch (o.how) {                                                                                                   \
    case h_core:                                                                                                     \
      co_await D((o.arg % 2 && pc - sc.first < 4) ? &loc[pc - sc.first] : &sl.u, core)(r, c, true);                  \
      break;                                                                                                         \
    case h_tracked:                                                                                                  \
      co_await D(&sl.t, a_tracked)(r, c, Tracked{sd});                                                               \
      break;                                                                                                         \
    case h_void:                                                                                                     \
      co_await D(a_void)(r, c, Tracked{sd});                                                                         \
      break;                                                                                                         \
    case h_wide:                                                                                                     \
      co_await D(&sl.u, a_wide)(r, c, Tracked{sd});                                                                  \
      break;                                                                                                         \
    case h_huge:                                                                                                     \
      co_await D(&sl.et, a_huge)(r, c, Tracked{sd});                                                                 \
      break;                                                                                                         \
    case h_ref:                                                                                                      \
      co_await D(&sl.er, a_ref)(r, c, Tracked{sd});                                                                  \
      break;                                                                                                         \
    case h_ev:                                                                                                       \
      co_await D(&sl.eu, a_u64)(r, c, Tracked{sd});                                                                  \
      break;                                                                                                         \
    case h_try:                                                                                                      \
      co_await D(&sl.tu, a_u64)(r, c, Tracked{sd});                                                                  \
      break;                                                                                                         \
    case h_tryvoid:                                                                                                  \
      co_await D(&sl.tv, a_void)(r, c, Tracked{sd});                                                                 \
      break;                                                                                                         \
    case h_discard:                                                                                                  \
      co_await D(a_u64)(r, c, Tracked{sd});                                                                          \
      break;                                                                                                         \
    case h_alloc1:                                                                                                   \
      co_await D(&sl.u, a_alloc1)(r, c, Tracked{sd});                                                                \
      break;                                                                                                         \
    case h_alloc2:                                                                                                   \
      co_await D(&sl.u, a_alloc2)(r, c, Tracked{sd});                                                                \
      break;                                                                                                         \
    case h_mod:                                                                                                      \
    case h_modout: {                                                                                                 \
      int what = 0, sync = -1;                                                                                       \
      uint64_t tok = 0;                                                                                              \
      try {                                                                                                          \
        if (o.how == h_mod) {                                                                                        \
          MOD;                                                                                                       \
        } else {                                                                                                     \
          MODOUT;                                                                                                    \
        }                                                                                                            \
      } catch (Exc const &e) {                                                                                       \
        what = 1;                                                                                                    \
        tok = e.token;                                                                                               \
        keep = std::current_exception();                                                                             \
      } catch (lf::exception_before_join const &) {                                                                  \
        what = 2;                                                                                                    \
      }                                                                                                              \
      after_modified(r, id, sc, pc, what, tok, sync);                                                                \
      break;                                                                                                         \
    }                                                                                                                \
    default:                                                                                                         \
      break;                                                                                                         \
  }

auto core_fn::operator()(auto self, Run *r, int id, bool is_outer) const -> lf::task<uint64_t> {
  MaybeOuter mo{r, id, is_outer};
  CoreGuard guard{r, id};
  Node const &n = r->p.nodes[(size_t)id];
  uint64_t acc = mix(n.seed);
  uint64_t loc[4] = {~0ull, ~0ull, ~0ull, ~0ull};
  Scope sc;
  std::exception_ptr keep;
  bool canswitch = (r->p.feat & F_SWITCH) != 0;

  for (int pc = 0; pc < (int)n.ops.size(); ++pc) {
    Op const &o = n.ops[(size_t)pc];
    {
      Mon &m = r->mon[(size_t)id];
      VH_CHECK(m.pc == pc, "continuation-run-twice", "task %d executes step %d while step %d is due", id, pc, m.pc);
      m.pc = pc + 1;
    }
    if (o.k == K::work) {
      acc = spin_work(acc ^ o.arg, o.arg % 16);
    } else if (o.k == K::sw) {
      if (canswitch) {
        MAYBE_SWITCH(r, id, o.arg);
      }
    } else if (o.k == K::stash) {
      uint64_t tok = make_token(r, id, 1000 + pc);
      try {
        throw Exc(tok);
      } catch (...) {
        self.stash_exception();
      }
      // Only the first exception of a scope must survive, so this one may be dropped.
      sc.stashed_self = true;
      ++sc.before_throwers;
    } else if (o.k == K::join) {
      bool threw = false;
      uint64_t tok = 0;
      try {
        co_await lf::join;
      } catch (Exc const &e) {
        threw = true;
        tok = e.token;
        keep = std::current_exception();
      }
      uint64_t out = after_join(r, id, sc, pc, threw, tok, &acc, loc);
      sc = Scope{};
      sc.first = pc + 1;
      if (out != 0 && !n.catches) {
        Mon &m = r->mon[(size_t)id];
        m.threw = 1;
        m.token = out;
        std::rethrow_exception(std::exchange(keep, nullptr));
      }
      keep = nullptr;
    } else {
      int c = o.child;
      arm(r, c);
      Slot &sl = r->slot[(size_t)c];
      uint64_t sd = mix(r->tag * 3 + (uint64_t)c);
      if (o.k == K::fork) {
        DISPATCH(lf::fork, FORK_SYNC, FORK_SYNC_OUT)
      } else if (o.how == h_just) {
        int what = 0;
        uint64_t v = 0;
        try {
          v = co_await lf::just(a_u64)(r, c, Tracked{sd});
        } catch (Exc const &e) {
          what = 1;
          VH_CHECK(e.token == r->mon[(size_t)c].token, "wrong-exception", "just() of %d threw a foreign exception", c);
        }
        check_child_done(r, id, c, "just()");
        VH_CHECK((what == 1) == r->p.nodes[(size_t)c].threw, "exception-lost", "just(): child %d threw %d, caller saw %d", c,
                 (int)r->p.nodes[(size_t)c].threw, what);
        VH_CHECK(what == 1 || v == r->p.nodes[(size_t)c].value, "wrong-value", "just() of %d delivered a wrong value", c);
        acc = hcombine(acc, what ? JUSTK : v);
      } else {
        DISPATCH(lf::call, CALL_EAGER, CALL_EAGER_OUT)
        check_child_done(r, id, c, "a call");
        if (!n.ops.empty() && o.how != h_mod && o.how != h_modout && !r->p.nodes[(size_t)c].threw && o.how == h_core) {
          uint64_t v = (o.arg % 2 && pc - sc.first < 4) ? loc[pc - sc.first] : sl.u;
          VH_CHECK(v == r->p.nodes[(size_t)c].value, "wrong-value", "task %d: called child %d delivered a wrong value", id,
                   c);
        }
      }
      if (r->p.nodes[(size_t)c].threw && !o.stashed) {
        ++sc.before_throwers;
      }
    }
  }
  if (n.throws_end) {
    uint64_t tok = make_token(r, id, 1);
    Mon &m = r->mon[(size_t)id];
    m.threw = 1;
    m.token = tok;
    throw Exc(tok);
  }
  co_return acc;
}

inline constexpr auto where_am_i = [](auto self, lf::worker_context *ctx) -> lf::task<uint32_t> {
  co_await lf::resume_on(ctx);
  VH_CHECK(self.context() == ctx, "switch-wrong-worker", "after resume_on the task is not on the target context");
  co_return thread_no();
};

// Submits to one worker.
struct direct {
  lf::worker_context *ctx;
  void schedule(lf::submit_handle h) const { ctx->schedule(h); }
};
inline constexpr auto idle_task = [](auto) -> lf::task<void> {
  co_return;
};

// ------------------------------------------------------------------ executions

struct Summary {
  uint64_t programs = 0, tasks = 0, migrations = 0, exceptions = 0;
};
static std::mutex g_sum_m;
static Summary g_sum;

static void execute(Program const &p, any_pool &pool, uint64_t tag, std::vector<lf::worker_context *> const &ctx,
                    std::vector<uint32_t> const &ctx_thread, Courier *courier, any_pool *other) {
  Run run(p, pool, tag);
  run.other = other;
  run.courier = courier;
  if (p.feat & F_SWITCH) {
    run.ctx = ctx;
    run.ctx_thread = ctx_thread;
  }
  run.mon[0].armed = 1;
  run.mon[0].secret = mix(tag);
  bool threw = false;
  uint64_t tok = 0, v = 0;
  try {
    v = lf::sync_wait(pool, core, &run, 0, true);
  } catch (Exc const &e) {
    threw = true;
    tok = e.token;
  }
  Node const &root = p.nodes[0];
  VH_CHECK(threw == root.threw, threw ? "spurious-exception" : "exception-lost",
           "the root task %s but the future %s", root.threw ? "threw" : "returned", threw ? "threw" : "returned");
  if (threw) {
    VH_CHECK(tok == run.mon[0].token, "wrong-exception", "the future rethrew a foreign exception");
  } else {
    VH_CHECK(v == root.value, "wrong-value", "the program computed %llx, its serial elision %llx",
             (unsigned long long)v, (unsigned long long)root.value);
  }
  uint64_t sig = hcombine(p.nodes.size(), root.value), tasks = 0, mig = 0, exc = 0;
  std::map<uint32_t, unsigned> canon;
  for (size_t i = 0; i < p.nodes.size(); ++i) {
    Node const &n = p.nodes[i];
    Mon &m = run.mon[i];
    // A node runs unless an ancestor stopped early, in which case it was never dispatched.
    VH_CHECK(m.armed == m.outer_done && m.outer_alive == 0 && m.core_started == m.armed && m.core_done == m.armed,
             "task-lost", "task %zu: dispatched %d, started %d, finished %d/%d", i, m.armed, m.core_started, m.core_done,
             m.outer_done);
    if (m.armed) {
      VH_CHECK(m.threw == (int)n.threw, "control-flow", "task %zu threw: %d, in the serial elision: %d", i, m.threw,
               (int)n.threw);
      ++tasks;
      exc += n.threw;
      auto c = canon.emplace(m.worker, (unsigned)canon.size()).first->second;
      sig = hcombine(sig, c);
      if (n.parent >= 0 && run.mon[(size_t)n.parent].worker != m.worker) {
        ++mig;
      }
    }
  }
  distinct(sig);
  evaluation();
  std::lock_guard lk(g_sum_m);
  ++g_sum.programs;
  g_sum.tasks += tasks;
  g_sum.migrations += mig;
  g_sum.exceptions += exc;
  if (g_sum.programs % 97 == 1) {
    sample("program of " + std::to_string(p.nodes.size()) + " tasks (features " + std::to_string(p.feat) + ") on " +
           pool.name + ": " + std::to_string(canon.size()) + " workers took part, " + std::to_string(mig) +
           " tasks ran elsewhere than their parent, " + std::to_string(exc) + " threw, root " +
           (threw ? "threw" : "= " + std::to_string(v)));
  }
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  unsigned feat = (unsigned)arg("feat", 31);
  int pools = (int)arg("pools", 8), progs = (int)arg("progs", 40), budget = (int)arg("budget", 300);
  int maxw = (int)arg("workers", 8);
  int kinds = (int)arg("kinds", 15); // bit per pool kind
  int rate = (int)arg("rate", -1);   // delay rate, -1: varies
  rng g(seed * 1000003 + feat);
  int64_t live0 = 0, census0 = 0;
  double t0 = now_s();
  double limit = (double)arg("limit", 0);

  for (int pi = -1; pi < pools; ++pi) {
    if (limit > 0 && now_s() - t0 > limit) {
      break;
    }
    rng gp(g.u64());
    any_pool::kind_t kind;
    do {
      kind = (any_pool::kind_t)gp.below(4);
    } while (!(kinds >> kind & 1));
    std::size_t w = (std::size_t)gp.range(kind == any_pool::wild ? 1 : 2, maxw);
    static constexpr int rates[] = {0, 4000, 300, 60, 15};
    unsigned rt = rate >= 0 ? (unsigned)rate : (unsigned)rates[gp.below(5)];
    set_delays(gp.u64(), rt, (unsigned)gp.below(3));
    if (pi == -1) { // warm-up: lazily created process-wide state is not part of the balance
      kind = any_pool::busy;
      w = 2;
    }
    if (pi == 0 || pi == -1) {
      live0 = 0;
    }
    int64_t before = heap_live();
    census0 = g_census.live.load();
    int64_t exc0 = g_exc_census.live.load();
    {
      set_case("seed=%llu feat=%u pool#%d kind=%d workers=%zu rate=%u (constructing)", (unsigned long long)seed, feat,
               pi, (int)kind, w, rt);
      watch wd;
      bool pair = (feat & F_SWITCH) && pi != -1 && kind != any_pool::unit && gp.chance(1, 3);
      if (pair) {
        w = std::min<size_t>(w, 4);
      }
      any_pool pool(kind, w, gp.u64(), (unsigned)gp.below(wp_count));
      std::vector<lf::worker_context *> ctx(pool.contexts().begin(), pool.contexts().end());
      std::unique_ptr<any_pool> other;
      if (pair) { // tasks wander between two pools
        other = std::make_unique<any_pool>((any_pool::kind_t)gp.range(1, 3), (size_t)gp.range(1, 3), gp.u64());
        ctx.insert(ctx.end(), other->contexts().begin(), other->contexts().end());
        count("pairs_of_pools");
      }
      std::vector<uint32_t> th;
      std::unique_ptr<Courier> courier;
      if (feat & F_SWITCH) {
        courier = std::make_unique<Courier>();
        for (auto *c : ctx) {
          th.push_back(lf::sync_wait(pool, where_am_i, c));
        }
        for (size_t i = 0; i < th.size(); ++i) {
          for (size_t j = 0; j < i; ++j) {
            VH_CHECK(th[i] != th[j], "switch-wrong-worker", "two contexts live on one thread");
          }
        }
      }
      int n = pi == -1 ? 3 : progs;
      int clients = pi == -1 ? 1 : (int)gp.range(1, 3);
      std::vector<std::thread> ts;
      for (int c = 0; c < clients; ++c) {
        uint64_t cs = gp.u64();
        auto body = [&, cs, c] {
          rng gc(cs);
          for (int k = 0; k < n / clients; ++k) {
            uint64_t ps = gc.u64();
            unsigned f = 0;
            for (unsigned b = 1; b < 32; b *= 2) { // random subset of the enabled features
              if ((feat & b) && gc.chance(3, 4)) {
                f |= b;
              }
            }
            int bud = (int)(gc.chance(1, 4) ? gc.range(1, budget) : gc.range(1, 1 + budget / 6));
            if (c == 0) {
              set_case("seed=%llu feat=%u pool#%d %s rate=%u clients=%d program=%d (seed %llx feat %u budget %d)",
                       (unsigned long long)seed, feat, pi, pool.name.c_str(), rt, clients, k, (unsigned long long)ps, f,
                       bud);
            }
            Program p = generate(ps, f, bud);
            for (int rep = 0; rep < 2; ++rep) {
              execute(p, pool, gc.u64(), ctx, th, courier.get(), other.get());
              progress_now();
            }
          }
        };
        ts.emplace_back(body);
      }
      for (auto &t : ts) {
        t.join();
      }
      if (other) {
        // A worker of one pool may still be leaving the other pool's schedule(): let every worker run one more task.
        for (auto *c : ctx) {
          lf::sync_wait(direct{c}, idle_task);
        }
      }
    }
    int64_t cl = g_census.live.load();
    VH_SOFT(cl == census0, "object-leak", "%lld task arguments/locals/results were %s", (long long)std::llabs(cl - census0),
             cl > census0 ? "never destroyed" : "destroyed too often");
    int64_t el = g_exc_census.live.load() - exc0;
    VH_SOFT(el == 0, "exception-leak", "%lld exception objects are still alive",
             (long long)el);
    if (heap_active && pi >= 0) {
      int64_t after = heap_live();
      VH_SOFT(after == before, "memory-leak", "%lld heap blocks are left after all work is done and the pool is gone",
               (long long)(after - before));
      count("heap_balance_checks");
    }
  }
  (void)live0;
  count("programs", (double)g_sum.programs);
  count("tasks", (double)g_sum.tasks);
  count("tasks_on_other_worker_than_parent", (double)g_sum.migrations);
  count("tasks_that_threw", (double)g_sum.exceptions);
  count("tracked_objects", (double)g_census.made.load());
  count("exception_objects", (double)g_exc_census.made.load());
  finish();
}
