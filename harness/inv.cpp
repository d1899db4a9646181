// C21: every way of invoking an asynchronous function against the plain function it is equivalent to.
#include "inv.hpp"

using namespace inv;

#ifndef VH_PART
  #define VH_PART 0
#endif

// ------------------------------------------------------------------ the cases

// Passed with its value category decided by the case: `g(...)` is either the plain function or a bound async one.
struct Mixed {
  using R = uint64_t;
  static constexpr char const *name = "mixed";
  static constexpr bool forkable = true;
  static uint64_t plain(Ctl *c, int i, Val a, Val b, Val const &cr, Val &d) { return do_mixed(c, i, a, b, cr, d); }
  static constexpr auto fun = [](auto self, Ctl *c, int i, Val a, Val b, Val const &cr, Val &d) -> lf::task<R> {
    INV_PROLOGUE(self)
    co_return do_mixed(c, i, a, b, cr, d);
  };
  static constexpr auto ext = ext_mixed;
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, x.i, x.a, std::move(x.b), std::as_const(x.c), x.d);
  }
  static uint64_t digest(R const &r, Args &) { return r; }
};
struct Make {
  using R = Val;
  static constexpr char const *name = "make";
  static constexpr bool forkable = true;
  static Val plain(Ctl *c, Val a, Ptr p) { return do_make(c, a, p); }
  static constexpr auto fun = [](auto self, Ctl *c, Val a, Ptr p) -> lf::task<R> {
    INV_PROLOGUE(self)
    co_return do_make(c, a, p);
  };
  static constexpr auto ext = ext_make;
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, std::move(x.a), std::move(x.p));
  }
  static uint64_t digest(R const &r, Args &) { return r.get(); }
};
struct Refer {
  using R = Val &;
  static constexpr char const *name = "refer";
  static constexpr bool forkable = true;
  static Val &plain(Ctl *c, Val &x, Val &y, bool w) { return do_refer(c, x, y, w); }
  static constexpr auto fun = [](auto self, Ctl *c, Val &x, Val &y, bool w) -> lf::task<R> {
    INV_PROLOGUE(self)
    co_return do_refer(c, x, y, w);
  };
  static constexpr auto ext = ext_refer;
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, x.a, x.b, x.w);
  }
  static uint64_t digest(R r, Args &x) { return (uint64_t)((char *)&r - (char *)&x); }
};
struct Void {
  using R = void;
  static constexpr char const *name = "void";
  static constexpr bool forkable = true;
  static void plain(Ctl *c, Val a, uint64_t *out) { do_void(c, a, out); }
  static constexpr auto fun = [](auto self, Ctl *c, Val a, uint64_t *out) -> lf::task<R> {
    INV_PROLOGUE(self)
    do_void(c, a, out);
    co_return;
  };
  static constexpr auto ext = fun; // functions returning void cannot be declared with the macros
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, x.a, x.pout);
  }
};
struct Pass {
  using R = Ptr;
  static constexpr char const *name = "pass";
  static constexpr bool forkable = true;
  static Ptr plain(Ctl *c, Ptr p) { return do_pass(c, p); }
  static constexpr auto fun = [](auto self, Ctl *c, Ptr p) -> lf::task<R> {
    INV_PROLOGUE(self)
    co_return do_pass(c, p);
  };
  static constexpr auto ext = ext_pass;
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, std::move(x.p));
  }
  static uint64_t digest(R const &r, Args &) { return r ? *r : 0x77; }
};
struct Cref {
  using R = Val const &;
  static constexpr char const *name = "cref";
  static constexpr bool forkable = true;
  static Val const &plain(Ctl *c, Val const &x) { return do_cref(c, x); }
  static constexpr auto fun = [](auto self, Ctl *c, Val const &x) -> lf::task<R> {
    INV_PROLOGUE(self)
    co_return do_cref(c, x);
  };
  static constexpr auto ext = ext_cref;
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, std::as_const(x.c));
  }
  static uint64_t digest(R r, Args &x) { return (uint64_t)((char const *)&r - (char const *)&x); }
};
// A class with an async call operator, members called through an object, and defaulted arguments.
struct Dflt {
  using R = int;
  static constexpr char const *name = "dflt";
  static constexpr bool forkable = true;
  static constexpr auto plain = [](Ctl *c, int a, int b = 5) -> int {
    return do_dflt(c, a, b);
  };
  struct object {
    auto operator()(auto self, Ctl *c, int a, int b = 5) const -> lf::task<int> {
      INV_PROLOGUE(self)
      co_return do_dflt(c, a, b);
    }
  };
  static constexpr object fun{};
  struct with_default {
    auto operator()(auto self, Ctl *c, int a, int b = 5) const -> lf::task<int> {
      struct restore {
        Ctl *c;
        ~restore() { c->tag = (int)decltype(self)::tagged; }
      } at_end{c};
      int r = 0;
      co_await lf::call(&r, ext_dflt)(c, a, b);
      co_await lf::join;
      co_return r;
    }
  };
  static constexpr with_default ext{};
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, x.i);
  }
  static uint64_t digest(R r, Args &) { return (uint64_t)r; }
};
// A member function: the object is an ordinary argument.
struct Member {
  using R = uint64_t;
  static constexpr char const *name = "member";
  static constexpr bool forkable = true;
  struct holder {
    static constexpr auto get = [](auto self, Ctl *c, auto &&me) -> lf::task<uint64_t> {
      INV_PROLOGUE(self)
      lf::eventually<Val &> r;
      co_await lf::call(&r, me.inner)(me);
      co_await lf::join;
      same(&*r, &me.d);
      uint64_t v = r->get();
      leave(c);
      co_return v;
    };
  };
  struct viewed : Args {
    static constexpr auto inner = [](auto, auto &&me) -> lf::task<Val &> {
      co_return me.d;
    };
  };
  static uint64_t plain(Ctl *c, viewed &x) {
    early(c);
    leave(c);
    return x.d.get();
  }
  static constexpr auto fun = holder::get;
  static constexpr auto ext = holder::get;
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, static_cast<viewed &>(x));
  }
  static uint64_t digest(R r, Args &) { return r; }
};
// An rvalue reference: may not be forked.
struct Rval {
  using R = uint64_t;
  static constexpr char const *name = "rval";
  static constexpr bool forkable = false;
  static uint64_t plain(Ctl *c, Val &&x) { return do_rval(c, std::move(x)); }
  static constexpr auto fun = [](auto self, Ctl *c, Val &&x) -> lf::task<R> {
    INV_PROLOGUE(self)
    co_return do_rval(c, std::move(x));
  };
  static constexpr auto ext = fun;
  template <class G>
  static decltype(auto) apply(G &&g, Ctl *&c, Args &x) {
    return std::forward<G>(g)(c, std::move(x.a));
  }
  static uint64_t digest(R r, Args &) { return r; }
};

// ------------------------------------------------------------------ the ways

enum way : unsigned {
  w_call_ptr,
  w_call_ev,
  w_call_tev,
  w_call_discard,
  w_fork_ptr,
  w_fork_ev,
  w_fork_tev,
  w_fork_discard,
  w_eager,
  w_eager_out,
  w_sync,
  w_sync_out,
  w_sync_tev,
  w_just,
  w_lift_call,
  w_lift_fork,
  w_lift_just,
  w_just_plain,
  w_inside_count,
  w_sync_wait = w_inside_count,
  w_schedule,
  w_detach,
  w_count
};
static char const *way_name[] = {"call(ptr)",  "call(eventually)",    "call(try_eventually)",    "call()",
                                 "fork(ptr)",  "fork(eventually)",    "fork(try_eventually)",    "fork()",
                                 "eager call", "eager call outside",  "sync fork",               "sync fork outside",
                                 "sync fork(try_eventually)", "just", "call(lift)", "fork(lift)", "just(lift)",
                                 "just(plain)", "sync_wait", "schedule", "detach"};

static bool expected_tag(way w, int tag) {
  switch (w) {
    case w_fork_ptr:
    case w_fork_ev:
    case w_fork_tev:
    case w_fork_discard:
    case w_sync:
    case w_sync_out:
    case w_sync_tev:
      return tag == (int)lf::tag::fork;
    case w_sync_wait:
    case w_schedule:
    case w_detach:
      return tag == (int)lf::tag::root;
    case w_lift_call:
    case w_lift_fork:
    case w_lift_just:
    case w_just_plain:
      return true;
    default:
      return tag == (int)lf::tag::call;
  }
}

// What came out of one invocation.
struct Outcome {
  bool threw = false;
  uint64_t token = 0;
  bool has = false;
  uint64_t digest = 0;
};

template <class C>
using value_t = std::remove_reference_t<typename C::R>;
template <class C>
inline constexpr bool is_void = std::is_void_v<typename C::R>;
template <class C>
inline constexpr bool is_ref = std::is_reference_v<typename C::R>;

struct Job {
  Ctl ctl;
  std::unique_ptr<Args> args;
  Outcome out;
};

static void note_exc(Outcome &o, Exc const &e) {
  VH_CHECK(!o.threw, "exception-twice", "an exception was delivered twice");
  o.threw = true;
  o.token = e.token;
}

template <class C, class V>
static void take(Outcome &o, V &&v, Args &x) {
  o.has = true;
  o.digest = C::digest(std::forward<V>(v), x);
}

inline raw_atomic<uint64_t> g_sync_true{0}, g_sync_false{0};

// A task that invokes case C in way W and reports what came out.
template <class C, way W, bool Ext>
inline constexpr auto drive = [](auto, Job *j) -> lf::task<void> {
  constexpr auto f = [] {
    if constexpr (Ext) {
      return C::ext;
    } else {
      return C::fun;
    }
  }();
  Ctl *c = &j->ctl;
  Args &x = *j->args;
  Outcome &o = j->out;
  constexpr bool ptr_ok = !is_void<C> && !is_ref<C>;
  constexpr lf::tag T = (W == w_fork_ptr || W == w_fork_ev || W == w_fork_tev || W == w_fork_discard) ? lf::tag::fork
                                                                                                      : lf::tag::call;
  if constexpr (W == w_call_ptr || W == w_fork_ptr) {
    if constexpr (ptr_ok) {
      typename C::R r{};
      bool ok = true;
      try {
        co_await C::apply(lf::dispatch<T>(&r, f), c, x);
        if (c->how & how_slow) {
          uint64_t z = 0;
          co_await lf::call(&z, filler)(1u);
        }
      } catch (...) {
        fail("exception-early", "an exception before the join");
      }
      try {
        co_await lf::join;
      } catch (Exc const &e) {
        ok = false;
        note_exc(o, e);
      }
      if (ok) {
        take<C>(o, r, x);
      }
    } else {
      o.has = false;
      c->runs = -1; // not applicable
    }
  } else if constexpr (W == w_call_ev || W == w_fork_ev) {
    if constexpr (is_void<C>) {
      c->runs = -1;
    } else {
      lf::eventually<typename C::R> r;
      bool ok = true;
      co_await C::apply(lf::dispatch<T>(&r, f), c, x);
      try {
        co_await lf::join;
      } catch (Exc const &e) {
        ok = false;
        note_exc(o, e);
      }
      VH_CHECK(r.empty() == !ok, "wrong-state", "eventually %s after the join", r.empty() ? "empty" : "filled");
      if (ok) {
        take<C>(o, *r, x);
      }
    }
  } else if constexpr (W == w_call_tev || W == w_fork_tev || W == w_sync_tev) {
    lf::try_eventually<typename C::R> r;
    if constexpr (W == w_sync_tev) {
      bool s = co_await C::apply(lf::dispatch<lf::tag::fork, lf::modifier::sync>(&r, f), c, x);
      if (s) {
        g_sync_true.fetch_add(1);
        VH_CHECK(!r.empty() || (is_void<C> && c->done), "false-synchronous", "reported synchronous completion without a result");
      } else {
        g_sync_false.fetch_add(1);
      }
    } else {
      co_await C::apply(lf::dispatch<T>(&r, f), c, x);
    }
    co_await lf::join;
    VH_CHECK(!r.empty() || is_void<C>, "wrong-state", "nothing in the try_eventually after the join");
    if (r.has_exception()) {
      try {
        std::rethrow_exception(std::move(r).exception());
      } catch (Exc const &e) {
        note_exc(o, e);
      }
    } else {
      if constexpr (!is_void<C>) {
        take<C>(o, *r, x);
      }
    }
  } else if constexpr (W == w_call_discard || W == w_fork_discard) {
    co_await C::apply(lf::dispatch<T>(f), c, x);
    try {
      co_await lf::join;
    } catch (Exc const &e) {
      note_exc(o, e);
    }
  } else if constexpr (W == w_eager || W == w_eager_out) {
    using Mod = std::conditional_t<W == w_eager, lf::modifier::eager_throw, lf::modifier::eager_throw_outside>;
    if constexpr (is_void<C>) {
      try {
        co_await C::apply(lf::dispatch<lf::tag::call, Mod>(f), c, x);
      } catch (Exc const &e) {
        note_exc(o, e);
      }
    } else {
      lf::eventually<typename C::R> r;
      bool ok = true;
      try {
        co_await C::apply(lf::dispatch<lf::tag::call, Mod>(&r, f), c, x);
      } catch (Exc const &e) {
        ok = false;
        note_exc(o, e);
      }
      VH_CHECK(r.empty() == !ok, "wrong-state", "eventually %s after an eager call", r.empty() ? "empty" : "filled");
      if (ok) {
        take<C>(o, *r, x);
      }
    }
    VH_CHECK(o.threw || c->done, "early-continuation", "the parent of a call continued before it was done");
    co_await lf::join;
  } else if constexpr (W == w_sync || W == w_sync_out) {
    using Mod = std::conditional_t<W == w_sync, lf::modifier::sync, lf::modifier::sync_outside>;
    auto report = [&](bool s) {
      if (s) {
        g_sync_true.fetch_add(1);
        VH_CHECK(c->done, "false-synchronous", "reported synchronous completion of an unfinished child");
      } else {
        g_sync_false.fetch_add(1);
      }
    };
    if constexpr (is_void<C>) {
      try {
        report(co_await C::apply(lf::dispatch<lf::tag::fork, Mod>(f), c, x));
      } catch (Exc const &e) {
        note_exc(o, e);
      }
      try {
        co_await lf::join;
      } catch (Exc const &e) {
        note_exc(o, e);
      }
    } else {
      lf::eventually<typename C::R> r;
      try {
        report(co_await C::apply(lf::dispatch<lf::tag::fork, Mod>(&r, f), c, x));
      } catch (Exc const &e) {
        note_exc(o, e);
      }
      try {
        co_await lf::join;
      } catch (Exc const &e) {
        note_exc(o, e);
      }
      VH_CHECK(r.empty() == o.threw, "wrong-state", "eventually %s after a sync fork", r.empty() ? "empty" : "filled");
      if (!o.threw) {
        take<C>(o, *r, x);
      }
    }
  } else if constexpr (W == w_just) {
    try {
      if constexpr (is_void<C>) {
        co_await C::apply(lf::just(f), c, x);
      } else {
        decltype(auto) v = co_await C::apply(lf::just(f), c, x);
        take<C>(o, v, x);
      }
    } catch (Exc const &e) {
      note_exc(o, e);
    }
    co_await lf::join;
  } else if constexpr (W == w_just_plain) {
    c->async = false;
    try {
      if constexpr (is_void<C>) {
        co_await C::apply(lf::just(C::plain), c, x);
      } else if constexpr (is_ref<C>) {
        auto &v = co_await C::apply(lf::just(C::plain), c, x);
        take<C>(o, v, x);
      } else {
        auto v = co_await C::apply(lf::just(C::plain), c, x);
        take<C>(o, v, x);
      }
    } catch (Exc const &e) {
      note_exc(o, e);
    }
  } else {
    // lift: the plain function becomes the first argument.
    auto lifted = [](auto &&bound) {
      return [&bound]<class... A>(A &&...a) -> decltype(auto) {
        static constexpr auto p = C::plain;
        return std::move(bound)(p, std::forward<A>(a)...);
      };
    };
    c->async = false;
    if constexpr (W == w_lift_just) {
      try {
        if constexpr (is_void<C>) {
          co_await C::apply(lifted(lf::just(lf::lift)), c, x);
        } else {
          decltype(auto) v = co_await C::apply(lifted(lf::just(lf::lift)), c, x);
          take<C>(o, v, x);
        }
      } catch (Exc const &e) {
        note_exc(o, e);
      }
    } else {
      lf::try_eventually<typename C::R> r;
      co_await C::apply(lifted(lf::call(&r, lf::lift)), c, x);
      co_await lf::join;
      if (r.has_exception()) {
        try {
          std::rethrow_exception(std::move(r).exception());
        } catch (Exc const &e) {
          note_exc(o, e);
        }
      } else {
        if constexpr (!is_void<C>) {
          take<C>(o, *r, x);
        }
      }
    }
  }
  co_return;
};

// Forking lift only takes lvalues.
inline constexpr auto drive_lift_fork = [](auto, Job *j, uint64_t *got) -> lf::task<void> {
  Ctl *c = &j->ctl;
  Args &x = *j->args;
  c->async = false;
  static constexpr auto plain = [](Ctl *cc, Val &a, Val const &b) -> uint64_t {
    same(&a, &cc->args->a);
    same(&b, &cc->args->c);
    a = Val{a.get() + 1};
    leave(cc);
    return a.get() ^ b.get();
  };
  Val const &cb = x.c;
  uint64_t r = 0;
  co_await lf::fork(&r, lf::lift)(plain, c, x.a, cb);
  try {
    co_await lf::join;
    *got = r;
    j->out.has = true;
  } catch (Exc const &e) {
    note_exc(j->out, e);
  }
  co_return;
};

// ------------------------------------------------------------------ one trial

struct World {
  any_pool pool;
  std::span<lf::worker_context *> ctx;
  World(any_pool::kind_t k, size_t n, uint64_t s) : pool(k, n, s), ctx(pool.contexts()) {}
};

static void arm(Job &j, rng &g, World &w, bool root) {
  j.args = std::make_unique<Args>(g.u64());
  j.ctl = Ctl{};
  j.ctl.args = j.args.get();
  j.ctl.token = g.u64() | 1;
  unsigned h = 0;
  if (g.chance(1, 2)) {
    h |= (unsigned)g.below(4);
  }
  if (g.chance(1, 3)) {
    h |= how_slow;
  }
  if (g.chance(1, 4) && !w.ctx.empty()) {
    h |= how_hop;
    j.ctl.hop = w.ctx[g.below(w.ctx.size())];
  }
  if (g.chance(1, 5)) {
    h |= how_early;
  } else if (g.chance(1, 6)) {
    h |= how_late;
  }
  j.ctl.how = h;
  (void)root;
}

template <class C>
static void judge(Job &j, way w, uint64_t seed_args) {
  // The same call of the plain function on equal arguments.
  Ctl c2 = j.ctl;
  Args x2(seed_args);
  Ctl *pc2 = &c2;
  c2.args = &x2;
  c2.runs = 0;
  c2.done = false;
  Outcome e;
  try {
    if constexpr (is_void<C>) {
      C::apply(C::plain, pc2, x2);
    } else {
      decltype(auto) v = C::apply(C::plain, pc2, x2);
      take<C>(e, v, x2);
    }
  } catch (Exc const &x) {
    e.threw = true;
    e.token = x.token;
  }
  VH_CHECK(j.out.threw == e.threw && j.out.token == e.token, "exception-differs",
           "%s/%s: exception %d (%llx) instead of %d (%llx)", C::name, way_name[w], j.out.threw,
           (unsigned long long)j.out.token, e.threw, (unsigned long long)e.token);
  if (j.out.has) {
    VH_CHECK(j.out.digest == e.digest && e.has, "wrong-value", "%s/%s: another result than the plain function", C::name,
             way_name[w]);
  }
  VH_CHECK(state(*j.args) == state(x2), "side-effects-differ", "%s/%s: the caller's objects differ afterwards", C::name,
           way_name[w]);
  if (j.ctl.async) {
    VH_CHECK(j.ctl.runs == 1, "ran-twice", "%s/%s: ran %d times", C::name, way_name[w], j.ctl.runs);
    VH_CHECK(expected_tag(w, j.ctl.tag), "wrong-tag", "%s/%s: self.tagged is %d", C::name, way_name[w], j.ctl.tag);
  }
  VH_CHECK(j.ctl.done == !e.threw, "not-done", "%s/%s: done=%d", C::name, way_name[w], j.ctl.done);
}

template <class C, way W, bool Ext>
static void inside(World &w, rng &g) {
  if constexpr (!C::forkable &&
                (W == w_fork_ptr || W == w_fork_ev || W == w_fork_tev || W == w_fork_discard || W == w_sync ||
                 W == w_sync_out || W == w_sync_tev || W == w_lift_fork)) {
    return;
  } else if constexpr (Ext && W >= w_lift_call) {
    return;
  } else {
    uint64_t seed;
    Job j;
    arm(j, g, w, false);
    seed = g.u64();
    j.args = std::make_unique<Args>(seed);
    j.ctl.args = j.args.get();
    int64_t live = g_census.live.load();
    uint64_t got = 0;
    set_case("%s: %s of %s%s how=%u", w.pool.name.c_str(), way_name[W], Ext ? "extern " : "", C::name, j.ctl.how);
    {
      watch wd;
      if constexpr (W == w_lift_fork) {
        uint64_t want = (j.args->a.get() + 1) ^ j.args->c.get();
        j.ctl.how &= how_late;
        lf::sync_wait(w.pool, drive_lift_fork, &j, &got);
        VH_CHECK(j.out.threw == ((j.ctl.how & how_late) != 0), "exception-differs", "fork(lift): threw=%d", j.out.threw);
        VH_CHECK(j.out.threw || got == want, "wrong-value", "fork(lift): wrong result");
      } else {
        lf::sync_wait(w.pool, drive<C, W, Ext>, &j);
      }
    }
    if (j.ctl.runs == -1) {
      return;
    }
    if constexpr (W != w_lift_fork) {
      judge<C>(j, W, seed);
    }
    VH_CHECK(g_census.live.load() == live, "object-leak", "%s/%s: %lld objects are left", C::name, way_name[W],
             (long long)(g_census.live.load() - live));
    if (g.chance(1, 200)) {
      sample(std::string(way_name[W]) + " of " + C::name + (j.out.threw ? " threw" : " returned"));
    }
    count(j.out.threw ? "threw" : "returned");
    count(Ext ? "extern_invocations" : "invocations");
    evaluation();
    distinct(hcombine(hcombine((uint64_t)W * 2 + Ext, std::hash<std::string>{}(C::name)),
                      hcombine(j.ctl.how, (uint64_t)w.pool.kind)));
  }
}

// Root ways.
template <class C, bool Ext>
static void outside(World &w, rng &g) {
  constexpr auto f = [] {
    if constexpr (Ext) {
      return C::ext;
    } else {
      return C::fun;
    }
  }();
  way W = (way)(w_sync_wait + g.below(3));
  Job j;
  arm(j, g, w, true);
  uint64_t seed = g.u64();
  j.args = std::make_unique<Args>(seed);
  j.ctl.args = j.args.get();
  set_case("%s: %s of %s%s how=%u", w.pool.name.c_str(), way_name[W], Ext ? "extern " : "", C::name, j.ctl.how);
  int64_t live = g_census.live.load();
  Ctl *c = &j.ctl;
  Args &x = *j.args;
  {
    watch wd;
    auto take_from = [&](auto &&get) {
      try {
        if constexpr (is_void<C>) {
          get();
        } else {
          decltype(auto) v = get();
          take<C>(j.out, v, x);
        }
      } catch (Exc const &e) {
        note_exc(j.out, e);
      }
    };
    auto start = [&]<class... A>(A &&...a) {
      return lf::schedule(w.pool, f, std::forward<A>(a)...);
    };
    if (W == w_sync_wait) {
      take_from([&]() -> decltype(auto) {
        return C::apply(
            [&]<class... A>(A &&...a) -> decltype(auto) {
              return lf::sync_wait(w.pool, f, std::forward<A>(a)...);
            },
            c, x);
      });
    } else {
      auto fut = C::apply(start, c, x);
      if (W == w_detach) {
        // Detached only after it is known to be complete, to be able to judge what it did.
        fut.wait();
        take_from([&]() -> decltype(auto) {
          return fut.get();
        });
        fut.detach();
      } else {
        take_from([&]() -> decltype(auto) {
          return fut.get();
        });
      }
    }
  }
  judge<C>(j, W, seed);
  // The parameters of a root task may go a little after its result is available.
  for (int i = 0; g_census.live.load() != live; ++i) {
    VH_CHECK(i < 20000, "object-leak", "%s/%s: %lld objects are left", C::name, way_name[W],
             (long long)(g_census.live.load() - live));
    sched_yield();
    if (i > 100) {
      timespec ts{0, 200'000};
      nanosleep(&ts, nullptr);
    }
  }
  count(j.out.threw ? "threw" : "returned");
  count("root_invocations");
  evaluation();
  distinct(hcombine(hcombine((uint64_t)W * 2 + Ext, std::hash<std::string>{}(C::name)),
                    hcombine(j.ctl.how, (uint64_t)w.pool.kind)));
}

using trial = void (*)(World &, rng &);

template <class C, bool Ext, size_t... I>
static void add_ways(std::vector<trial> &v, std::index_sequence<I...>) {
  (v.push_back(&inside<C, (way)I, Ext>), ...);
  for (int k = 0; k < 4; ++k) {
    v.push_back(&outside<C, Ext>);
  }
}
template <class... C>
static std::vector<trial> table() {
  std::vector<trial> v;
  (add_ways<C, false>(v, std::make_index_sequence<w_inside_count>{}), ...);
  (add_ways<C, true>(v, std::make_index_sequence<w_inside_count>{}), ...);
  return v;
}

// Recursion: through the first argument, through a name, through an external definition.
inline constexpr auto rec = [](auto self, Ctl *c, int n) -> lf::task<uint64_t> {
  progress();
  if (n < 2) {
    if (c->how & how_early) {
      throw Exc{c->token};
    }
    co_return (uint64_t)n;
  }
  uint64_t a = 0;
  lf::eventually<uint64_t> b;
  co_await lf::fork(&a, self)(c, n - 1);
  co_await lf::call(&b, self)(c, n - 2);
  co_await lf::join;
  co_return a + *b;
};
static void recursion(World &w, rng &g) {
  Ctl c;
  c.token = g.u64();
  c.how = g.chance(1, 4) ? how_early : 0;
  int n = (int)g.below(11);
  uint64_t a = 0, b = 1;
  for (int i = 0; i < n; ++i) {
    uint64_t t = a + b;
    a = b;
    b = t;
  }
  set_case("%s: recursion %d how=%u", w.pool.name.c_str(), n, c.how);
  bool threw = false;
  uint64_t r = 0;
  {
    watch wd;
    try {
      r = g.chance(1, 2) ? lf::sync_wait(w.pool, rec, &c, n) : lf::sync_wait(w.pool, ext_rec, &c, n);
    } catch (Exc const &e) {
      threw = true;
      VH_CHECK(e.token == c.token, "exception-differs", "token");
    }
  }
  VH_CHECK(threw == (c.how != 0), "exception-differs", "recursion: threw=%d", threw);
  VH_CHECK(threw || r == a, "wrong-value", "recursion: %llu instead of %llu", (unsigned long long)r, (unsigned long long)a);
  count("recursions");
  evaluation();
}

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  rng g(seed);
  int pools = (int)arg("pools", 10), rounds = (int)arg("rounds", 400);
#if VH_PART == 0
  std::vector<trial> t = table<Mixed, Make, Refer>();
#elif VH_PART == 1
  std::vector<trial> t = table<Void, Pass, Cref>();
#else
  std::vector<trial> t = table<Dflt, Member, Rval>();
#endif
  for (int k = 0; k < 10; ++k) {
    t.push_back(&recursion);
  }
  static unsigned const rates[] = {0, 0, 400, 60};
  for (int i = 0; i < pools; ++i) {
    unsigned rate = rates[g.below(4)];
    set_delays(g.u64(), rate, (unsigned)g.below(3));
    {
      World w((any_pool::kind_t)g.below(4), 1 + g.below(6), g.u64());
      int n = rate && rate < 100 ? rounds / 3 : rounds;
      for (int k = 0; k < n; ++k) {
        t[g.below(t.size())](w, g);
      }
    }
    for (int s = 0; g_exc_census.live.load() != 0; ++s) {
      VH_CHECK(s < 2000, "exception-leak", "%lld exception objects are left", (long long)g_exc_census.live.load());
      timespec ts{0, 1'000'000};
      nanosleep(&ts, nullptr);
    }
  }
  count("reported_synchronous", (double)g_sync_true.load());
  count("reported_asynchronous", (double)g_sync_false.load());
  finish();
}
