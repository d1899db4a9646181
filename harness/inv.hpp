// C21: the functions whose ways of being invoked are compared.  Shared with the externally compiled definitions.
#ifndef VH_INV_HPP
#define VH_INV_HPP

#include "pools.hpp"

namespace inv {

using namespace vh;

// A value that knows how often it was copied on the way.
struct Val : Tracked {
  unsigned copies = 0;
  Val() = default;
  explicit Val(uint64_t v) : Tracked(v) {}
  Val(Val const &o) : Tracked(o), copies(o.copies + 1) {}
  Val(Val &&o) noexcept : Tracked(std::move(o)), copies(o.copies) {}
  Val &operator=(Val const &o) {
    Tracked::operator=(o);
    copies = o.copies + 1;
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    Tracked::operator=(std::move(o));
    copies = o.copies;
    return *this;
  }
};

using Ptr = std::unique_ptr<uint64_t>;

// The caller's objects.
struct Args {
  Val a, b, c, d;
  Ptr p;
  uint64_t out = 0;
  uint64_t *pout = &out;
  int i = 0;
  bool w = false;
  explicit Args(uint64_t s)
      : a(mix(s)), b(mix(s + 1)), c(mix(s + 2)), d(mix(s + 3)), p(new uint64_t(mix(s + 4))), i((int)(s % 1000)), w(s & 1) {}
};
inline uint64_t val_state(Val const &v) { return v.moved ? 0x4d : v.get(); }
inline uint64_t state(Args const &x) {
  uint64_t h = x.out;
  for (Val const *v : {&x.a, &x.b, &x.c, &x.d}) {
    h = hcombine(h, val_state(*v));
  }
  return hcombine(hcombine(h, x.p ? *x.p : 0x99), (uint64_t)x.i);
}

enum : unsigned { how_call = 1, how_fork = 2, how_hop = 4, how_early = 8, how_late = 16, how_slow = 32 };

// What happens in and around one invocation (plain memory: unordered accesses are races).
struct Ctl {
  unsigned how = 0;
  uint64_t token = 0;
  Args *args = nullptr;
  lf::worker_context *hop = nullptr;
  int runs = 0;
  bool done = false;
  int tag = -1;
  bool async = true;
};

inline constexpr auto filler = [](auto self, unsigned n) -> lf::task<uint64_t> {
  progress();
  if (n == 0) {
    co_return 1;
  }
  uint64_t a = 0, b = 0;
  co_await lf::fork(&a, self)(n - 1);
  co_await lf::call(&b, self)(n - 1);
  co_await lf::join;
  co_return a + b;
};
inline constexpr auto nop = [](auto, Ctl *) -> lf::task<int> {
  progress();
  co_return 3;
};

inline void spin(unsigned n) {
  for (volatile unsigned i = 0; i < n; i = i + 1) {
  }
}

inline void enter(Ctl *c) {
  VH_CHECK(++c->runs == 1, "ran-twice", "an invocation started %d times", c->runs);
}

// Statements shared by every asynchronous body.
#define INV_PROLOGUE(self)                                                                                           \
  ::inv::enter(c);                                                                                                   \
  c->tag = (int)std::remove_cvref_t<decltype(self)>::tagged;                                                         \
  VH_CHECK(std::remove_cvref_t<decltype(self)>::context() != nullptr, "no-context", "no worker context in a task");  \
  if (c->how & ::inv::how_early) {                                                                                   \
    throw ::vh::Exc{c->token};                                                                                       \
  }                                                                                                                  \
  if (c->how & ::inv::how_slow) {                                                                                    \
    ::inv::spin(3000);                                                                                               \
  }                                                                                                                  \
  if (c->how & ::inv::how_call) {                                                                                    \
    int z = 0;                                                                                                       \
    co_await lf::call(&z, ::inv::nop)(c);                                                                            \
    VH_CHECK(z == 3, "wrong-value", "result of a called helper");                                                    \
  }                                                                                                                  \
  if (c->how & ::inv::how_fork) {                                                                                    \
    uint64_t n1 = 0, n2 = 0;                                                                                         \
    co_await lf::fork(&n1, ::inv::filler)(2u);                                                                       \
    co_await lf::fork(&n2, ::inv::filler)(1u);                                                                       \
    co_await lf::join;                                                                                               \
    VH_CHECK(n1 == 4 && n2 == 2, "wrong-value", "results of forked helpers");                                        \
  }                                                                                                                  \
  if ((c->how & ::inv::how_hop) && c->hop) {                                                                         \
    co_await lf::resume_on(c->hop);                                                                                  \
    VH_CHECK(std::remove_cvref_t<decltype(self)>::context() == c->hop, "wrong-worker", "not where it switched to");  \
  }

inline void leave(Ctl *c) {
  if (c->how & how_late) {
    throw Exc{c->token};
  }
  c->done = true;
}

// Where the plain functions throw when the asynchronous ones throw early.
inline void early(Ctl *c) {
  if (c->how & how_early) {
    throw Exc{c->token};
  }
}

// By-value parameter made from the caller's object `from`.
inline void param(Ctl *c, Val const &p, Val const &from, bool moved) {
  VH_CHECK(&p != &from, "argument-identity", "a by-value parameter is the caller's object");
  if (moved) {
    VH_CHECK(p.copies == 0, "argument-copied", "an argument passed as an rvalue was copied %u times", p.copies);
    VH_CHECK(from.moved, "argument-copied", "an argument passed as an rvalue was not moved from");
  } else {
    VH_CHECK(p.copies >= 1 && !from.moved, "argument-moved", "an argument passed as an lvalue was moved from");
  }
}
inline void same(void const *p, void const *q) {
  VH_CHECK(p == q, "argument-identity", "a reference parameter does not refer to the caller's object");
}

// What the functions do once they have their parameters; identical for plain and asynchronous versions.
inline uint64_t do_mixed(Ctl *c, int i, Val &a, Val &b, Val const &cr, Val &d) {
  early(c);
  param(c, a, c->args->a, false);
  param(c, b, c->args->b, true);
  same(&cr, &c->args->c);
  same(&d, &c->args->d);
  uint64_t r = hcombine(hcombine(a.get(), b.get()), hcombine(cr.get(), (uint64_t)i));
  d = Val{d.get() + 1};
  a = Val{1};
  leave(c);
  return r;
}
inline Val do_make(Ctl *c, Val &a, Ptr &p) {
  early(c);
  param(c, a, c->args->a, true);
  VH_CHECK(p && !c->args->p, "argument-moved", "a move-only argument was not moved");
  Val r{a.get() ^ *p};
  leave(c);
  return r;
}
inline Val &do_refer(Ctl *c, Val &x, Val &y, bool w) {
  early(c);
  same(&x, &c->args->a);
  same(&y, &c->args->b);
  leave(c);
  return w ? x : y;
}
inline void do_void(Ctl *c, Val &a, uint64_t *out) {
  early(c);
  param(c, a, c->args->a, false);
  *out = a.get() * 3;
  leave(c);
}
inline Ptr do_pass(Ctl *c, Ptr &p) {
  early(c);
  VH_CHECK(p && !c->args->p, "argument-moved", "a move-only argument was not moved");
  leave(c);
  return std::move(p);
}
inline Val const &do_cref(Ctl *c, Val const &x) {
  early(c);
  same(&x, &c->args->c);
  leave(c);
  return x;
}
inline int do_dflt(Ctl *c, int a, int b) {
  early(c);
  leave(c);
  return a * 31 + b;
}
inline uint64_t do_rval(Ctl *c, Val &&x) {
  early(c);
  same(&x, &c->args->a);
  Val y = std::move(x);
  leave(c);
  return y.get();
}

} // namespace inv

LF_FWD_DECL(uint64_t, ext_mixed, inv::Ctl *c, int i, inv::Val a, inv::Val b, inv::Val const &cr, inv::Val &d);
LF_FWD_DECL(inv::Val, ext_make, inv::Ctl *c, inv::Val a, inv::Ptr p);
LF_FWD_DECL(inv::Val &, ext_refer, inv::Ctl *c, inv::Val &x, inv::Val &y, bool w);
LF_FWD_DECL(inv::Ptr, ext_pass, inv::Ctl *c, inv::Ptr p);
LF_FWD_DECL(inv::Val const &, ext_cref, inv::Ctl *c, inv::Val const &x);
LF_FWD_DECL(int, ext_dflt, inv::Ctl *c, int a, int b);
LF_FWD_DECL(uint64_t, ext_rec, inv::Ctl *c, int n);

#endif
