// The externally compiled definitions of the functions in inv.hpp.
#define VH_SECONDARY 1
#include "inv.hpp"

LF_IMPLEMENT_NAMED(uint64_t, ext_mixed, self, inv::Ctl *c, int i, inv::Val a, inv::Val b, inv::Val const &cr,
                   inv::Val &d) {
  INV_PROLOGUE(self)
  co_return inv::do_mixed(c, i, a, b, cr, d);
}
LF_IMPLEMENT_NAMED(inv::Val, ext_make, self, inv::Ctl *c, inv::Val a, inv::Ptr p) {
  INV_PROLOGUE(self)
  co_return inv::do_make(c, a, p);
}
LF_IMPLEMENT_NAMED(inv::Val &, ext_refer, self, inv::Ctl *c, inv::Val &x, inv::Val &y, bool w) {
  INV_PROLOGUE(self)
  co_return inv::do_refer(c, x, y, w);
}
LF_IMPLEMENT_NAMED(inv::Ptr, ext_pass, self, inv::Ctl *c, inv::Ptr p) {
  INV_PROLOGUE(self)
  co_return inv::do_pass(c, p);
}
LF_IMPLEMENT_NAMED(inv::Val const &, ext_cref, self, inv::Ctl *c, inv::Val const &x) {
  INV_PROLOGUE(self)
  co_return inv::do_cref(c, x);
}
LF_IMPLEMENT_NAMED(int, ext_dflt, self, inv::Ctl *c, int a, int b) {
  INV_PROLOGUE(self)
  co_return inv::do_dflt(c, a, b);
}
// Recursion through the name, as the documentation of LF_IMPLEMENT shows.
LF_IMPLEMENT(uint64_t, ext_rec, inv::Ctl *c, int n) {
  vh::progress();
  if (n < 2) {
    if (c->how & inv::how_early) {
      throw vh::Exc{c->token};
    }
    co_return (uint64_t)n;
  }
  uint64_t a = 0;
  lf::eventually<uint64_t> b;
  co_await lf::fork(&a, ext_rec)(c, n - 1);
  co_await lf::call(&b, ext_rec)(c, n - 2);
  co_await lf::join;
  co_return a + *b;
}
