// Compiled (not run) when a harness fails to compile: does the library work for anybody?
#include <libfork.hpp>

inline constexpr auto fib = [](auto fib, int n) -> lf::task<int> {
  if (n < 2) {
    co_return n;
  }
  int a, b;
  co_await lf::fork(&a, fib)(n - 1);
  co_await lf::call(&b, fib)(n - 2);
  co_await lf::join;
  co_return a + b;
};

int main() {
  lf::lazy_pool pool(2);
  return lf::sync_wait(pool, fib, 5) == 5 ? 0 : 1;
}
