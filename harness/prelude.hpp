// Force-included before every harness translation unit (see DESIGN.md).
//
//  * pre-includes the standard library (and hwloc), so that the redirections below only affect libfork and the
//    harness, never the standard library's own headers;
//  * redirects std::atomic & co to wrappers that inject seeded delays and, under ThreadSanitizer, model C++ fences;
//  * supplies LF_LOG (libfork's public logging macro) as an event stream.
#ifndef VH_PRELUDE_HPP
#define VH_PRELUDE_HPP

#include <bits/stdc++.h>

#include <cassert>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef LF_USE_HWLOC
  #include <hwloc.h>
#endif

#if defined(__has_feature)
  #if __has_feature(thread_sanitizer)
    #define VH_TSAN 1
  #endif
  #if __has_feature(address_sanitizer)
    #define VH_ASAN 1
  #endif
#endif
#if defined(__SANITIZE_THREAD__) && !defined(VH_TSAN)
  #define VH_TSAN 1
#endif
#if defined(__SANITIZE_ADDRESS__) && !defined(VH_ASAN)
  #define VH_ASAN 1
#endif

#ifdef VH_ASAN
  #include <sanitizer/asan_interface.h>
#endif
#ifdef VH_TSAN
  #include <sanitizer/tsan_interface.h>
#endif

namespace vh {

template <class T>
using raw_atomic = std::atomic<T>; // Not redirected.

// ---------------------------------------------------------------- seeded delay injection

// 0: off.  n: roughly one in n perturbation points is delayed.
inline raw_atomic<uint32_t> g_delay_rate{0};
inline raw_atomic<uint32_t> g_delay_kind{0}; // 0 mixed, 1 only yields, 2 favour long sleeps
inline raw_atomic<uint64_t> g_delay_seed{1};
inline raw_atomic<uint64_t> g_delay_epoch{0};
inline raw_atomic<uint64_t> g_delays{0};
inline raw_atomic<uint32_t> g_thread_no{0};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct tls_perturb {
  uint64_t state = 0;
  uint64_t epoch = 0;
  uint32_t no = 0;
  bool busy = false;
};
inline thread_local tls_perturb t_perturb;

__attribute__((noinline)) inline void delay_slow(uint64_t r, uint32_t kind) {
  g_delays.fetch_add(1, std::memory_order_relaxed);
  uint32_t k = r & 15;
  r >>= 8;
  if (kind == 1) {
    sched_yield();
    return;
  }
  if (kind == 2 && k < 6) {
    k = 15;
  }
  if (k < 7) {
    sched_yield();
  } else if (k < 13) {
    unsigned n = 20 + (r % 1500);
    for (volatile unsigned i = 0; i < n; i = i + 1) {
    }
  } else {
    timespec ts{0, (long)(1000 + (r % (kind == 2 ? 150000 : 40000)))};
    int saved = errno;
    nanosleep(&ts, nullptr);
    errno = saved;
  }
}

// noinline: must not cache a thread local address across a coroutine suspension.
__attribute__((noinline)) inline void perturb() noexcept {
  uint32_t rate = g_delay_rate.load(std::memory_order_relaxed);
  if (rate == 0) {
    return;
  }
  auto &t = t_perturb;
  if (t.busy) {
    return;
  }
  uint64_t ep = g_delay_epoch.load(std::memory_order_relaxed);
  if (t.state == 0 || t.epoch != ep) {
    if (t.no == 0) {
      t.no = 1 + g_thread_no.fetch_add(1, std::memory_order_relaxed);
    }
    t.epoch = ep;
    t.state = mix(g_delay_seed.load(std::memory_order_relaxed) ^ mix(t.no) ^ mix(ep + 77)) | 1;
  }
  t.state ^= t.state << 13;
  t.state ^= t.state >> 7;
  t.state ^= t.state << 17;
  uint64_t r = t.state * 0x2545F4914F6CDD1Dull;
  if ((r >> 40) % rate == 0) {
    t.busy = true;
    delay_slow(r, g_delay_kind.load(std::memory_order_relaxed));
    t.busy = false;
  }
}

inline void set_delays(uint64_t seed, uint32_t rate, uint32_t kind = 0) {
  g_delay_seed.store(seed | 1, std::memory_order_relaxed);
  g_delay_kind.store(kind, std::memory_order_relaxed);
  g_delay_epoch.fetch_add(1, std::memory_order_relaxed);
  g_delay_rate.store(rate, std::memory_order_relaxed);
}

// ---------------------------------------------------------------- fence model for ThreadSanitizer

#ifdef VH_TSAN

struct tls_fence {
  void *proxy = nullptr;   // a TSan fiber whose clock is this thread's clock at its last release fence
  char rel = 0;            // sync object for the hand-over
  const void *recent[16];  // addresses read by weaker-than-acquire loads
  unsigned n = 0;
  ~tls_fence() {
    if (proxy) {
      __tsan_destroy_fiber(proxy);
      proxy = nullptr;
    }
  }
};
inline thread_local tls_fence t_fence;

__attribute__((noinline)) inline void fence_model(std::memory_order mo) noexcept {
  auto &f = t_fence;
  if (mo != std::memory_order_release && mo != std::memory_order_relaxed) { // has acquire semantics
    for (unsigned i = 0; i < std::min(f.n, 16u); ++i) {
      __tsan_acquire(const_cast<void *>(f.recent[i]));
    }
    f.n = 0;
  }
  if (mo == std::memory_order_release || mo == std::memory_order_acq_rel || mo == std::memory_order_seq_cst) {
    if (!f.proxy) {
      f.proxy = __tsan_create_fiber(0);
    }
    __tsan_release(&f.rel);
    void *me = __tsan_get_current_fiber();
    __tsan_switch_to_fiber(f.proxy, __tsan_switch_to_fiber_no_sync);
    __tsan_acquire(&f.rel);
    __tsan_switch_to_fiber(me, __tsan_switch_to_fiber_no_sync);
  }
}

__attribute__((noinline)) inline void weak_store(const volatile void *p) noexcept {
  auto &f = t_fence;
  if (f.proxy) {
    void *me = __tsan_get_current_fiber();
    __tsan_switch_to_fiber(f.proxy, __tsan_switch_to_fiber_no_sync);
    __tsan_release(const_cast<void *>(p));
    __tsan_switch_to_fiber(me, __tsan_switch_to_fiber_no_sync);
  }
}

__attribute__((noinline)) inline void weak_load(const volatile void *p) noexcept {
  auto &f = t_fence;
  f.recent[f.n % 16] = const_cast<const void *>(p);
  ++f.n;
}

inline void before_store(const volatile void *p, std::memory_order mo) noexcept {
  if (mo == std::memory_order_relaxed || mo == std::memory_order_acquire || mo == std::memory_order_consume) {
    weak_store(p);
  }
}
inline void after_load(const volatile void *p, std::memory_order mo) noexcept {
  if (mo == std::memory_order_relaxed || mo == std::memory_order_release) {
    weak_load(p);
  }
}
#else
inline void fence_model(std::memory_order) noexcept {}
inline void before_store(const volatile void *, std::memory_order) noexcept {}
inline void after_load(const volatile void *, std::memory_order) noexcept {}
#endif

// Event stream (defined below / in common.hpp).
enum ev : unsigned {
  ev_other,
  ev_parent_stolen,
  ev_last_child,
  ev_not_last,
  ev_release_parent_stack,
  ev_join_win,
  ev_join_lose,
  ev_join_nosteal,
  ev_join_ready,
  ev_join_notready,
  ev_fork,
  ev_call,
  ev_segment,
  ev_alloc,
  ev_dealloc,
  ev_sleep,
  ev_resume_stolen,
  ev_resume_submit,
  ev_release_stack,
  ev_count
};

inline constexpr const char *ev_name[ev_count] = {
    "other",       "parent_was_stolen", "last_child_resumes_parent", "not_last_to_join", "released_parent_stack",
    "join_won",    "join_lost",         "join_no_steal",             "join_ready",       "join_not_ready",
    "fork",        "call",              "stack_segment",             "frame_alloc",      "frame_dealloc",
    "worker_slept", "resumed_stolen",   "resumed_submission",        "stack_released"};

consteval unsigned classify(std::string_view s) {
  if (s == "Task's parent was stolen") return ev_parent_stolen;
  if (s == "Task is last child to join, resumes parent") return ev_last_child;
  if (s == "Task is not last to join") return ev_not_last;
  if (s == "Thread releases control of parent's stack") return ev_release_parent_stack;
  if (s == "Wins join race") return ev_join_win;
  if (s == "Looses join race") return ev_join_lose;
  if (s == "Sync ready (no steals)") return ev_join_nosteal;
  if (s == "Sync is ready") return ev_join_ready;
  if (s == "Sync not ready") return ev_join_notready;
  if (s == "Forking, push parent to context") return ev_fork;
  if (s == "Calling") return ev_call;
  if (s == "allocating a new stacklet") return ev_segment;
  if (s == "Allocating {} bytes {}-{}") return ev_alloc;
  if (s == "Deallocating {}") return ev_dealloc;
  if (s == "Goes to sleep") return ev_sleep;
  if (s == "Call to resume on stolen task") return ev_resume_stolen;
  if (s == "Call to resume on submitted task") return ev_resume_submit;
  if (s == "Releasing stack") return ev_release_stack;
  return ev_other;
}

inline raw_atomic<uint64_t> g_ev[ev_count] = {};

struct tls_events {
  uint64_t n[ev_count] = {};
  uint64_t pending = 0;
  void flush() {
    for (unsigned i = 0; i < ev_count; ++i) {
      if (n[i]) {
        g_ev[i].fetch_add(n[i], std::memory_order_relaxed);
        n[i] = 0;
      }
    }
    pending = 0;
  }
  ~tls_events() { flush(); }
};
inline thread_local tls_events t_events;

__attribute__((noinline)) inline void count_event(unsigned k) noexcept {
  auto &t = t_events;
  ++t.n[k];
  if (++t.pending >= 256) {
    t.flush();
  }
}

template <unsigned K, class... A>
inline void log_event([[maybe_unused]] A const &...a) noexcept {
  count_event(K);
  if constexpr (K != ev_alloc && K != ev_dealloc) {
    perturb();
  }
}

} // namespace vh

#ifndef VH_NO_ATOMIC_HOOKS

namespace std {

inline void vh_atomic_thread_fence(memory_order mo) noexcept {
  ::vh::perturb();
  atomic_thread_fence(mo);
  ::vh::fence_model(mo);
  ::vh::perturb();
}

  #define VH_ATOMIC_BODY(SELF)                                                                                       \
    void store(T v, memory_order mo = memory_order_seq_cst) SELF noexcept {                                          \
      ::vh::perturb();                                                                                               \
      ::vh::before_store(vh_addr(), mo);                                                                             \
      vh_base().store(v, mo);                                                                                        \
    }                                                                                                                \
    T load(memory_order mo = memory_order_seq_cst) const noexcept {                                                  \
      ::vh::perturb();                                                                                               \
      T r = vh_base().load(mo);                                                                                      \
      ::vh::after_load(vh_addr(), mo);                                                                               \
      return r;                                                                                                      \
    }                                                                                                                \
    operator T() const noexcept { return load(); }                                                                   \
    T exchange(T v, memory_order mo = memory_order_seq_cst) SELF noexcept {                                          \
      ::vh::perturb();                                                                                               \
      ::vh::before_store(vh_addr(), mo);                                                                             \
      T r = vh_base().exchange(v, mo);                                                                               \
      ::vh::after_load(vh_addr(), mo);                                                                               \
      ::vh::perturb();                                                                                               \
      return r;                                                                                                      \
    }                                                                                                                \
    bool compare_exchange_weak(T &e, T v, memory_order s, memory_order f) SELF noexcept {                            \
      ::vh::perturb();                                                                                               \
      ::vh::before_store(vh_addr(), s);                                                                              \
      bool r = vh_base().compare_exchange_weak(e, v, s, f);                                                          \
      ::vh::after_load(vh_addr(), r ? s : f);                                                                        \
      ::vh::perturb();                                                                                               \
      return r;                                                                                                      \
    }                                                                                                                \
    bool compare_exchange_strong(T &e, T v, memory_order s, memory_order f) SELF noexcept {                          \
      ::vh::perturb();                                                                                               \
      ::vh::before_store(vh_addr(), s);                                                                              \
      bool r = vh_base().compare_exchange_strong(e, v, s, f);                                                        \
      ::vh::after_load(vh_addr(), r ? s : f);                                                                        \
      ::vh::perturb();                                                                                               \
      return r;                                                                                                      \
    }                                                                                                                \
    static constexpr memory_order vh_fail(memory_order m) noexcept {                                                 \
      return m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m; \
    }                                                                                                                \
    bool compare_exchange_weak(T &e, T v, memory_order s = memory_order_seq_cst) SELF noexcept {                     \
      return compare_exchange_weak(e, v, s, vh_fail(s));                                                             \
    }                                                                                                                \
    bool compare_exchange_strong(T &e, T v, memory_order s = memory_order_seq_cst) SELF noexcept {                   \
      return compare_exchange_strong(e, v, s, vh_fail(s));                                                           \
    }                                                                                                                \
    template <class D>                                                                                               \
      requires requires (B &b, D d) { b.fetch_add(d, memory_order_relaxed); }                                        \
    T fetch_add(D d, memory_order mo = memory_order_seq_cst) SELF noexcept {                                         \
      ::vh::perturb();                                                                                               \
      ::vh::before_store(vh_addr(), mo);                                                                             \
      T r = vh_base().fetch_add(d, mo);                                                                              \
      ::vh::after_load(vh_addr(), mo);                                                                               \
      ::vh::perturb();                                                                                               \
      return r;                                                                                                      \
    }                                                                                                                \
    template <class D>                                                                                               \
      requires requires (B &b, D d) { b.fetch_sub(d, memory_order_relaxed); }                                        \
    T fetch_sub(D d, memory_order mo = memory_order_seq_cst) SELF noexcept {                                         \
      ::vh::perturb();                                                                                               \
      ::vh::before_store(vh_addr(), mo);                                                                             \
      T r = vh_base().fetch_sub(d, mo);                                                                              \
      ::vh::after_load(vh_addr(), mo);                                                                               \
      ::vh::perturb();                                                                                               \
      return r;                                                                                                      \
    }

template <class T>
struct vh_atomic : atomic<T> {
  using B = atomic<T>;
  using B::B;
  constexpr vh_atomic() noexcept(is_nothrow_default_constructible_v<T>) = default;
  vh_atomic(vh_atomic const &) = delete;
  vh_atomic &operator=(vh_atomic const &) = delete;
  B &vh_base() noexcept { return *this; }
  B const &vh_base() const noexcept { return *this; }
  const volatile void *vh_addr() const noexcept { return this; }
  VH_ATOMIC_BODY()
  T operator=(T v) noexcept {
    store(v);
    return v;
  }
  T operator++() noexcept
    requires requires (B &b) { ++b; }
  {
    return fetch_add(1) + 1;
  }
  T operator--() noexcept
    requires requires (B &b) { --b; }
  {
    return fetch_sub(1) - 1;
  }
  T operator++(int) noexcept
    requires requires (B &b) { b++; }
  {
    return fetch_add(1);
  }
  T operator--(int) noexcept
    requires requires (B &b) { b--; }
  {
    return fetch_sub(1);
  }
  void wait(T old, memory_order mo = memory_order_seq_cst) const noexcept {
    ::vh::perturb();
    B::wait(old, mo);
  }
  void notify_one() noexcept {
    ::vh::perturb();
    B::notify_one();
  }
  void notify_all() noexcept {
    ::vh::perturb();
    B::notify_all();
  }
};

template <class T>
vh_atomic(T) -> vh_atomic<T>;

template <class T>
struct vh_atomic_ref : atomic_ref<T> {
  using B = atomic_ref<T>;
  explicit vh_atomic_ref(T &t) : B(t), vh_p(&t) {}
  vh_atomic_ref(vh_atomic_ref const &) = default;
  B const &vh_base() const noexcept { return *this; }
  const volatile void *vh_addr() const noexcept { return vh_p; }
  VH_ATOMIC_BODY(const)
  T operator=(T v) const noexcept {
    store(v);
    return v;
  }

 private:
  T *vh_p;
};

template <class T>
vh_atomic_ref(T &) -> vh_atomic_ref<T>;

} // namespace std

  #define atomic vh_atomic
  #define atomic_ref vh_atomic_ref
  #define atomic_thread_fence vh_atomic_thread_fence
namespace std {
using vh_atomic_bool = vh_atomic<bool>;
using vh_atomic_int = vh_atomic<int>;
using vh_atomic_uint = vh_atomic<unsigned>;
using vh_atomic_long = vh_atomic<long>;
using vh_atomic_ulong = vh_atomic<unsigned long>;
using vh_atomic_size_t = vh_atomic<size_t>;
using vh_atomic_ptrdiff_t = vh_atomic<ptrdiff_t>;
using vh_atomic_int8_t = vh_atomic<int8_t>;
using vh_atomic_uint8_t = vh_atomic<uint8_t>;
using vh_atomic_int16_t = vh_atomic<int16_t>;
using vh_atomic_uint16_t = vh_atomic<uint16_t>;
using vh_atomic_int32_t = vh_atomic<int32_t>;
using vh_atomic_uint32_t = vh_atomic<uint32_t>;
using vh_atomic_int64_t = vh_atomic<int64_t>;
using vh_atomic_uint64_t = vh_atomic<uint64_t>;
using vh_atomic_uintptr_t = vh_atomic<uintptr_t>;
} // namespace std
  #define atomic_bool vh_atomic_bool
  #define atomic_int vh_atomic_int
  #define atomic_uint vh_atomic_uint
  #define atomic_long vh_atomic_long
  #define atomic_ulong vh_atomic_ulong
  #define atomic_size_t vh_atomic_size_t
  #define atomic_ptrdiff_t vh_atomic_ptrdiff_t
  #define atomic_int8_t vh_atomic_int8_t
  #define atomic_uint8_t vh_atomic_uint8_t
  #define atomic_int16_t vh_atomic_int16_t
  #define atomic_uint16_t vh_atomic_uint16_t
  #define atomic_int32_t vh_atomic_int32_t
  #define atomic_uint32_t vh_atomic_uint32_t
  #define atomic_int64_t vh_atomic_int64_t
  #define atomic_uint64_t vh_atomic_uint64_t
  #define atomic_uintptr_t vh_atomic_uintptr_t

#endif // VH_NO_ATOMIC_HOOKS

#if defined(VH_TSAN)
  // libfork replaces the seq_cst fence by inline assembly (invisible to TSan) for clang on x86; the portable
  // branch, which calls the (redirected) std::atomic_thread_fence, is selected if these are not defined.  All
  // standard headers have been included above.
  #undef __x86_64__
  #undef __i386__
#endif

#define LF_LOG(message, ...)                                                                                         \
  do {                                                                                                               \
    if (!std::is_constant_evaluated()) {                                                                             \
      ::vh::log_event<::vh::classify(message)>(__VA_ARGS__);                                                         \
    }                                                                                                                \
  } while (false)

#endif
