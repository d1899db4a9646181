// Shared harness support: arguments, RNG, failure reporting, statistics, object census, heap interposer, watchdog.
#ifndef VH_COMMON_HPP
#define VH_COMMON_HPP

#ifndef VH_PRELUDE_HPP
  #error "compile with -include prelude.hpp"
#endif

namespace vh {

// ---------------------------------------------------------------- arguments

inline std::map<std::string, std::string> g_args;

inline void parse_args(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string s = argv[i];
    auto p = s.find('=');
    if (p == std::string::npos) {
      g_args[s] = "1";
    } else {
      g_args[s.substr(0, p)] = s.substr(p + 1);
    }
  }
}
inline int64_t arg(char const *name, int64_t def) {
  auto it = g_args.find(name);
  return it == g_args.end() ? def : std::strtoll(it->second.c_str(), nullptr, 0);
}
inline std::string sarg(char const *name, std::string def) {
  auto it = g_args.find(name);
  return it == g_args.end() ? def : it->second;
}

// ---------------------------------------------------------------- RNG

struct rng {
  uint64_t s;
  explicit rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ull;
    return mix(s);
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class C>
  auto &pick(C &c) {
    return c[below(std::size(c))];
  }
};

inline uint64_t hcombine(uint64_t a, uint64_t b) { return mix(a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))); }

// ---------------------------------------------------------------- failure reporting

inline char g_case[2048] = "(start)";
inline raw_atomic<bool> g_failed{false};

[[noreturn]] __attribute__((noinline, format(printf, 2, 3))) inline void fail(char const *key, char const *fmt, ...) {
  if (!g_failed.exchange(true)) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    char out[8192];
    int n = snprintf(out, sizeof out, "\nVHFAIL key=%s %s | case: %s\n", key, buf, g_case);
    if (n > (int)sizeof out - 1) {
      n = sizeof out - 1;
    }
    (void)!write(1, out, (size_t)n);
    _exit(77);
  }
  for (;;) {
    pause();
  }
}

// Keys that belong to another property than the one being checked are recorded, not judged (argument soft=k1,k2).
inline bool is_soft(char const *key) {
  auto it = g_args.find("soft");
  if (it == g_args.end()) {
    return false;
  }
  return ("," + it->second + ",").find(std::string(",") + key + ",") != std::string::npos;
}
inline raw_atomic<unsigned> g_softs{0};
inline void soft(char const *key) {
  if (g_softs.fetch_add(1) < 20) {
    printf("\nVHSOFT %s | case: %s\n", key, g_case);
    fflush(stdout);
  }
}
#define VH_SOFT(cond, key, ...)                                                                                      \
  do {                                                                                                               \
    if (!(cond)) [[unlikely]] {                                                                                      \
      if (!::vh::is_soft(key)) {                                                                                     \
        ::vh::fail(key, __VA_ARGS__);                                                                                \
      }                                                                                                              \
      ::vh::soft(key);                                                                                               \
    }                                                                                                                \
  } while (false)

#define VH_CHECK(cond, key, ...)                                                                                     \
  do {                                                                                                               \
    if (!(cond)) [[unlikely]] {                                                                                      \
      ::vh::fail(key, __VA_ARGS__);                                                                                  \
    }                                                                                                                \
  } while (false)

__attribute__((format(printf, 1, 2))) inline void set_case(char const *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_case, sizeof g_case, fmt, ap);
  va_end(ap);
}

inline void on_crash(int sig) {
  char out[2600];
  int n = snprintf(out, sizeof out, "\nVHCRASH signal=%d | case: %s\n", sig, g_case);
  (void)!write(1, out, (size_t)n);
  signal(sig, SIG_DFL);
  raise(sig);
}

// ---------------------------------------------------------------- statistics

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
}
// The harness's own records bypass the heap balance.
template <class T>
struct raw_alloc {
  using value_type = T;
  raw_alloc() = default;
  template <class U>
  raw_alloc(raw_alloc<U> const &) {}
#if defined(VH_HEAP) && !defined(VH_ASAN) && !defined(VH_TSAN)
  T *allocate(size_t n) { return (T *)__libc_malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { __libc_free(p); }
#else
  T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { free(p); }
#endif
  bool operator==(raw_alloc const &) const { return true; }
};
using raw_string = std::basic_string<char, std::char_traits<char>, raw_alloc<char>>;

inline std::mutex g_stat_mtx;
inline std::map<raw_string, double, std::less<>, raw_alloc<std::pair<raw_string const, double>>> g_counters;
inline std::unordered_set<uint64_t, std::hash<uint64_t>, std::equal_to<>, raw_alloc<uint64_t>> g_distinct;
inline std::vector<raw_string, raw_alloc<raw_string>> g_samples;
inline uint64_t g_evals = 0;

inline void count(std::string const &k, double d = 1) {
  std::lock_guard lk(g_stat_mtx);
  g_counters[raw_string(k.begin(), k.end())] += d;
}
inline void count_max(std::string const &k, double d) {
  std::lock_guard lk(g_stat_mtx);
  auto &v = g_counters[raw_string(k.begin(), k.end())];
  v = std::max(v, d);
}
inline void evaluation(uint64_t n = 1) {
  std::lock_guard lk(g_stat_mtx);
  g_evals += n;
}
inline void distinct(uint64_t h) {
  std::lock_guard lk(g_stat_mtx);
  if (g_distinct.size() < 3'000'000) {
    g_distinct.insert(h);
  }
}
inline void sample(std::string s) {
  std::lock_guard lk(g_stat_mtx);
  if (g_samples.size() < 6) {
    g_samples.push_back(raw_string(s.begin(), s.begin() + (long)std::min<size_t>(s.size(), 600)));
  }
}

inline std::string json_str(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}

// ---------------------------------------------------------------- object census

struct census_t {
  raw_atomic<int64_t> live{0}, made{0};
};
inline census_t g_census;
inline census_t g_exc_census;

// A value with identity checks.  All per-object state is plain memory (ThreadSanitizer sees unordered accesses).
struct Tracked {
  static constexpr uint64_t alive = 0xA11FEA11FEA11FEull, dead = 0xDEADDEADDEADDEADull;
  uint64_t magic;
  Tracked const *self;
  uint64_t val;
  bool moved = false;

  void birth() {
    magic = alive;
    self = this;
    g_census.live.fetch_add(1, std::memory_order_relaxed);
    g_census.made.fetch_add(1, std::memory_order_relaxed);
  }
  void ok(char const *op) const {
    if (magic != alive || self != this) [[unlikely]] {
      fail("object-lifetime", "%s on a %s object (magic %llx)", op,
           magic == dead ? "destroyed" : (magic == alive ? "bitwise-moved" : "never constructed"),
           (unsigned long long)magic);
    }
  }
  Tracked() : val(0) { birth(); }
  explicit Tracked(uint64_t v) : val(v) { birth(); }
  Tracked(Tracked const &o) : val((o.ok("copy from"), o.val)), moved(o.moved) { birth(); }
  Tracked(Tracked &&o) noexcept : val((o.ok("move from"), o.val)), moved(o.moved) {
    birth();
    o.moved = true;
    o.val = 0xBADBADBADull;
  }
  Tracked &operator=(Tracked const &o) {
    ok("assign to");
    o.ok("assign from");
    val = o.val;
    moved = o.moved;
    return *this;
  }
  Tracked &operator=(Tracked &&o) noexcept {
    ok("move-assign to");
    o.ok("move-assign from");
    val = o.val;
    moved = o.moved;
    if (&o != this) {
      o.moved = true;
      o.val = 0xBADBADBADull;
    }
    return *this;
  }
  ~Tracked() {
    ok("destroy");
    magic = dead;
    self = nullptr;
    g_census.live.fetch_sub(1, std::memory_order_relaxed);
  }
  uint64_t get() const {
    ok("read");
    if (moved) [[unlikely]] {
      fail("moved-from-value", "a moved-from object was delivered");
    }
    return val;
  }
};

// The exception type thrown by harness tasks; `token` identifies the throw.
struct Exc {
  uint64_t token;
  Exc *self;
  static void inc() { g_exc_census.live.fetch_add(1, std::memory_order_relaxed); }
  explicit Exc(uint64_t t) : token(t), self(this) {
    g_exc_census.made.fetch_add(1, std::memory_order_relaxed);
    inc();
  }
  Exc(Exc const &o) : token(o.token), self(this) { inc(); }
  ~Exc() {
    if (self != this) [[unlikely]] {
      fail("exception-lifetime", "an exception object was destroyed twice or overwritten (token %llu)",
           (unsigned long long)token);
    }
    self = nullptr;
    g_exc_census.live.fetch_sub(1, std::memory_order_relaxed);
  }
};

// ---------------------------------------------------------------- heap interposer (plain builds only)

inline raw_atomic<int64_t> h_live{0}, h_bytes{0}, h_peak{0}, h_calls{0}, h_page_calls{0}, h_failed{0};
inline raw_atomic<bool> h_track_peak{false};
// Fault injection: the allocations of a thread with t_armed are numbered by h_seq; number h_fail_at (and, if
// h_fail_all, every later one) fails.
inline raw_atomic<int64_t> h_seq{0}, h_fail_at{-1};
inline raw_atomic<bool> h_fail_all{false};
inline constinit thread_local bool t_armed = false, t_exempt = false;
inline raw_atomic<bool> h_arm_everyone{false};
inline constinit thread_local int64_t t_allocs = 0;
inline raw_atomic<size_t> h_fail_min{0}; // only requests of at least this size count

// Instead of one number: this many of 1024 allocations fail, chosen by h_fail_seed.
inline raw_atomic<unsigned> h_fail_rate{0};
inline raw_atomic<uint64_t> h_fail_seed{0};

inline bool should_fail(size_t n) noexcept {
  ++t_allocs;
  if ((!t_armed && !h_arm_everyone.load(std::memory_order_relaxed)) || t_exempt) {
    return false;
  }
  if (n < h_fail_min.load(std::memory_order_relaxed)) {
    return false;
  }
  int64_t s = h_seq.fetch_add(1, std::memory_order_relaxed);
  if (unsigned r = h_fail_rate.load(std::memory_order_relaxed);
      r && (mix(h_fail_seed.load(std::memory_order_relaxed) + (uint64_t)s) & 1023) < r) {
    h_failed.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  int64_t at = h_fail_at.load(std::memory_order_relaxed);
  if (at >= 0 && (s == at || (s > at && h_fail_all.load(std::memory_order_relaxed)))) {
    h_failed.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  return false;
}

// Blocks that the C library allocates for (and caches with) threads are not part of the balance.
inline constinit thread_local int t_ignore = 0;
inline raw_atomic<void *> h_ignored[4096] = {};

inline bool ignore_put(void *p) noexcept {
  for (unsigned i = 0, h = (unsigned)mix((uintptr_t)p); i < 4096; ++i, ++h) {
    void *e = nullptr;
    if (h_ignored[h % 4096].compare_exchange_strong(e, p)) {
      return true;
    }
  }
  return false;
}
inline bool ignore_take(void *p) noexcept {
  // Probes a bounded window only: there are at most a few dozen such blocks.
  for (unsigned i = 0, h = (unsigned)mix((uintptr_t)p); i < 16; ++i, ++h) {
    if (h_ignored[h % 4096].load(std::memory_order_relaxed) == p) {
      h_ignored[h % 4096].store(nullptr);
      return true;
    }
  }
  return false;
}

inline void note_free(size_t usable, void *p) noexcept;

inline void note_alloc(size_t usable, size_t req, void *ptr) noexcept {
  if (t_ignore && ignore_put(ptr)) [[unlikely]] {
    return;
  }
  h_live.fetch_add(1, std::memory_order_relaxed);
  h_calls.fetch_add(1, std::memory_order_relaxed);
  if (req >= 3000) {
    h_page_calls.fetch_add(1, std::memory_order_relaxed);
  }
  int64_t now = h_bytes.fetch_add((int64_t)usable, std::memory_order_relaxed) + (int64_t)usable;
  if (h_track_peak.load(std::memory_order_relaxed)) {
    int64_t p = h_peak.load(std::memory_order_relaxed);
    while (p < now && !h_peak.compare_exchange_weak(p, now, std::memory_order_relaxed)) {
    }
  }
}
inline void note_free(size_t usable, void *p) noexcept {
  if (ignore_take(p)) [[unlikely]] {
    return;
  }
  h_live.fetch_sub(1, std::memory_order_relaxed);
  h_bytes.fetch_sub((int64_t)usable, std::memory_order_relaxed);
}

} // namespace vh

#if defined(VH_SECONDARY) && !(defined(VH_HEAP) && !defined(VH_ASAN) && !defined(VH_TSAN))
  #define VH_HEAP_ACTIVE 0
#elif defined(VH_SECONDARY) // a further translation unit of a program
  #define VH_HEAP_ACTIVE 1
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
}
#elif defined(VH_HEAP) && !defined(VH_ASAN) && !defined(VH_TSAN)
  #define VH_HEAP_ACTIVE 1
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);

__attribute__((used)) void *malloc(size_t n) noexcept {
  if (vh::should_fail(n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __libc_malloc(n);
  if (p) {
    vh::note_alloc(malloc_usable_size(p), n, p);
  }
  return p;
}
__attribute__((used)) void *calloc(size_t a, size_t b) noexcept {
  if (vh::should_fail(a * b)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __libc_calloc(a, b);
  if (p) {
    vh::note_alloc(malloc_usable_size(p), a * b, p);
  }
  return p;
}
__attribute__((used)) void *realloc(void *q, size_t n) noexcept {
  size_t old = q ? malloc_usable_size(q) : 0;
  void *p = __libc_realloc(q, n);
  if (p) {
    if (q) {
      vh::note_free(old, q);
    }
    vh::note_alloc(malloc_usable_size(p), n, p);
  } else if (q && n == 0) {
    vh::note_free(old, q);
  }
  return p;
}
__attribute__((used)) void *memalign(size_t a, size_t n) noexcept {
  if (vh::should_fail(n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __libc_memalign(a, n);
  if (p) {
    vh::note_alloc(malloc_usable_size(p), n, p);
  }
  return p;
}
__attribute__((used)) void *aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
__attribute__((used)) int posix_memalign(void **out, size_t a, size_t n) noexcept {
  void *p = memalign(a, n);
  if (!p) {
    return ENOMEM;
  }
  *out = p;
  return 0;
}
__attribute__((used)) int pthread_create(pthread_t *t, pthread_attr_t const *a, void *(*f)(void *), void *x) {
  using fn = int (*)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *);
  static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
  ++vh::t_ignore;
  int r = real(t, a, f, x);
  --vh::t_ignore;
  return r;
}
__attribute__((used)) void free(void *p) noexcept {
  if (p) {
    vh::note_free(malloc_usable_size(p), p);
    __libc_free(p);
  }
}
}
#elif defined(VH_WRAP)
  // Fault injection in sanitizer builds: compile with -Wl,--wrap=malloc and these operators.
  #define VH_HEAP_ACTIVE 0
extern "C" void *__real_malloc(size_t);
extern "C" __attribute__((used)) void *__wrap_malloc(size_t n) {
  if (vh::should_fail(n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_malloc(n);
}
void *operator new(size_t n) {
  void *p = __wrap_malloc(n ? n : 1);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a) {
  if (vh::should_fail(n)) {
    throw std::bad_alloc();
  }
  return ::aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a);
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { ::free(p); }
void operator delete[](void *p) noexcept { ::free(p); }
void operator delete(void *p, size_t) noexcept { ::free(p); }
void operator delete[](void *p, size_t) noexcept { ::free(p); }
void operator delete(void *p, std::align_val_t) noexcept { ::free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { ::free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { ::free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { ::free(p); }
#else
  #define VH_HEAP_ACTIVE 0
#endif

namespace vh {

inline constexpr bool heap_active = VH_HEAP_ACTIVE;

inline int64_t heap_live() { return h_live.load(std::memory_order_relaxed); }
inline int64_t heap_bytes() { return h_bytes.load(std::memory_order_relaxed); }

// Arms the calling thread (or everyone) to have allocation number `k` (from now) fail.
struct inject_scope {
  bool everyone;
  explicit inject_scope(int64_t k, bool all = false, bool every = false, size_t min_size = 0) : everyone(every) {
    h_fail_min.store(min_size, std::memory_order_relaxed);
    h_seq.store(0);
    h_failed.store(0);
    h_fail_all.store(all);
    h_fail_at.store(k);
    if (every) {
      h_arm_everyone.store(true);
    } else {
      t_armed = true;
    }
  }
  void stop() {
    h_arm_everyone.store(false);
    t_armed = false;
    h_fail_at.store(-1);
  }
  ~inject_scope() { stop(); }
};

// ---------------------------------------------------------------- progress and watchdog

inline raw_atomic<uint64_t> g_progress{0};
inline raw_atomic<bool> g_outstanding{false};
inline constinit thread_local unsigned t_prog = 0;

__attribute__((noinline)) inline void progress() noexcept {
  if ((++t_prog & 15) == 0) {
    g_progress.fetch_add(1, std::memory_order_relaxed);
  }
}
inline void progress_now() noexcept { g_progress.fetch_add(1, std::memory_order_relaxed); }

// While an object lives, the harness is waiting for the library (hangs are judged).
struct watch {
  bool prev;
  watch() : prev(g_outstanding.exchange(true)) { progress_now(); }
  ~watch() {
    progress_now();
    g_outstanding.store(prev);
  }
};

struct thread_info {
  char state = '?';
  uint64_t switches = 0;
  double cpu = 0;
};

inline bool read_thread(int tid, thread_info &ti) {
  char path[96], buf[4096];
  snprintf(path, sizeof path, "/proc/self/task/%d/status", tid);
  int fd = open(path, O_RDONLY | O_CLOEXEC);
  if (fd < 0) {
    return false;
  }
  ssize_t n = read(fd, buf, sizeof buf - 1);
  close(fd);
  if (n <= 0) {
    return false;
  }
  buf[n] = 0;
  if (char *p = strstr(buf, "State:")) {
    p += 6;
    while (*p == '\t' || *p == ' ') {
      ++p;
    }
    ti.state = *p;
  }
  ti.switches = 0;
  if (char *p = strstr(buf, "\nvoluntary_ctxt_switches:")) {
    ti.switches += strtoull(p + 25, nullptr, 10);
  }
  if (char *p = strstr(buf, "\nnonvoluntary_ctxt_switches:")) {
    ti.switches += strtoull(p + 28, nullptr, 10);
  }
  snprintf(path, sizeof path, "/proc/self/task/%d/stat", tid);
  fd = open(path, O_RDONLY | O_CLOEXEC);
  if (fd < 0) {
    return false;
  }
  n = read(fd, buf, sizeof buf - 1);
  close(fd);
  if (n <= 0) {
    return false;
  }
  buf[n] = 0;
  char *p = strrchr(buf, ')');
  if (!p) {
    return false;
  }
  unsigned long ut = 0, st = 0;
  sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
  static long hz = sysconf(_SC_CLK_TCK);
  ti.cpu = double(ut + st) / double(hz);
  return true;
}

inline std::vector<int> list_tids() {
  std::vector<int> r;
  if (DIR *d = opendir("/proc/self/task")) {
    while (dirent *e = readdir(d)) {
      if (isdigit((unsigned char)e->d_name[0])) {
        r.push_back(atoi(e->d_name));
      }
    }
    closedir(d);
  }
  return r;
}

inline double now_s() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

inline void *watchdog_main(void *) {
  // Threads present now other than main belong to the sanitizer runtime (or are this one).
  std::set<int> ignored;
  for (int t : list_tids()) {
    if (t != getpid()) {
      ignored.insert(t);
    }
  }
  double const dead_window = 15, live_wall = 60, live_cpu = 60, live_thread = 8;
  uint64_t last = ~0ull;
  double since = 0, quiet_since = 0;
  std::map<int, thread_info> base, prev;
  for (;;) {
    timespec ts{0, 400'000'000};
    nanosleep(&ts, nullptr);
    uint64_t p = g_progress.load(std::memory_order_relaxed);
    bool out = g_outstanding.load(std::memory_order_relaxed);
    double now = now_s();
    std::map<int, thread_info> cur;
    if (p != last || !out) {
      last = p;
      since = quiet_since = now;
      base.clear();
      prev.clear();
      continue;
    }
    if (now - since < 2) {
      continue;
    }
    bool torn = false;
    for (int t : list_tids()) {
      if (!ignored.count(t)) {
        torn |= !read_thread(t, cur[t]);
      }
    }
    if (torn) {
      continue;
    }
    if (base.empty()) {
      base = cur;
    }
    bool quiet = !prev.empty() && prev.size() == cur.size();
    for (auto &[t, i] : cur) {
      auto it = prev.find(t);
      quiet = quiet && it != prev.end() && (i.state == 'S') && it->second.switches == i.switches &&
              it->second.cpu == i.cpu;
    }
    if (!quiet) {
      quiet_since = now;
    }
    prev = cur;
    if (quiet && now - quiet_since >= dead_window) {
      if (g_progress.load() == p && g_outstanding.load()) {
        fail("deadlock", "all %zu threads of the process sleep for good while work is outstanding", cur.size());
      }
    }
    if (now - since >= live_wall) {
      double cpu = 0;
      bool every = true;
      int running = 0;
      for (auto &[t, i] : cur) {
        double d = i.cpu - (base.count(t) ? base[t].cpu : 0);
        cpu += d;
        bool asleep = base.count(t) && base[t].switches == i.switches && i.state == 'S';
        if (!asleep) {
          ++running;
          every = every && d >= live_thread;
        }
      }
      if (cpu >= live_cpu && every && running && g_progress.load() == p && g_outstanding.load()) {
        fail("livelock", "no task made progress while %d threads consumed %.0f s of processor time", running, cpu);
      }
    }
  }
  return nullptr;
}

inline void init(int argc, char **argv) {
  t_events.flush(); // registers thread-exit destructors before the heap is balanced
  parse_args(argc, argv);
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
#if !defined(VH_ASAN) && !defined(VH_TSAN)
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) {
    struct sigaction sa {};
    sa.sa_handler = on_crash;
    sa.sa_flags = SA_RESETHAND | SA_NODEFER | SA_ONSTACK;
    sigaction(s, &sa, nullptr);
  }
#endif
  if (arg("watchdog", 1)) {
    pthread_t t;
    pthread_create(&t, nullptr, watchdog_main, nullptr);
    pthread_detach(t);
    timespec ts{0, 50'000'000};
    nanosleep(&ts, nullptr); // let it take its census of the runtime's threads
  }
}

[[noreturn]] inline void finish() {
  t_events.flush();
  if (auto path = sarg("hashes", ""); !path.empty()) {
    // Raw 64 bit hashes: the driver merges the sets of all executions.
    std::vector<uint64_t> hs(g_distinct.begin(), g_distinct.end());
    if (FILE *f = fopen(path.c_str(), "wb")) {
      fwrite(hs.data(), 8, hs.size(), f);
      fclose(f);
    }
  }
  std::string s = "\nVHSTAT {\"evaluations\":" + std::to_string(g_evals) +
                  ",\"distinct\":" + std::to_string(g_distinct.size()) + ",\"counters\":{";
  bool first = true;
  auto put = [&](std::string const &k, double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    s += (first ? "" : ",") + json_str(k) + ":" + b;
    first = false;
  };
  for (unsigned i = 1; i < ev_count; ++i) {
    if (auto n = g_ev[i].load()) {
      put(std::string("event.") + ev_name[i], (double)n);
    }
  }
  if (auto n = g_delays.load()) {
    put("injected_delays", (double)n);
  }
  for (auto &[k, v] : g_counters) {
    put(std::string(k.begin(), k.end()), v);
  }
  s += "},\"samples\":[";
  first = true;
  for (auto &x : g_samples) {
    s += (first ? "" : ",") + json_str(x);
    first = false;
  }
  s += "]}\n";
  for (size_t off = 0; off < s.size();) {
    ssize_t n = write(1, s.data() + off, s.size() - off);
    if (n <= 0) {
      break;
    }
    off += (size_t)n;
  }
  _exit(0);
}

} // namespace vh

#endif
