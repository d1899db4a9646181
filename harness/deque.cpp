// Recorded histories of lf::deque, judged against the sequential specification of a single-owner deque.
#include "common.hpp"

#ifdef VH_SINGLE_HEADER
  #include <libfork.hpp>
#else
  #include <libfork/core.hpp>
#endif

using namespace vh;

struct Item {
  uint64_t id;
  uint64_t a = 0, b = 0; // payload, plain memory: written before the push, read by the taker
  uint64_t taker = 0;    // plain: exactly one taker writes it
};

// Element types: the deque stores these by value in lock-free atomics.
struct Small {
  uint32_t lo = 0, hi = 0;
};
template <class T>
struct codec;
template <>
struct codec<Item *> {
  static Item *put(Item *base, uint64_t i) { return base + i; }
  static uint64_t get(Item *base, Item *p) { return (uint64_t)(p - base); }
  static constexpr char const *name = "pointer";
};
template <>
struct codec<uint64_t> {
  static uint64_t put(Item *, uint64_t i) { return i * 0x100000001ull + 7; }
  static uint64_t get(Item *, uint64_t v) {
    v -= 7;
    return v % 0x100000001ull == 0 ? v / 0x100000001ull : ~0ull;
  }
  static constexpr char const *name = "u64";
};
template <>
struct codec<int32_t> {
  static int32_t put(Item *, uint64_t i) { return (int32_t)i * 3 + 1; }
  static uint64_t get(Item *, int32_t v) { return (v - 1) % 3 == 0 ? (uint64_t)((v - 1) / 3) : ~0ull; }
  static constexpr char const *name = "i32";
};
template <>
struct codec<Small> {
  static Small put(Item *, uint64_t i) { return {(uint32_t)i, ~(uint32_t)i}; }
  static uint64_t get(Item *, Small s) { return s.lo == ~s.hi ? s.lo : ~0ull; }
  static constexpr char const *name = "struct";
};

struct Op {
  enum kind : uint8_t { push, pop, pop_empty, steal, steal_empty, steal_lost } k;
  uint64_t id;
  uint64_t t0, t1;
};

static raw_atomic<uint64_t> g_tick{0};

struct Params {
  unsigned thieves;
  ptrdiff_t cap;
  uint64_t items;
  unsigned pattern;
  bool tickets;
  uint64_t seed;
};

static std::map<std::string, uint64_t> totals;

template <class T>
static void round(Params const &P) {
  using C = codec<T>;
  std::unique_ptr<Item[]> items(new Item[P.items]);
  Item *base = items.get();
  auto dq = std::make_unique<lf::deque<T>>(P.cap);
  lf::deque<T> &d = *dq;
  raw_atomic<bool> done{false};
  std::vector<std::vector<Op>> logs(P.thieves + 1);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, P.thieves + 1);

  auto tick = [&]() -> uint64_t {
    return P.tickets ? g_tick.fetch_add(1) : 0;
  };

  auto take = [&](uint64_t id, unsigned who) {
    VH_CHECK(id < P.items, "deque-invented", "taker %u got a value that was never pushed", who);
    Item &it = base[id];
    VH_CHECK(it.id == id && it.a == mix(id) && it.b == ~mix(id), "deque-payload-invisible",
             "taker %u of item %llu does not see what was written before the push", who, (unsigned long long)id);
    VH_CHECK(it.taker == 0, "deque-taken-twice", "item %llu was taken by %llu and again by %u", (unsigned long long)id,
             (unsigned long long)it.taker - 1, who);
    it.taker = who + 1;
    progress();
  };

  std::vector<std::thread> ts;
  for (unsigned k = 1; k <= P.thieves; ++k) {
    logs[k].reserve(1024);
    ts.emplace_back([&, k] {
      auto &log = logs[k];
      rng g(P.seed * 31 + k);
      unsigned style = (unsigned)g.below(4);
      uint64_t last = 0;
      bool first = true;
      uint64_t empties = 0, losts = 0;
      pthread_barrier_wait(&bar);
      while (!done.load(std::memory_order_relaxed)) {
        uint64_t t0 = tick();
        auto r = d.steal();
        uint64_t t1 = tick();
        if (r.code == lf::err::none) {
          uint64_t id = C::get(base, *r);
          VH_CHECK((bool)r, "deque-steal-result", "a successful steal converts to false");
          take(id, k);
          VH_CHECK(first || id > last, "deque-fifo", "thief %u stole item %llu after the younger item %llu", k,
                   (unsigned long long)id, (unsigned long long)last);
          last = id;
          first = false;
          log.push_back({Op::steal, id, t0, t1});
        } else {
          VH_CHECK(!(bool)r, "deque-steal-result", "a failed steal converts to true");
          VH_CHECK(r.code == lf::err::lost || r.code == lf::err::empty, "deque-steal-result", "unknown steal code");
          bool lost = r.code == lf::err::lost;
          (lost ? losts : empties)++;
          if (P.tickets && (lost || log.size() < 4096)) {
            log.push_back({lost ? Op::steal_lost : Op::steal_empty, 0, t0, t1});
          }
          if (style == 1) {
            sched_yield();
          } else if (style == 2 && !lost) {
            for (volatile int i = 0; i < 50; i = i + 1) {
            }
          }
        }
      }
      count("steals_lost", (double)losts);
      count("steals_empty", (double)empties);
    });
  }

  auto &log = logs[0];
  log.reserve(P.items * 2);
  std::vector<uint64_t> shadow;
  rng g(P.seed);
  uint64_t next = 0, grown = 0;
  ptrdiff_t cap_seen = d.capacity();
  VH_CHECK(cap_seen == P.cap, "deque-capacity", "capacity %td instead of %td", cap_seen, P.cap);
  pthread_barrier_wait(&bar);

  auto push1 = [&] {
    Item &it = base[next];
    it.id = next;
    it.a = mix(next);
    it.b = ~mix(next);
    T v = C::put(base, next);
    uint64_t t0 = tick();
    d.push(v);
    uint64_t t1 = tick();
    log.push_back({Op::push, next, t0, t1});
    shadow.push_back(next);
    ++next;
    if (d.capacity() != cap_seen) {
      ++grown;
      VH_CHECK(d.capacity() > cap_seen, "deque-capacity", "the capacity shrank");
      cap_seen = d.capacity();
    }
  };
  auto pop1 = [&]() -> bool {
    uint64_t t0 = tick();
    bool hit;
    T v{};
    if (g.u64() & 1) {
      std::optional<T> r = d.pop();
      hit = r.has_value();
      if (hit) {
        v = *r;
      }
    } else {
      bool called = false;
      T nil = C::put(base, 0);
      T r = d.pop([&]() -> T {
        called = true;
        return nil;
      });
      hit = !called;
      v = r;
    }
    uint64_t t1 = tick();
    if (hit) {
      uint64_t id = C::get(base, v);
      VH_CHECK(id < P.items, "deque-invented", "the owner popped a value that was never pushed");
      VH_CHECK(!shadow.empty() && shadow.back() == id, "deque-lifo",
               "the owner popped item %llu while %lld is the youngest", (unsigned long long)id,
               shadow.empty() ? -1ll : (long long)shadow.back());
      take(id, 0);
      shadow.pop_back();
      log.push_back({Op::pop, id, t0, t1});
      return true;
    }
    VH_CHECK(P.thieves != 0 || shadow.empty(), "deque-false-empty",
             "pop reports empty, nobody steals and %zu items are inside", shadow.size());
    log.push_back({Op::pop_empty, 0, t0, t1});
    shadow.clear();
    return false;
  };
  auto look = [&] { // size() is exact without thieves, never larger than what the owner put in otherwise
    ptrdiff_t s = d.ssize();
    VH_CHECK(s >= 0 && (size_t)s <= shadow.size() && (size_t)s <= (size_t)d.capacity(), "deque-size",
             "size %td with at most %zu items inside", s, shadow.size());
    if (P.thieves == 0) {
      VH_CHECK((size_t)s == shadow.size() && d.size() == shadow.size() && d.empty() == shadow.empty(), "deque-size",
               "size %td, empty %d with %zu items inside", s, (int)d.empty(), shadow.size());
    }
  };

  auto pause_some = [&](unsigned n) {
    for (volatile unsigned i = 0; i < n; i = i + 1) {
    }
  };

  while (next < P.items) {
    switch (P.pattern) {
      case 0: // last-item races
        push1();
        if (g.u64() & 1) {
          pause_some((unsigned)g.below(60));
        }
        pop1();
        break;
      case 1: { // two items
        push1();
        if (next < P.items) {
          push1();
        }
        pop1();
        if (g.u64() & 1) {
          pop1();
        }
        break;
      }
      case 2: { // bursts with growth
        uint64_t n = g.below(3 * (uint64_t)P.cap + 40);
        for (uint64_t i = 0; i < n && next < P.items; ++i) {
          push1();
        }
        look();
        uint64_t m = g.below(n + 4);
        for (uint64_t i = 0; i < m; ++i) {
          if (!pop1()) {
            break;
          }
        }
        look();
        break;
      }
      case 3: // mostly thieves
        push1();
        if (g.chance(1, 16)) {
          pop1();
        }
        if (g.chance(1, 64)) {
          sched_yield();
        }
        break;
      default: // fork-join like recursion
        if (g.chance(55, 100)) {
          push1();
        } else {
          pop1();
        }
        if (g.chance(1, 40)) {
          look();
        }
        break;
    }
  }
  // The owner drains; whatever is not taken must still be there.
  if (g.u64() & 1) {
    while (pop1()) {
    }
    look();
  }
  done.store(true, std::memory_order_relaxed);
  for (auto &t : ts) {
    t.join();
  }
  while (true) {
    uint64_t before = shadow.size();
    if (!pop1()) {
      (void)before;
      break;
    }
  }
  VH_CHECK(d.empty() && d.size() == 0, "deque-size", "a drained deque reports %zu items", d.size());
  pthread_barrier_destroy(&bar);

  uint64_t lost = 0, stolen = 0, sig = hcombine(P.items, P.pattern);
  for (uint64_t i = 0; i < P.items; ++i) {
    lost += base[i].taker == 0;
    stolen += base[i].taker > 1;
    sig = hcombine(sig, base[i].taker);
  }
  VH_CHECK(lost == 0, "deque-lost", "%llu of %llu pushed items were never handed out", (unsigned long long)lost,
           (unsigned long long)P.items);

  if (P.tickets) {
    constexpr uint64_t inf = ~0ull;
    std::vector<uint64_t> push_end(P.items, inf), take_begin(P.items, inf);
    std::vector<Op> steals, empties, losses;
    std::vector<std::pair<uint64_t, uint64_t>> takes;
    for (unsigned k = 0; k <= P.thieves; ++k) {
      for (auto &o : logs[k]) {
        switch (o.k) {
          case Op::push:
            push_end[o.id] = o.t1;
            break;
          case Op::steal:
            steals.push_back(o);
            [[fallthrough]];
          case Op::pop:
            take_begin[o.id] = o.t0;
            takes.push_back({o.t0, o.t1});
            break;
          case Op::pop_empty:
          case Op::steal_empty:
            empties.push_back(o);
            break;
          case Op::steal_lost:
            losses.push_back(o);
            break;
        }
      }
    }
    // global first-in-first-out of non-overlapping steals
    std::sort(steals.begin(), steals.end(), [](Op const &x, Op const &y) {
      return x.t0 < y.t0;
    });
    auto by_end = steals;
    std::sort(by_end.begin(), by_end.end(), [](Op const &x, Op const &y) {
      return x.t1 < y.t1;
    });
    uint64_t maxid = 0;
    bool any = false;
    size_t j = 0;
    for (auto &o : steals) {
      for (; j < by_end.size() && by_end[j].t1 < o.t0; ++j) {
        maxid = std::max(maxid, by_end[j].id);
        any = true;
      }
      VH_CHECK(!any || o.id > maxid, "deque-fifo", "item %llu was stolen after the younger item %llu",
               (unsigned long long)o.id, (unsigned long long)maxid);
    }
    // periods during which at least one item was certainly inside
    std::vector<std::pair<uint64_t, uint64_t>> in, merged;
    for (uint64_t i = 0; i < P.items; ++i) {
      if (push_end[i] < take_begin[i]) {
        in.push_back({push_end[i], take_begin[i]});
      }
    }
    std::sort(in.begin(), in.end());
    for (auto &x : in) {
      if (!merged.empty() && x.first <= merged.back().second) {
        merged.back().second = std::max(merged.back().second, x.second);
      } else {
        merged.push_back(x);
      }
    }
    for (auto &o : empties) {
      auto it = std::upper_bound(merged.begin(), merged.end(), std::pair{o.t0, inf});
      if (it != merged.begin()) {
        --it;
        VH_CHECK(!(it->first < o.t0 && o.t1 < it->second), "deque-false-empty",
                 "a %s reported empty although items were inside all the time", o.k == Op::pop_empty ? "pop" : "steal");
      }
    }
    std::sort(takes.begin(), takes.end());
    std::vector<uint64_t> pm(takes.size());
    for (size_t i = 0; i < takes.size(); ++i) {
      pm[i] = std::max(i ? pm[i - 1] : 0, takes[i].second);
    }
    for (auto &o : losses) { // some successful take must overlap
      auto it = std::upper_bound(takes.begin(), takes.end(), std::pair{o.t1, inf});
      bool ok = it != takes.begin() && pm[(size_t)(it - takes.begin()) - 1] > o.t0;
      VH_CHECK(ok, "deque-false-lost", "a steal reported a lost race although nobody took an item meanwhile");
    }
    count("history_operations_checked", (double)(steals.size() + empties.size() + losses.size() + P.items * 2));
    count("empty_reports_judged", (double)empties.size());
    count("lost_reports_judged", (double)losses.size());
  }
  count("items", (double)P.items);
  count("items_stolen", (double)stolen);
  count("buffer_growths", (double)grown);
  evaluation();
  if (stolen || P.thieves == 0) {
    distinct(sig);
  }
  static int samples = 0;
  if (samples++ % 37 == 0) {
    sample(std::string("deque of ") + C::name + ", capacity " + std::to_string(P.cap) + ", " +
           std::to_string(P.thieves) + " thieves, pattern " + std::to_string(P.pattern) + ": " +
           std::to_string(P.items) + " items, " + std::to_string(stolen) + " stolen, buffer grew " +
           std::to_string(grown) + " times");
  }
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int rounds = (int)arg("rounds", 200);
  uint64_t items = (uint64_t)arg("items", 4000);
  int rate = (int)arg("rate", -1), tickets = (int)arg("tickets", -1);
  rng g(seed);
  for (int i = 0; i < rounds; ++i) {
    Params P;
    P.thieves = (unsigned)(g.chance(1, 8) ? 0 : g.range(1, (int)arg("thieves", 6)));
    P.pattern = (unsigned)g.below(5);
    P.cap = (ptrdiff_t)1 << (g.chance(1, 5) ? 10 : g.range(0, 5));
    P.items = 1 + g.below(items);
    P.tickets = tickets >= 0 ? tickets : g.chance(1, 2);
    P.seed = g.u64();
    static constexpr int rates[] = {0, 0, 2000, 200, 40};
    unsigned rt = rate >= 0 ? (unsigned)rate : (unsigned)rates[g.below(5)];
    if (rt && rt < 1000) {
      P.items = 1 + P.items / 4;
    }
    set_delays(g.u64(), rt, (unsigned)g.below(3));
    unsigned ty = (unsigned)g.below(4);
    set_case("seed=%llu round=%d thieves=%u cap=%td items=%llu pattern=%u tickets=%d type=%u rate=%u",
             (unsigned long long)seed, i, P.thieves, P.cap, (unsigned long long)P.items, P.pattern, (int)P.tickets, ty,
             rt);
    int64_t before = heap_live();
    {
      watch w;
      switch (ty) {
        case 0:
          round<Item *>(P);
          break;
        case 1:
          round<uint64_t>(P);
          break;
        case 2:
          round<int32_t>(P);
          break;
        default:
          round<Small>(P);
          break;
      }
    }
    if (heap_active && i > 0) {
      VH_CHECK(heap_live() == before, "memory-leak", "%lld heap blocks left", (long long)(heap_live() - before));
    }
    progress_now();
  }
  finish();
}
