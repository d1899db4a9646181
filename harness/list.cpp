// Recorded histories of lf::intrusive_list: multiple producers, one consumer.
#include "common.hpp"

#ifdef VH_SINGLE_HEADER
  #include <libfork.hpp>
#else
  #include <libfork/core.hpp>
#endif

using namespace vh;

struct Val {
  uint32_t producer;
  uint32_t seq;
  uint64_t check;   // plain: written before the push
  uint64_t *extra;  // points to plain memory written before the push
  uint32_t owner_marks = 0;
};

using list_t = lf::intrusive_list<Val>;
using node_t = list_t::node;

struct Params {
  unsigned producers;
  uint32_t per;
  unsigned style;
  uint64_t seed;
};

static raw_atomic<uint64_t> g_tick{0};

static void round(Params const &P) {
  auto lst = std::make_unique<list_t>();
  list_t &l = *lst;
  size_t n = (size_t)P.producers * P.per;
  std::unique_ptr<uint64_t[]> extra(new uint64_t[n]());
  // completed[p]: number of pushes of p that have returned (relaxed on purpose: adds no ordering)
  std::vector<raw_atomic<uint32_t>> completed(P.producers);
  std::vector<uint32_t> next(P.producers, 0);
  std::vector<uint32_t> seen(n, 0);
  raw_atomic<uint32_t> live{P.producers};
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, P.producers + 1);
  bool heap_nodes = P.style & 1;
  bool repush = P.style & 2;
  std::vector<std::unique_ptr<char[]>> arenas;
  uint64_t batches = 0, biggest = 0, repushed = 0, sig = n, visible = 0;

  std::vector<std::thread> ts;
  for (unsigned p = 0; p < P.producers; ++p) {
    ts.emplace_back([&, p] {
      rng g(P.seed * 77 + p);
      pthread_barrier_wait(&bar);
      for (uint32_t i = 0; i < P.per; ++i) {
        size_t k = (size_t)p * P.per + i;
        extra[k] = mix(k ^ P.seed);
        node_t *nd = new node_t(Val{p, i, mix(k), &extra[k]});
        l.push(nd);
        completed[p].store(i + 1, std::memory_order_relaxed);
        progress();
        if (g.chance(1, 64)) {
          sched_yield();
        }
      }
      live.fetch_sub(1, std::memory_order_relaxed);
    });
  }

  rng g(P.seed);
  std::vector<node_t *> second; // nodes re-created by the consumer's callback, handed out a second time
  std::vector<uint32_t> again(n, 0);
  pthread_barrier_wait(&bar);
  for (bool last = false;;) {
    last = live.load(std::memory_order_relaxed) == 0;
    std::vector<uint32_t> lower(P.producers);
    for (unsigned p = 0; p < P.producers; ++p) {
      lower[p] = completed[p].load(std::memory_order_relaxed);
    }
    node_t *batch = l.try_pop_all();
    uint64_t in_batch = 0;
    std::set<node_t *> addresses;
    for_each_elem(batch, [&](Val &v) {
      ++in_batch;
      VH_CHECK(v.producer < P.producers && v.seq < P.per, "list-invented", "a batch contains a node nobody pushed");
      size_t k = (size_t)v.producer * P.per + v.seq;
      VH_CHECK(v.check == mix(k) && v.extra == &extra[k] && *v.extra == mix(k ^ P.seed), "list-payload-invisible",
               "the consumer does not see what producer %u wrote before its push %u", v.producer, v.seq);
      if (v.owner_marks == 0) {
        VH_CHECK(seen[k] == 0, "list-twice", "push %u of producer %u was handed out twice", v.seq, v.producer);
        seen[k] = 1;
        VH_CHECK(v.seq == next[v.producer], "list-order", "push %u of producer %u came out while %u was due", v.seq,
                 v.producer, next[v.producer]);
        ++next[v.producer];
        sig = hcombine(sig, v.producer);
      } else {
        VH_CHECK(again[k] == 1, "list-twice", "a re-pushed node was handed out %s",
                 again[k] ? "twice" : "without having been pushed");
        again[k] = 2;
      }
      // The callback may destroy the node or reuse its memory for a new node.
      Val copy = v;
      // node is standard layout enough for us: unwrap(node) == &v
      node_t *nd = nullptr;
      {
        // find the node address through the public interface: unwrap is the inverse map of a node pointer
        nd = (node_t *)(void *)((char *)&v - ((char *)&unwrap((node_t *)256) - (char *)256));
      }
      nd->~node_t();
      if (repush && copy.owner_marks == 0 && g.chance(1, 3)) {
        copy.owner_marks = 1;
        again[(size_t)copy.producer * P.per + copy.seq] = 1;
        ++repushed;
        node_t *fresh = new ((void *)nd) node_t(copy); // the same memory, a new node
        l.push(fresh);
      } else if (heap_nodes) {
        ::operator delete((void *)nd);
      } else {
        memset((void *)nd, 0xEE, sizeof(node_t));
        arenas.emplace_back((char *)nd); // freed at the end
      }
    });
    if (in_batch) {
      ++batches;
      biggest = std::max(biggest, in_batch);
      sig = hcombine(sig, in_batch);
    }
    for (unsigned p = 0; p < P.producers; ++p) {
      // In this test the producers' flag is relaxed, but on every real machine a push that returned before the
      // pop-all started (observed through the flag) precedes it: exchange reads the latest value.
      VH_CHECK(next[p] >= lower[p], "list-missed", "%u pushes of producer %u had returned, the pop-all gave %u", lower[p],
               p, next[p]);
      visible += lower[p] != 0;
    }
    if (last && in_batch == 0) {
      break;
    }
    if (g.chance(1, 8)) {
      sched_yield();
    } else if (g.chance(1, 16)) {
      timespec t{0, (long)g.below(30000)};
      nanosleep(&t, nullptr);
    }
  }
  for (auto &t : ts) {
    t.join();
  }
  VH_CHECK(l.try_pop_all() == nullptr, "list-invented", "a drained list is not empty");
  for (size_t k = 0; k < n; ++k) {
    VH_CHECK(seen[k] == 1, "list-lost", "push %zu of producer %zu never came out", k % P.per, k / P.per);
    VH_CHECK(again[k] != 1, "list-lost", "a re-pushed node never came out");
  }
  for (auto &a : arenas) {
    ::operator delete((void *)a.release());
  }
  pthread_barrier_destroy(&bar);
  for_each_elem((node_t *)nullptr, [](Val &) {
    fail("list-invented", "iterating a null batch calls the function");
  });
  count("pushes", (double)n);
  count("batches", (double)batches);
  count("nodes_reused_in_callback", (double)repushed);
  count("visibility_checks", (double)visible);
  count_max("max.batch", (double)biggest);
  evaluation();
  distinct(sig);
  static int samples = 0;
  if (samples++ % 29 == 0) {
    sample(std::to_string(P.producers) + " producers, " + std::to_string(n) + " pushes came out in " +
           std::to_string(batches) + " batches (largest " + std::to_string(biggest) + "), " + std::to_string(repushed) +
           " nodes re-created and pushed from the callback");
  }
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int rounds = (int)arg("rounds", 150), rate = (int)arg("rate", -1);
  rng g(seed);
  for (int i = 0; i < rounds; ++i) {
    Params P;
    P.producers = (unsigned)g.range(1, 7);
    P.per = (uint32_t)g.range(1, (int)arg("per", 1500));
    P.style = (unsigned)g.below(4);
    P.seed = g.u64();
    static constexpr int rates[] = {0, 0, 1000, 100, 20};
    unsigned rt = rate >= 0 ? (unsigned)rate : (unsigned)rates[g.below(5)];
    if (rt && rt < 500) {
      P.per = 1 + P.per / 6;
    }
    set_delays(g.u64(), rt, (unsigned)g.below(3));
    set_case("seed=%llu round=%d producers=%u per=%u style=%u rate=%u", (unsigned long long)seed, i, P.producers, P.per,
             P.style, rt);
    watch w;
    round(P);
  }
  finish();
}
