// numa_topology::split / distribute on generated topologies against an independent reading of the same topology.
#include "common.hpp"
#include <libfork.hpp>

using namespace vh;

struct Obj {
  uint64_t id;
};

#ifdef LF_USE_HWLOC

struct Topo {
  hwloc_topology_t t = nullptr;
  std::vector<hwloc_obj_t> pus;
  std::vector<hwloc_obj_t> packages;
  Topo() {
    VH_CHECK(hwloc_topology_init(&t) == 0 && hwloc_topology_load(t) == 0, "harness-topology", "cannot load");
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(t, HWLOC_OBJ_PU, o));) {
      pus.push_back(o);
    }
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(t, HWLOC_OBJ_PACKAGE, o));) {
      packages.push_back(o);
    }
  }
  Topo(Topo const &) = delete;
  ~Topo() { hwloc_topology_destroy(t); }
  hwloc_obj_t pu(unsigned os) const {
    for (auto *p : pus) {
      if (p->os_index == os) {
        return p;
      }
    }
    return nullptr;
  }
  // Two processing units share a memory domain iff they see the same set of NUMA nodes.
  static bool same_memory(hwloc_obj_t a, hwloc_obj_t b) { return hwloc_bitmap_isequal(a->nodeset, b->nodeset); }
  // The number of levels on which the two have a common ancestor: more means closer.
  static int closeness(hwloc_obj_t a, hwloc_obj_t b) {
    std::vector<hwloc_obj_t> x, y;
    for (auto *o = a; o; o = o->parent) {
      x.push_back(o);
    }
    for (auto *o = b; o; o = o->parent) {
      y.push_back(o);
    }
    int k = 0;
    while (!x.empty() && !y.empty() && x.back() == y.back()) {
      ++k;
      x.pop_back();
      y.pop_back();
    }
    return k;
  }
  unsigned cores_in(hwloc_obj_t p) const {
    return (unsigned)hwloc_get_nbobjs_inside_cpuset_by_type(t, p->cpuset, HWLOC_OBJ_CORE);
  }
};

static void check(Topo const &tp, std::string const &desc, size_t n, lf::numa_strategy strat, rng &g) {
  bool fan = strat == lf::numa_strategy::fan;
  lf::numa_topology topo;
  VH_CHECK(bool(topo), "no-topology", "the topology is empty");

  // ---- split
  auto hs = topo.split(n, strat);
  VH_CHECK(hs.size() == n, "split-size", "split(%zu) returned %zu handles", n, hs.size());
  std::vector<hwloc_obj_t> pu(n);
  std::map<hwloc_obj_t, size_t> used;
  for (size_t i = 0; i < n; ++i) {
    VH_CHECK(hs[i].topo && hs[i].cpup, "split-null", "handle %zu is empty", i);
    VH_CHECK(hwloc_bitmap_weight(hs[i].cpup.get()) == 1, "not-one-pu", "handle %zu names %d processing units", i,
             hwloc_bitmap_weight(hs[i].cpup.get()));
    pu[i] = tp.pu((unsigned)hwloc_bitmap_first(hs[i].cpup.get()));
    VH_CHECK(pu[i] != nullptr, "no-such-pu", "handle %zu names the processing unit %d which does not exist", i,
             hwloc_bitmap_first(hs[i].cpup.get()));
    ++used[pu[i]];
  }
  size_t P = tp.pus.size();
  if (n <= P) {
    VH_CHECK(used.size() == n, "pu-reused", "%zu handles share %zu of %zu processing units (%s)", n, used.size(), P,
             fan ? "fan" : "seq");
  } else if (fan) {
    VH_CHECK(used.size() == P, "pu-unused", "%zu handles use only %zu of %zu processing units", n, used.size(), P);
  }
  // Evenness below the root (fan) respectively packages in order, as few as have enough cores (seq).
  if (fan) {
    auto *root = hwloc_get_root_obj(tp.t);
    for (unsigned c = 0; c < root->arity; ++c) {
      size_t w = 0, k = 0;
      for (auto *p : tp.pus) {
        if (hwloc_bitmap_isincluded(p->cpuset, root->children[c]->cpuset)) {
          ++w;
          k += used.count(p) ? used[p] : 0;
        }
      }
      double want = double(n) * double(w) / double(P);
      VH_CHECK(double(k) > want - 1.0001 && double(k) < want + 1.0001, "uneven",
               "%zu of %zu handles are in child %u of the root which has %zu of %zu processing units", k, n, c, w, P);
    }
    size_t lo = ~0ull, hi = 0; // symmetric machines: no unit has two more than another
    for (auto *p : tp.pus) {
      lo = std::min(lo, used.count(p) ? used[p] : 0);
      hi = std::max(hi, used.count(p) ? used[p] : 0);
    }
    if (root->symmetric_subtree) {
      VH_CHECK(hi - lo <= 1, "uneven", "one processing unit is used %zu times, another %zu times", hi, lo);
    }
  } else if (!tp.packages.empty()) {
    unsigned cores = 0;
    size_t m = 0;
    hwloc_bitmap_t allowed = hwloc_bitmap_alloc();
    while (m < tp.packages.size() && cores < n) {
      cores += tp.cores_in(tp.packages[m]);
      hwloc_bitmap_or(allowed, allowed, tp.packages[m]->cpuset);
      ++m;
    }
    for (size_t i = 0; i < n; ++i) {
      VH_CHECK(hwloc_bitmap_isincluded(pu[i]->cpuset, allowed), "not-sequential",
               "seq with %zu workers uses a package beyond the first %zu", n, m);
    }
    hwloc_bitmap_free(allowed);
  }
  // ---- memory domains: dense, equal exactly when shared
  size_t maxd = 0;
  std::set<size_t> ds;
  for (size_t i = 0; i < n; ++i) {
    maxd = std::max(maxd, hs[i].numa);
    ds.insert(hs[i].numa);
    for (size_t j = 0; j < i; ++j) {
      VH_CHECK((hs[i].numa == hs[j].numa) == Topo::same_memory(pu[i], pu[j]), "numa-index",
               "handles %zu and %zu have the indices %zu and %zu but %s memory", i, j, hs[i].numa, hs[j].numa,
               Topo::same_memory(pu[i], pu[j]) ? "share their" : "do not share");
    }
  }
  VH_CHECK(ds.size() == maxd + 1, "numa-index", "the NUMA indices are not dense: %zu values up to %zu", ds.size(), maxd);

  // ---- distribute
  std::vector<std::shared_ptr<Obj>> data;
  for (size_t i = 0; i < n; ++i) {
    data.push_back(std::make_shared<Obj>(Obj{i}));
  }
  auto nodes = topo.distribute(data, strat);
  VH_CHECK(nodes.size() == n, "distribute-size", "distribute returned %zu nodes for %zu objects", nodes.size(), n);
  uint64_t shape = 0;
  for (size_t i = 0; i < n; ++i) {
    auto &nd = nodes[i];
    VH_CHECK(nd.cpup && hwloc_bitmap_weight(nd.cpup.get()) == 1, "not-one-pu", "node %zu names no single unit", i);
    auto *me = tp.pu((unsigned)hwloc_bitmap_first(nd.cpup.get()));
    VH_CHECK(me == pu[i] && nd.numa == hs[i].numa, "distribute-split", "node %zu differs from handle %zu", i, i);
    VH_CHECK(!nd.neighbors.empty() && nd.neighbors[0].size() == 1 && nd.neighbors[0][0] == data[i], "self-first",
             "the first group of node %zu is not the node itself", i);
    std::set<uint64_t> seen{i};
    int last = INT_MAX;
    for (size_t k = 1; k < nd.neighbors.size(); ++k) {
      VH_CHECK(!nd.neighbors[k].empty(), "empty-group", "group %zu of node %zu is empty", k, i);
      int c = -1;
      for (auto &o : nd.neighbors[k]) {
        VH_CHECK(o && o == data[o->id], "neighbour", "a neighbour of node %zu is no object of the input", i);
        VH_CHECK(seen.insert(o->id).second, "neighbour-twice", "object %llu appears twice for node %zu",
                 (unsigned long long)o->id, i);
        int d = Topo::closeness(pu[i], pu[o->id]);
        if (c == -1) {
          c = d;
          VH_CHECK(c < last, "group-order",
                   "group %zu of node %zu is not farther away than the one before it (common levels %d, then %d)", k, i,
                   last, c);
        }
        VH_CHECK(c == d, "group-mixed", "group %zu of node %zu mixes distances (common levels %d and %d)", k, i, c, d);
      }
      last = c;
      shape = hcombine(shape, nd.neighbors[k].size());
    }
    VH_CHECK(seen.size() == n, "neighbour-missing", "node %zu has %zu of %zu neighbours", i, seen.size() - 1, n - 1);
  }
  distinct(hcombine(hcombine(shape, n * 2 + fan), std::hash<std::string>{}(desc)));
  evaluation();
  count(fan ? "fan_distributions" : "seq_distributions");
  count_max("max_memory_domains", (double)ds.size());
  (void)g;
}

// hwloc's description language for symmetric machines.
static std::string gen_synthetic(rng &g) {
  std::string s;
  size_t total = 1;
  auto add = [&](char const *what, size_t k) {
    s += (s.empty() ? "" : " ") + std::string(what) + ":" + std::to_string(k);
    total *= k;
  };
  size_t cap = 96;
  auto k = [&](size_t hi) {
    return (size_t)g.range(1, (int64_t)std::min(hi, std::max<size_t>(cap / total, 1)));
  };
  unsigned numa_at = (unsigned)g.below(5);
  if (g.chance(1, 5)) {
    add("group", k(3));
  }
  if (numa_at == 0) {
    add("numa", k(4));
  }
  if (g.chance(4, 5)) {
    add("pack", k(4));
  }
  if (numa_at == 1) {
    add("numa", k(4));
  }
  if (g.chance(1, 3)) {
    add("l3", k(4));
  }
  if (numa_at == 2) {
    add("numa", k(3));
  }
  if (g.chance(1, 4)) {
    add("l2", k(3));
  }
  if (g.chance(5, 6)) {
    add("core", k(8));
  }
  add("pu", k(4));
  return s;
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int topologies = (int)arg("topologies", 100);
  rng g(seed);
  char xml[] = "vh-topology-XXXXXX.xml";
  int fd = mkstemps(xml, 4);
  VH_CHECK(fd >= 0, "harness-file", "no scratch file");
  close(fd);
  // The real machine first: handles must be usable for binding.
  {
    set_case("seed=%llu the real machine", (unsigned long long)seed);
    Topo tp;
    for (size_t n : {size_t(1), tp.pus.size(), 2 * tp.pus.size() + 1}) {
      check(tp, "real", n, lf::numa_strategy::fan, g);
      check(tp, "real", n, lf::numa_strategy::seq, g);
    }
    auto hs = lf::numa_topology{}.split(tp.pus.size());
    for (auto &h : hs) {
      std::thread([&] {
        cpu_set_t set;
        h.bind();
        CPU_ZERO(&set);
        VH_CHECK(sched_getaffinity(0, sizeof set, &set) == 0, "harness-affinity", "cannot read");
        VH_CHECK(CPU_COUNT(&set) == 1 && CPU_ISSET(hwloc_bitmap_first(h.cpup.get()), &set), "not-bound",
                 "bind() left the thread on %d units", CPU_COUNT(&set));
        count("bindings");
      }).join();
    }
  }
  for (int i = 0; i < topologies; ++i) {
    std::string desc = gen_synthetic(g);
    unsetenv("HWLOC_XMLFILE");
    setenv("HWLOC_SYNTHETIC", desc.c_str(), 1);
    bool irregular = g.chance(1, 2);
    if (irregular) { // remove some processing units
      hwloc_topology_t t = nullptr;
      hwloc_topology_init(&t);
      VH_CHECK(hwloc_topology_load(t) == 0, "harness-topology", "cannot load %s", desc.c_str());
      int P = hwloc_get_nbobjs_by_type(t, HWLOC_OBJ_PU);
      hwloc_bitmap_t keep = hwloc_bitmap_alloc();
      unsigned den = (unsigned)g.range(2, 6);
      for (int p = 0; p < P; ++p) {
        if (!g.chance(1, den)) {
          hwloc_bitmap_set(keep, hwloc_get_obj_by_type(t, HWLOC_OBJ_PU, (unsigned)p)->os_index);
        }
      }
      if (hwloc_bitmap_iszero(keep)) {
        hwloc_bitmap_set(keep, 0);
      }
      if (hwloc_topology_restrict(t, keep, g.chance(1, 2) ? HWLOC_RESTRICT_FLAG_REMOVE_CPULESS : 0ul) == 0 &&
          hwloc_topology_export_xml(t, xml, 0) == 0) {
        unsetenv("HWLOC_SYNTHETIC");
        setenv("HWLOC_XMLFILE", xml, 1);
        desc += " restricted";
        count("irregular_topologies");
      }
      hwloc_bitmap_free(keep);
      hwloc_topology_destroy(t);
    }
    Topo tp;
    count("topologies");
    count("processing_units", (double)tp.pus.size());
    if (tp.packages.empty()) {
      count("topologies_without_packages");
    }
    std::set<size_t> ns{1, tp.pus.size(), tp.pus.size() + 1};
    for (int k = 0; k < 5; ++k) {
      ns.insert((size_t)g.range(1, (int64_t)tp.pus.size() + 3));
    }
    for (size_t n : ns) {
      for (auto s : {lf::numa_strategy::fan, lf::numa_strategy::seq}) {
        set_case("seed=%llu topology %d \"%s\" (%zu units) n=%zu %s", (unsigned long long)seed, i, desc.c_str(),
                 tp.pus.size(), n, s == lf::numa_strategy::fan ? "fan" : "seq");
        try {
          check(tp, desc, n, s, g);
        } catch (std::exception const &e) {
          fail("exception", "distributing threw: %s", e.what());
        }
      }
    }
    if (i % 17 == 0) {
      sample(g_case);
    }
  }
  unlink(xml);
  finish();
}

#else

int main(int argc, char **argv) {
  vh::init(argc, argv);
  // Without hwloc there is one memory domain and no binding.
  lf::numa_topology topo;
  for (size_t n = 1; n < 40; ++n) {
    for (auto s : {lf::numa_strategy::fan, lf::numa_strategy::seq}) {
      set_case("no hwloc, n=%zu", n);
      auto hs = topo.split(n, s);
      VH_CHECK(hs.size() == n, "split-size", "%zu handles", hs.size());
      for (auto &h : hs) {
        VH_CHECK(h.numa == 0, "numa-index", "index %zu", h.numa);
        h.bind();
      }
      std::vector<std::shared_ptr<Obj>> data;
      for (size_t i = 0; i < n; ++i) {
        data.push_back(std::make_shared<Obj>(Obj{i}));
      }
      auto nodes = topo.distribute(data, s);
      VH_CHECK(nodes.size() == n, "distribute-size", "%zu nodes", nodes.size());
      for (size_t i = 0; i < n; ++i) {
        auto &nb = nodes[i].neighbors;
        VH_CHECK(nodes[i].numa == 0 && nb.size() == (n > 1 ? 2u : 1u), "groups", "%zu groups", nb.size());
        VH_CHECK(nb[0].size() == 1 && nb[0][0] == data[i], "self-first", "node %zu", i);
        if (n > 1) {
          std::set<uint64_t> ids{i};
          for (auto &o : nb[1]) {
            VH_CHECK(ids.insert(o->id).second, "neighbour-twice", "node %zu", i);
          }
          VH_CHECK(ids.size() == n && nb[1].size() == n - 1, "neighbour-missing", "node %zu", i);
        }
      }
      evaluation();
      distinct(n);
      count("distributions_without_hwloc");
    }
  }
  finish();
}
#endif
