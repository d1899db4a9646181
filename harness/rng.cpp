// C23: lf::xoshiro against an independent reference: the published recurrence for single steps and GF(2) matrix powers
// of that recurrence for the jumps.
#include "common.hpp"

#include <libfork.hpp>

using namespace vh;
using State = std::array<uint64_t, 4>;

// ---------------------------------------------------------------- reference

// State vector: bit b of word w is coordinate 64 w + b.  Written bit-wise on purpose (no shared idiom with the library).
static bool bit(State const &s, int i) { return s[(size_t)i / 64] >> (i % 64) & 1; }
static void flip(State &s, int i) { s[(size_t)i / 64] ^= uint64_t{1} << (i % 64); }

static State ref_next(State const &s) {
  State r{};
  for (int b = 0; b < 64; ++b) {
    bool s0 = bit(s, b), s1 = bit(s, 64 + b), s2 = bit(s, 128 + b), s3 = bit(s, 192 + b);
    bool t = b >= 17 && bit(s, 64 + b - 17); // s1 << 17
    // s2 ^= s0; s3 ^= s1; s1 ^= s2; s0 ^= s3; s2 ^= t; s3 = rotl(s3, 45)
    if (s0 ^ s3 ^ s1) flip(r, b);
    if (s1 ^ s2 ^ s0) flip(r, 64 + b);
    if (s2 ^ s0 ^ t) flip(r, 128 + b);
    if (s3 ^ s1) flip(r, 192 + (b + 45) % 64);
  }
  return r;
}
static uint64_t ref_out(State const &s) {
  unsigned __int128 x = (unsigned __int128)s[1] * 5;
  uint64_t y = (uint64_t)x, z = 0;
  for (int b = 0; b < 64; ++b) {
    if (y >> b & 1) z |= uint64_t{1} << (b + 7) % 64;
  }
  return z + (z << 3);
}
// s[1] of the state that produced an output (the scrambler is a bijection).
static uint64_t unscramble(uint64_t out) {
  auto inv = [](uint64_t a) {
    uint64_t x = a;
    for (int i = 0; i < 6; ++i) x *= 2 - a * x;
    return x;
  };
  uint64_t z = out * inv(9), y = 0;
  for (int b = 0; b < 64; ++b) {
    if (z >> (b + 7) % 64 & 1) y |= uint64_t{1} << b;
  }
  return y * inv(5);
}

struct Matrix {
  std::vector<State> col = std::vector<State>(256); // image of basis vector i
  State apply(State const &s) const {
    State r{};
    for (int i = 0; i < 256; ++i) {
      if (bit(s, i)) {
        for (int w = 0; w < 4; ++w) r[(size_t)w] ^= col[(size_t)i][(size_t)w];
      }
    }
    return r;
  }
  Matrix squared() const {
    Matrix m;
    for (size_t i = 0; i < 256; ++i) m.col[i] = apply(col[i]);
    return m;
  }
};

// Solves for the state from four consecutive outputs, so that generators with an unknown state can be judged too.
struct Solver {
  // Row r: the coordinates of the state that give observed bit r.
  std::vector<std::array<State, 2>> red; // (pivot row combination, combination of observations), reduced
  std::vector<int> pivot;
  explicit Solver(Matrix const &step) {
    std::vector<State> rows;
    Matrix pw;
    for (int i = 0; i < 256; ++i) {
      State e{};
      flip(e, i);
      pw.col[(size_t)i] = e;
    }
    for (int t = 0; t < 4; ++t) {
      for (int b = 0; b < 64; ++b) {
        State row{};
        for (int i = 0; i < 256; ++i) {
          if (bit(pw.col[(size_t)i], 64 + b)) flip(row, i);
        }
        rows.push_back(row);
      }
      Matrix nx;
      for (size_t i = 0; i < 256; ++i) nx.col[i] = step.apply(pw.col[i]);
      pw = nx;
    }
    for (int r = 0; r < 256; ++r) {
      State a = rows[(size_t)r], o{};
      flip(o, r);
      for (size_t k = 0; k < red.size(); ++k) {
        if (bit(a, pivot[k])) {
          for (size_t w = 0; w < 4; ++w) a[w] ^= red[k][0][w], o[w] ^= red[k][1][w];
        }
      }
      int p = 0;
      while (p < 256 && !bit(a, p)) ++p;
      if (p == 256) continue;
      for (auto &q : red) {
        if (bit(q[0], p)) {
          for (size_t w = 0; w < 4; ++w) q[0][w] ^= a[w], q[1][w] ^= o[w];
        }
      }
      red.push_back({a, o});
      pivot.push_back(p);
    }
    if (red.size() != 256) {
      fail("harness-solver", "state not determined by four outputs");
    }
  }
  State solve(State const &obs) const {
    State s{};
    for (size_t k = 0; k < red.size(); ++k) {
      int par = 0;
      for (size_t w = 0; w < 4; ++w) par ^= __builtin_parityll(red[k][1][w] & obs[w]);
      if (par) flip(s, pivot[k]);
    }
    return s;
  }
};

static void expect_stream(lf::xoshiro g, State s, int n, char const *key, char const *what) {
  for (int i = 0; i < n; ++i) {
    uint64_t got = g(), want = ref_out(s);
    VH_CHECK(got == want, key, "%s: output %d is %016llx, the reference gives %016llx", what, i,
             (unsigned long long)got, (unsigned long long)want);
    s = ref_next(s);
  }
}

// The state of a generator (by observing a copy).
static State state_of(Solver const &sv, lf::xoshiro g) {
  State obs{};
  for (auto &w : obs) w = unscramble(g());
  return sv.solve(obs);
}

// A generator with a small odd range, to exercise seeding.
struct Tiny {
  using result_type = uint32_t;
  rng g;
  uint64_t calls = 0;
  explicit Tiny(uint64_t s) : g(s) {}
  static constexpr uint32_t min() { return 3; }
  static constexpr uint32_t max() { return 12; }
  uint32_t operator()() {
    ++calls;
    return 3 + (uint32_t)g.below(10);
  }
};

constexpr std::array<uint64_t, 8> compile_time() {
  lf::xoshiro g{State{1, 2, 3, 4}};
  std::array<uint64_t, 8> r{};
  for (size_t i = 0; i < 4; ++i) r[i] = g();
  g.jump();
  r[4] = g();
  lf::xoshiro h = g;
  h.long_jump();
  r[5] = h();
  r[6] = g();
  lf::xoshiro d;
  r[7] = d();
  return r;
}
constexpr auto c_values = compile_time();

static_assert(std::uniform_random_bit_generator<lf::xoshiro>);
static_assert(std::same_as<lf::xoshiro::result_type, uint64_t>);

template <class F>
static void seeding(Solver const &sv, char const *name, F make, uint64_t seed) {
  State ones{}, zeros{};
  for (uint64_t k = 0; k < 96; ++k) {
    set_case("seed=%llu seeding from %s #%llu", (unsigned long long)seed, name, (unsigned long long)k);
    auto p = make(hcombine(seed, k)), q = p, untouched = p;
    lf::xoshiro a{lf::seed, p}, b{lf::seed, q};
    State sa = state_of(sv, a);
    expect_stream(a, sa, 40, "seeded-stream", "seeded generator");
    expect_stream(b, sa, 40, "equal-seeds", "generator seeded from an equal source");
    VH_CHECK(sa != State{}, "zero-state", "seeding produced the all zero state");
    // The source is used, not a copy of it: a second generator differs.
    lf::xoshiro c{lf::seed, p};
    VH_CHECK(state_of(sv, c) != sa, "source-not-advanced", "seeding twice from one source gives the same stream");
    lf::xoshiro d{lf::seed, std::move(untouched)};
    VH_CHECK(state_of(sv, d) == sa, "equal-seeds", "seeding from an rvalue differs from seeding from an lvalue");
    for (size_t w = 0; w < 4; ++w) ones[w] |= sa[w], zeros[w] |= ~sa[w];
    evaluation();
    count("seedings");
  }
  for (size_t w = 0; w < 4; ++w) {
    VH_CHECK(~ones[w] == 0 && ~zeros[w] == 0, "seed-bits", "word %zu: bits that never vary over 96 seeds: %016llx", w,
             (unsigned long long)(~ones[w] | ~zeros[w]));
  }
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  uint64_t seed = (uint64_t)arg("seed", 1);
  int states = (int)arg("states", 200);
  int len = (int)arg("len", 300);
  rng g(seed);

  VH_CHECK(lf::xoshiro::min() == 0 && lf::xoshiro::max() == UINT64_MAX, "range", "declared range is [%llu, %llu]",
           (unsigned long long)lf::xoshiro::min(), (unsigned long long)lf::xoshiro::max());

  Matrix step;
  for (int i = 0; i < 256; ++i) {
    State e{};
    flip(e, i);
    step.col[(size_t)i] = ref_next(e);
  }
  Matrix p = step;
  for (int i = 0; i < 128; ++i) p = p.squared();
  Matrix j128 = p;
  for (int i = 128; i < 192; ++i) p = p.squared();
  Matrix j192 = p;
  Solver sv(step);

  auto one = [&](State s, int n) {
    set_case("state %016llx %016llx %016llx %016llx", (unsigned long long)s[0], (unsigned long long)s[1],
             (unsigned long long)s[2], (unsigned long long)s[3]);
    lf::xoshiro x{s};
    expect_stream(x, s, n, "sequence", "stream");
    lf::xoshiro a = x;
    a.jump();
    expect_stream(a, j128.apply(s), 8, "jump", "after jump");
    lf::xoshiro b = x;
    b.long_jump();
    expect_stream(b, j192.apply(s), 8, "long-jump", "after long_jump");
    expect_stream(x, s, 8, "copies", "original after its copies jumped");
    // Mixtures of steps, jumps and copies.
    lf::xoshiro y = x;
    State t = s;
    unsigned ops = 0;
    for (int k = 0; k < 6; ++k) {
      switch (g.below(5)) {
        case 0:
          y.jump();
          t = j128.apply(t);
          break;
        case 1:
          y.long_jump();
          t = j192.apply(t);
          break;
        case 2: {
          lf::xoshiro z{};
          z = y;
          (void)z();
          z.jump();
          lf::xoshiro w = std::move(y);
          y = w;
          break;
        }
        default:
          for (uint64_t q = g.below(9); q; --q) {
            uint64_t got = y();
            VH_CHECK(got == ref_out(t), "sequence", "within a mixture of jumps");
            t = ref_next(t);
          }
      }
      ++ops;
    }
    expect_stream(y, t, 8, "mixture", "after a mixture of steps, jumps and copies");
    evaluation();
    distinct(hcombine(hcombine(s[0], s[1]), hcombine(s[2], s[3])));
    count("outputs_compared", n + 40);
    count("jumps_compared", 2);
    count("operations", ops);
  };

  // A basis: stepping and jumping are linear over GF(2), so these states determine all others.
  for (int i = 0; i < 256; ++i) {
    State e{};
    flip(e, i);
    one(e, len);
    count("basis_states");
  }
  for (int i = 0; i < states; ++i) {
    State s;
    for (auto &w : s) {
      switch (g.below(6)) {
        case 0: w = 0; break;
        case 1: w = UINT64_MAX; break;
        case 2: w = uint64_t{1} << g.below(64); break;
        default: w = g.u64();
      }
    }
    if (s == State{}) {
      s[g.below(4)] = 1;
    }
    one(s, i % 50 == 0 ? 20 * len : len);
    if (i < 3) {
      sample(g_case);
    }
  }

  // Default construction: a fixed non-zero state.
  {
    set_case("default constructed");
    lf::xoshiro a, b{};
    State s = state_of(sv, a);
    VH_CHECK(s != State{}, "default-state", "all zero");
    VH_CHECK(state_of(sv, b) == s, "default-state", "two default constructed generators differ");
    one(s, len);
    expect_stream(a, s, len, "sequence", "default constructed");
  }
  // Compile time evaluation agrees with run time.
  {
    set_case("compile time");
    State s{1, 2, 3, 4};
    for (size_t i = 0; i < 4; ++i) {
      VH_CHECK(c_values[i] == ref_out(s), "constexpr", "output %zu", i);
      s = ref_next(s);
    }
    s = j128.apply(s);
    VH_CHECK(c_values[4] == ref_out(s), "constexpr", "after jump");
    s = ref_next(s);
    VH_CHECK(c_values[5] == ref_out(j192.apply(s)), "constexpr", "after long_jump");
    VH_CHECK(c_values[6] == ref_out(s), "constexpr", "copy not independent");
    VH_CHECK(c_values[7] == lf::xoshiro{}(), "constexpr", "default state");
  }
  // Generators separated by (long) jumps have different states, hence (by the period) disjoint stretches.
  {
    set_case("separation");
    lf::xoshiro x{State{g.u64(), g.u64(), g.u64(), g.u64() | 1}};
    std::set<State> seen;
    for (int i = 0; i < 256; ++i) {
      lf::xoshiro y = x;
      for (int k = 0; k < 4; ++k) {
        VH_CHECK(seen.insert(state_of(sv, y)).second, "separation", "two sub-streams start in the same state");
        y.jump();
      }
      x.long_jump();
      count("separated_streams", 4);
    }
  }
  seeding(sv, "std::mt19937", [](uint64_t s) { return std::mt19937((unsigned)s); }, seed);
  seeding(sv, "std::mt19937_64", [](uint64_t s) { return std::mt19937_64(s); }, seed);
  seeding(sv, "std::minstd_rand", [](uint64_t s) { return std::minstd_rand((unsigned)s); }, seed);
  seeding(sv, "std::ranlux24", [](uint64_t s) { return std::ranlux24((unsigned)s); }, seed);
  seeding(sv, "a generator of range [3, 12]", [](uint64_t s) { return Tiny(s); }, seed);
  seeding(sv, "lf::xoshiro", [](uint64_t s) { return lf::xoshiro(State{mix(s), mix(s + 1), mix(s + 2), mix(s + 3)}); }, seed);

  // Usable with <random>: full range outputs, unbiased buckets (a very loose bound).
  {
    set_case("distribution");
    lf::xoshiro x{lf::seed, std::mt19937(7)};
    uint64_t o = 0, z = 0;
    std::array<int, 16> bucket{};
    std::uniform_int_distribution<int> d(0, 15);
    for (int i = 0; i < 16000; ++i) {
      uint64_t v = x();
      o |= v, z |= ~v;
      ++bucket[(size_t)d(x)];
    }
    VH_CHECK(~o == 0 && ~z == 0, "range", "bits that never vary");
    for (int b : bucket) {
      VH_CHECK(b > 700 && b < 1300, "distribution", "bucket with %d of 16000", b);
    }
    std::vector<int> v(100);
    std::iota(v.begin(), v.end(), 0);
    auto w = v;
    std::shuffle(v.begin(), v.end(), x);
    VH_CHECK(v != w && std::is_permutation(v.begin(), v.end(), w.begin()), "shuffle", "std::shuffle");
  }
  finish();
}
