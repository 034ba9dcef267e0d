// C14 all-but-one transfer, C16 single-point sharing, C17 multi-point sharing,
// C18 scalar-vector product: both parties' real code on one network; every
// operation sequence within bounds, outputs against the functionality.
#include "checks/ops.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) {
  if (!mc::shard_owns(g_idx++) || !mc::want(id)) return false;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  return true;
}
// Calls f<T>(mod, weight) for every type; weight 0 for the ones that get the
// full grid.
template <typename F> void each_type(F f) {
  f(a128(), Mod{}, 0);
  f(NTL::ZZ_p(), Mod{61, -1}, 0);
  f(uint8_t(), Mod{}, 1);
  f(uint64_t(), Mod{}, 1);
  f(gf128(), Mod{}, 1);
  f(NTL::zz_p(), Mod{30, -35}, 1);
  f(NTL::ZZ_p(), Mod{127, -1}, 1);
  f(NTL::ZZ_p(), Mod{128, -159}, 1);
  f(uint16_t(), Mod{}, 2);
  f(uint32_t(), Mod{}, 2);
  f(NTL::ZZ_p(), Mod{1, 1}, 2);
  f(NTL::ZZ_p(), Mod{8, 1}, 2);
  f(NTL::ZZ_p(), Mod{64, 13}, 2);
  f(NTL::ZZ_p(), Mod{80, -65}, 2);
  f(NTL::zz_p(), Mod{1, 1}, 2);
  f(NTL::zz_p(), Mod{59, -55}, 2);
}
// All batches of up to n vectors with lengths from `lens`.
static std::vector<std::vector<int64_t>> batches(const std::vector<int64_t>& lens, size_t n) {
  std::vector<std::vector<int64_t>> all{{}}, cur{{}};
  for (size_t k = 0; k < n; k++) {
    std::vector<std::vector<int64_t>> next;
    for (auto& b : cur) for (int64_t l : lens) { auto x = b; x.push_back(l); next.push_back(x); }
    all.insert(all.end(), next.begin(), next.end());
    cur = next;
  }
  return all;
}
// All tuples of in-range indices for the lengths; the index for an empty vector
// is ignored.
static std::vector<std::vector<int64_t>> index_tuples(const std::vector<int64_t>& len) {
  static const int64_t ignored[] = {0, -1, 1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), 7};
  size_t k = 0;
  for (int64_t l : len) k += l;
  std::vector<std::vector<int64_t>> cur{{}};
  for (int64_t l : len) {
    std::vector<std::vector<int64_t>> next;
    for (auto& b : cur) for (int64_t i = 0; i < std::max<int64_t>(l, 1); i++) { auto x = b; x.push_back(l ? i : ignored[k++ % 6]); next.push_back(x); }
    cur = next;
  }
  return cur;
}
static const std::vector<int64_t>& big_lengths() {
  static std::vector<int64_t> v;
  if (v.empty())
    for (int k = 7; k <= (mc::thorough() ? 16 : 12); k++)
      for (int d : {-1, 0, 1}) v.push_back((1 << k) + d);
  return v;
}
static std::vector<int64_t> boundary_indices(int64_t n) {
  std::set<int64_t> s;
  for (int64_t i : {(int64_t)0, (int64_t)1, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n / 3}) if (i >= 0 && i < n) s.insert(i);
  int64_t p = 1;
  while (p * 2 < n) p *= 2;
  for (int64_t i : {p - 1, p, p + 1}) if (i >= 0 && i < n) s.insert(i);
  return std::vector<int64_t>(s.begin(), s.end());
}

// Lengths that need more than 16 bits.
static const std::vector<int64_t>& wide_lengths() {
  static std::vector<int64_t> v;
  if (v.empty()) {
    v = {65535, 65536, 65537, 70001, 131073};
    if (mc::thorough()) for (int64_t n : {98304, 262143, 262145, 1048577}) v.push_back(n);
  }
  return v;
}
static std::vector<int64_t> wide_indices(int64_t n) {
  std::set<int64_t> s;
  for (int64_t i : {(int64_t)0, (int64_t)32767, (int64_t)32768, (int64_t)65535, (int64_t)65536, (int64_t)65537, n - 1}) if (i < n) s.insert(i);
  return std::vector<int64_t>(s.begin(), s.end());
}

// Batches of many vectors.
static std::vector<std::vector<int64_t>> many() {
  std::vector<std::vector<int64_t>> v;
  std::vector<int> counts;
  for (int n = 4; n <= (mc::thorough() ? 130 : 40); n++) counts.push_back(n);
  for (int n : {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}) counts.push_back(n);
  if (mc::thorough()) for (int n : {511, 512, 513, 1000, 1023, 1024, 1025, 2000}) counts.push_back(n);
  for (int n : counts)
    for (std::vector<int64_t> pat : {std::vector<int64_t>{1}, {3}, {0, 1}, {2, 0, 5, 1}, {1, 2, 3, 4, 5, 6, 7}}) {
      std::vector<int64_t> l;
      for (int i = 0; i < n; i++) l.push_back(pat[i % pat.size()]);
      v.push_back(l);
    }
  return v;
}

#if PROP == 14
// Values of the sender within one session: full-width values never repeat, and
// no bit of the type is constant.
template <typename T>
static void fresh(const std::vector<RotOp>& ops, const std::vector<std::array<Vecs<T>, 2>>& out, const Mod& m) {
  std::set<u128> seen;
  u128 any = 0, all = ~(u128)0, top = order_minus_1<T>(m);
  size_t n = 0;
  bool wide = top >> 100;
  for (size_t i = 0; i < ops.size(); i++)
    for (auto& v : out[i][0])
      for (auto& x : v) {
        if (wide && !seen.insert(val(x)).second) mc::violation("the sender's value %s occurs twice (operation %zu)", show(x).c_str(), i);
        any |= val(x);
        all &= val(x);
        n++;
      }
  if (n < 200 || (is_mod<T>::value && m.add >= 0)) return;
  u128 mask = 0;
  while (mask < top) mask = mask << 1 | 1;
  MC_CHECK((any & mask) == mask && (all & mask) == 0, "among %zu values of the sender the bits %s never vary", n, hex(mask & ~(any & ~all)).c_str());
}
template <typename T> static void grid(const Mod& m, int weight) {
  typedef Rot<T> P;
  install<T>(m);
  std::string ty = full_name<T>(m);
  auto confs = all_confs();
  if (weight) confs = {confs[0], confs[7]};
  // Every length and index; each session runs all indices of one length, with
  // alternating directions on the same objects.
  int64_t L = mc::thorough() ? (weight ? 70 : 130) : (weight == 0 ? 40 : weight == 1 ? 34 : 18);
  for (auto& c : confs)
    for (int64_t n = 0; n <= L; n++) {
      if (!take(strf("%s %s single length %ld", ty.c_str(), conf_name(c).c_str(), (long)n))) continue;
      std::vector<RotOp> ops;
      for (int64_t i = 0; i < std::max<int64_t>(n, 1); i++) { RotOp o; o.len = {n}; o.idx = {n ? i : -3}; o.single = true; o.dir = (i / 2) % 2; ops.push_back(o); }
      fresh<T>(ops, run_ops<P, T>(c, m, ops), m);
    }
  // Batches: all length tuples and all index tuples.
  std::vector<int64_t> lens = weight == 0 ? std::vector<int64_t>{0, 1, 2, 3, 5} : std::vector<int64_t>{0, 1, 3, 4};
  if (mc::thorough()) lens.push_back(9);
  for (auto& c : confs)
    for (auto& b : batches(lens, weight == 2 ? 2 : 3)) {
      if (!take(strf("%s %s batch %s", ty.c_str(), conf_name(c).c_str(), show(b).c_str()))) continue;
      std::vector<RotOp> ops;
      for (auto& ix : index_tuples(b)) { RotOp o; o.len = b; o.idx = ix; o.dir = ops.size() % 3 == 2; ops.push_back(o); }
      fresh<T>(ops, run_ops<P, T>(c, m, ops), m);
    }
  size_t b = 0;
  for (auto& l : many()) {
    b++;
    if (weight && (weight == 2 || b % 5)) continue;
    if (!take(strf("%s many %zu: %s", ty.c_str(), l.size(), show(std::vector<int64_t>(l.begin(), l.begin() + 4)).c_str()))) continue;
    std::vector<RotOp> ops;
    for (int r = 0; r < 2; r++) { RotOp o; o.len = l; o.dir = r; for (size_t i = 0; i < l.size(); i++) o.idx.push_back(l[i] ? (i + b + r) % l[i] : 0); ops.push_back(o); }
    fresh<T>(ops, run_ops<P, T>(confs[b % confs.size()], m, ops), m);
  }
  // Sequences of operations of different shapes on the same objects.
  std::vector<RotOp> alpha;
  for (int d = 0; d < 2; d++) {
    RotOp o;
    o.dir = d;
    o.len = {6}; o.idx = {5}; o.single = true; alpha.push_back(o);
    o.single = false;
    o.len = {4, 0, 9}; o.idx = {0, 0, 8}; alpha.push_back(o);
    o.len = {}; o.idx = {}; alpha.push_back(o);
    o.len = {0, 0}; o.idx = {0, -1}; alpha.push_back(o);
    o.len = {1, 1, 1, 2}; o.idx = {0, 0, 0, 1}; alpha.push_back(o);
  }
  int depth = mc::thorough() && weight == 0 ? 4 : 3;
  if (weight) depth = 2;
  uint64_t total = 1;
  for (int i = 0; i < depth; i++) total *= alpha.size();
  for (uint64_t q = 0; q < total; q++) {
    if (!take(strf("%s sequence %lu", ty.c_str(), q))) continue;
    std::vector<RotOp> ops;
    uint64_t y = q;
    for (int i = 0; i < depth; i++) { ops.push_back(alpha[y % alpha.size()]); y /= alpha.size(); }
    fresh<T>(ops, run_ops<P, T>(confs[q % confs.size()], m, ops), m);
  }
  if (weight < 2)
    for (int64_t n : big_lengths()) {
      if (!take(strf("%s long %ld", ty.c_str(), (long)n))) continue;
      std::vector<RotOp> ops;
      for (int64_t i : boundary_indices(n)) { RotOp o; o.len = {n, 3, n / 2}; o.idx = {i, 1, i / 2 % (n / 2)}; o.dir = i & 1; ops.push_back(o); }
      fresh<T>(ops, run_ops<P, T>(confs[n % confs.size()], m, ops), m);
    }
  if (weight == 0 || (weight == 1 && is_mod<T>::value))
    for (int64_t n : wide_lengths()) {
      if (!take(strf("%s wide %ld", ty.c_str(), (long)n))) continue;
      std::vector<RotOp> ops;
      for (int64_t i : wide_indices(n)) { RotOp o; o.len = {n}; o.idx = {i}; o.dir = i & 1; ops.push_back(o); }
      for (auto& o : ops) run_ops<P, T>(confs[(n + o.dir) % confs.size()], m, {o});
    }
}
#endif

#if PROP == 16
template <typename T> static void grid(const Mod& m, int weight) {
  typedef Spfss<T> P;
  install<T>(m);
  std::string ty = full_name<T>(m);
  auto confs = all_confs();
  if (weight) confs = {confs[0], confs[7]};
  int64_t L = mc::thorough() ? (weight ? 60 : 100) : (weight == 0 ? 34 : weight == 1 ? 18 : 10);
  for (auto& c : confs)
    for (int64_t n = 1; n <= L; n++) {
      if (!take(strf("%s %s single length %ld", ty.c_str(), conf_name(c).c_str(), (long)n))) continue;
      std::vector<SpfssOp> ops;
      for (int64_t i = 0; i < n; i++) { SpfssOp o; o.len = {n}; o.idx = {i}; o.api = 1 + i % 2; o.dir = (i / 2) % 2; o.k = i * 3 + n; ops.push_back(o); }
      run_ops<P, T>(c, m, ops);
    }
  // All pairs of boundary shares.
  for (int f = 0; f < 2; f++)
    for (int64_t n : {1, 2, 5}) {
      if (!take(strf("%s shares length %ld first %d", ty.c_str(), (long)n, f))) continue;
      std::vector<SpfssOp> ops;
      for (int64_t i = 0; i < 11 * 11 * 2; i++) { SpfssOp o; o.len = {n}; o.idx = {i % n}; o.api = 1; o.k = i; ops.push_back(o); }
      Conf c;
      c.first = f;
      run_ops<P, T>(c, m, ops);
    }
  std::vector<int64_t> lens = weight == 0 ? std::vector<int64_t>{0, 1, 2, 3, 5} : std::vector<int64_t>{0, 1, 3};
  if (mc::thorough()) lens.push_back(9);
  for (auto& c : confs)
    for (auto& b : batches(lens, weight == 2 ? 2 : 3)) {
      if (!take(strf("%s %s batch %s", ty.c_str(), conf_name(c).c_str(), show(b).c_str()))) continue;
      std::vector<SpfssOp> ops;
      for (auto& ix : index_tuples(b)) { SpfssOp o; o.len = b; o.idx = ix; o.dir = ops.size() % 3 == 2; o.k = ops.size(); ops.push_back(o); }
      run_ops<P, T>(c, m, ops);
    }
  size_t b = 0;
  for (auto& l : many()) {
    b++;
    if (weight && (weight == 2 || b % 5)) continue;
    if (!take(strf("%s many %zu: %s", ty.c_str(), l.size(), show(std::vector<int64_t>(l.begin(), l.begin() + 4)).c_str()))) continue;
    std::vector<SpfssOp> ops;
    for (int r = 0; r < 2; r++) { SpfssOp o; o.len = l; o.dir = r; o.k = b; for (size_t i = 0; i < l.size(); i++) o.idx.push_back(l[i] ? (i + b + r) % l[i] : 0); ops.push_back(o); }
    run_ops<P, T>(confs[b % confs.size()], m, ops);
  }
  std::vector<SpfssOp> alpha;
  for (int d = 0; d < 2; d++) {
    SpfssOp o;
    o.dir = d;
    o.len = {6}; o.idx = {5}; o.api = 1; o.k = 1; alpha.push_back(o);
    o.api = 0;
    o.len = {4, 0, 9}; o.idx = {0, 0, 8}; o.k = 17; alpha.push_back(o);
    o.len = {}; o.idx = {}; alpha.push_back(o);
    o.len = {0, 0}; o.idx = {0, -1}; alpha.push_back(o);
    o.len = {1, 1, 1, 2}; o.idx = {0, 0, 0, 1}; o.k = 30; alpha.push_back(o);
  }
  int depth = mc::thorough() && weight == 0 ? 4 : 3;
  if (weight) depth = 2;
  uint64_t total = 1;
  for (int i = 0; i < depth; i++) total *= alpha.size();
  for (uint64_t q = 0; q < total; q++) {
    if (!take(strf("%s sequence %lu", ty.c_str(), q))) continue;
    std::vector<SpfssOp> ops;
    uint64_t y = q;
    for (int i = 0; i < depth; i++) { ops.push_back(alpha[y % alpha.size()]); ops.back().k += i; y /= alpha.size(); }
    run_ops<P, T>(confs[q % confs.size()], m, ops);
  }
  if (weight < 2)
    for (int64_t n : big_lengths()) {
      if (!take(strf("%s long %ld", ty.c_str(), (long)n))) continue;
      std::vector<SpfssOp> ops;
      for (int64_t i : boundary_indices(n)) { SpfssOp o; o.len = {n, 3, n / 2}; o.idx = {i, 1, i / 2 % (n / 2)}; o.dir = i & 1; o.k = i; ops.push_back(o); }
      run_ops<P, T>(confs[n % confs.size()], m, ops);
    }
  if (weight == 0 || (weight == 1 && is_mod<T>::value))
    for (int64_t n : wide_lengths()) {
      if (!take(strf("%s wide %ld", ty.c_str(), (long)n))) continue;
      for (int64_t i : wide_indices(n)) { SpfssOp o; o.len = {2, n}; o.idx = {1, i}; o.dir = i & 1; o.k = i; run_ops<P, T>(confs[(n + i) % confs.size()], m, {o}); }
    }
}
#endif

#if PROP == 17
template <typename T> static void grid(const Mod& m, int weight) {
  typedef Mpfss<T> P;
  install<T>(m);
  std::string ty = full_name<T>(m);
  auto confs = all_confs();
  if (weight) confs = {confs[0], confs[7]};
  // Every ordered selection of distinct indices for short outputs.
  int64_t L = mc::thorough() ? (weight == 0 ? 5 : 4) : (weight == 0 ? 4 : weight == 1 ? 3 : 2);
  for (auto& c : confs)
    for (int64_t n = 1; n <= L; n++)
      for (int t = 1; t <= n; t++) {
        if (!take(strf("%s %s all selections of %d in %ld", ty.c_str(), conf_name(c).c_str(), t, (long)n))) continue;
        std::vector<MpfssOp> ops;
        uint64_t tot = 1;
        for (int i = 0; i < t; i++) tot *= n;
        for (uint64_t q = 0; q < tot; q++) {
          MpfssOp o;
          uint64_t y = q;
          for (int i = 0; i < t; i++) { o.idx.push_back(y % n); y /= n; }
          if (std::set<int64_t>(o.idx.begin(), o.idx.end()).size() != (size_t)t) continue;
          o.len = n; o.k = q * 5 + n; o.dir = q % 3 == 1;
          o.prep[0] = q % 2; o.prep[1] = (q / 2) % 2;
          ops.push_back(o);
        }
        run_ops<P, T>(c, m, ops);
      }
  // Longer outputs: boundary and spread selections, full selections, in
  // ascending, descending and mixed order.
  std::vector<int64_t> lens{7, 16, 33, 100};
  if (weight == 0) lens.push_back(1000);
  if (mc::thorough()) { lens.push_back(300); if (weight == 0) lens.push_back(20000); }
  for (int64_t n : lens)
    for (int64_t t : std::set<int64_t>{1, 2, n / 3, n - 1, n})
      for (int kind = 0; kind < 4; kind++) {
        if (t < 1 || t > 3000) continue;
        if (weight && n > 33 && t > 5 && !mc::thorough()) continue;
        if (!take(strf("%s length %ld points %ld order %d", ty.c_str(), (long)n, (long)t, kind))) continue;
        MpfssOp o;
        o.len = n;
        std::vector<int64_t> all(n);
        std::iota(all.begin(), all.end(), 0);
        if (kind == 1) std::reverse(all.begin(), all.end());
        if (kind >= 2) { mc::Rnd r(n * 10 + kind); for (int64_t i = n - 1; i > 0; i--) std::swap(all[i], all[r.below(i + 1)]); }
        o.idx.assign(all.begin(), all.begin() + t);
        o.k = n + kind;
        MpfssOp o2 = o;
        o2.dir = 1; o2.k++;
        run_ops<P, T>(confs[(n + t + kind) % confs.size()], m, {o, o2, o});
      }
  if (weight == 0 || (weight == 1 && is_mod<T>::value))
    for (int64_t n : wide_lengths()) {
      if (n > 300000 || !take(strf("%s wide %ld", ty.c_str(), (long)n))) continue;
      MpfssOp o;
      o.len = n;
      o.k = n;
      for (int64_t i : wide_indices(n)) o.idx.insert(o.idx.begin() + (i & 1) * (o.idx.size() / 2), i);
      run_ops<P, T>(confs[n % confs.size()], m, {o});
      MpfssOp many;
      many.len = n;
      many.dir = 1;
      for (int64_t i = 0; i < 300; i++) many.idx.push_back((i * 7919 + 65500) % n);
      if (std::set<int64_t>(many.idx.begin(), many.idx.end()).size() == 300) run_ops<P, T>(confs[(n + 1) % confs.size()], m, {many});
    }
  // Few points under many hash seeds: the layout must work for all of them.
  if (weight == 0 || m.bits == 1)
    for (int seed = 0; seed < (mc::thorough() ? 20000 : 1500); seed++) {
      if (!take(strf("%s seed %d", ty.c_str(), seed))) continue;
      MpfssOp a, b;
      a.len = 5; a.idx = {2, 0}; a.k = seed;
      b.len = 7; b.idx = {6, 1, 3, 4}; b.k = seed + 1; b.dir = 1;
      run_ops<P, T>(confs[seed % confs.size()], m, {a, b});
    }
  // Histories with changing shapes and preparations.
  std::vector<MpfssOp> alpha;
  for (int d = 0; d < 2; d++) {
    MpfssOp o;
    o.dir = d;
    o.len = 6; o.idx = {5, 0}; o.k = 2; alpha.push_back(o);
    o.len = 6; o.idx = {1, 4, 3}; o.k = 8; alpha.push_back(o);
    o.len = 9; o.idx = {8, 2}; o.k = 14; alpha.push_back(o);
    o.len = 9; o.idx = {8, 2}; o.k = 15; o.prep[0] = 2; o.prep[1] = 0; alpha.push_back(o);
    o.len = 6; o.idx = {5, 0}; o.k = 16; o.prep[0] = 1; o.prep[1] = 3; alpha.push_back(o);
    o.len = 6; o.idx = {0, 3}; o.k = 19; o.prep[0] = 4; o.prep[1] = 1; alpha.push_back(o);
  }
  int depth = mc::thorough() && weight == 0 ? 4 : 3;
  if (weight) depth = 2;
  uint64_t total = 1;
  for (int i = 0; i < depth; i++) total *= alpha.size();
  for (uint64_t q = 0; q < total; q++) {
    if (!take(strf("%s sequence %lu", ty.c_str(), q))) continue;
    std::vector<MpfssOp> ops;
    uint64_t y = q;
    for (int i = 0; i < depth; i++) { ops.push_back(alpha[y % alpha.size()]); ops.back().k += i; y /= alpha.size(); }
    run_ops<P, T>(confs[q % confs.size()], m, ops);
  }
}
#endif

#if PROP == 18
template <typename T> static void grid(const Mod& m, int weight) {
  typedef Gilboa<T> P;
  install<T>(m);
  std::string ty = full_name<T>(m);
  auto confs = all_confs();
  u128 top = order_minus_1<T>(m);
  auto pv = [&](uint64_t k) { return val(pattern<T>(m, k)); };
  // Masks of the transfer: pseudo random, all zeros, all ones, a single bit.
  for (int mask = 0; mask < 4; mask++) {
    for (double sec : {0.0, 40.0}) {
      std::string tail = strf(" masks %d security %g", mask, sec);
      if (mask) mc::ot_rng_hook = [mask](unsigned char* p, size_t n) { memset(p, mask == 1 ? 0 : mask == 2 ? 0xff : 0x80, n); return true; };
      else mc::ot_rng_hook = nullptr;
      // Every length around the packing boundaries, boundary scalars.
      int L = mc::thorough() ? 70 : weight == 0 ? 36 : 34;
      for (int n = 0; n <= L; n++) {
        if (weight && n > 6 && (n % 16 > 1 && n % 16 < 15) && !mc::thorough()) continue;
        if (!take(strf("%s length %d%s", ty.c_str(), n, tail.c_str()))) continue;
        std::vector<GilboaOp> ops;
        for (int k = 0; k < 11; k++) {
          GilboaOp o;
          o.x = pv(k);
          for (int i = 0; i < n; i++) o.y.push_back(pv(i + k));
          o.api = k % 2;
          o.dir = (k / 2) % 2;
          ops.push_back(o);
        }
        run_ops<P, T>(confs[(n + mask) % confs.size()], m, ops, sec);
      }
    }
    // All values of small types, all boundary pairs of the others.
    if (!take(strf("%s all pairs masks %d", ty.c_str(), mask))) continue;
    std::vector<u128> vs;
    if (top <= 256) for (u128 v = 0; v <= top; v++) vs.push_back(v);
    else {
      std::set<u128> s{0, 1, 2, 3, top, top - 1, top / 2, top / 2 + 1};
      for (int b = 0; b < 128; b++) for (u128 v : {(u128)1 << b, ((u128)1 << b) - 1}) if (v <= top) s.insert(v);
      vs.assign(s.begin(), s.end());
    }
    std::vector<GilboaOp> ops;
    size_t step = mc::thorough() || mask == 0 ? 1 : 7;
    for (size_t i = mask; i < vs.size(); i += step) { GilboaOp o; o.x = vs[i]; o.y = vs; ops.push_back(o); }
    run_ops<P, T>(confs[mask], m, ops);
  }
  mc::ot_rng_hook = nullptr;
  // All sequences of operations on the same objects, all configurations.
  std::vector<GilboaOp> alpha;
  for (int d = 0; d < 2; d++)
    for (int n : {0, 1, 3, 17}) { GilboaOp o; o.dir = d; o.x = pv(n + 1); for (int i = 0; i < n; i++) o.y.push_back(pv(i)); alpha.push_back(o); }
  int depth = weight == 0 ? (mc::thorough() ? 4 : 3) : 2;
  uint64_t total = 1;
  for (int i = 0; i < depth; i++) total *= alpha.size();
  for (uint64_t q = 0; q < total; q++) {
    if (!take(strf("%s sequence %lu", ty.c_str(), q))) continue;
    std::vector<GilboaOp> ops;
    uint64_t y = q;
    for (int i = 0; i < depth; i++) { ops.push_back(alpha[y % alpha.size()]); y /= alpha.size(); }
    run_ops<P, T>(confs[q % confs.size()], m, ops);
  }
  // Long vectors.
  for (int n : {1000, 4097, 32769, 65537, 70001}) {
    if (weight == 2 && n > 1000) continue;
    if (n > 5000 && top >> (mc::thorough() ? 64 : 8)) continue;
    if (!mc::thorough() && (n == 32769 || n == 65537)) continue;
    if (!take(strf("%s long %d", ty.c_str(), n))) continue;
    GilboaOp o;
    o.x = pv(1);
    for (int i = 0; i < n; i++) o.y.push_back(pv(i));
    GilboaOp o2 = o;
    o2.dir = 1; o2.x = pv(9); o2.api = 1;
    run_ops<P, T>(confs[n % confs.size()], m, {o, o2});
  }
}
#endif

// The same objects used for several types and under several moduli in turns.
#if PROP == 14
template <typename T> using Proto = Rot<T>;
static std::vector<RotOp> mixed_ops() {
  RotOp a, b, c;
  a.len = {5}; a.idx = {3}; a.single = true;
  b.len = {1, 9, 2}; b.idx = {0, 4, 1};
  c.len = {17, 4}; c.idx = {16, 0}; c.dir = 1;
  return {a, b, c};
}
#elif PROP == 16
template <typename T> using Proto = Spfss<T>;
static std::vector<SpfssOp> mixed_ops() {
  SpfssOp a, b, c;
  a.len = {5}; a.idx = {3}; a.api = 1; a.k = 20;
  b.len = {1, 9, 2}; b.idx = {0, 4, 1}; b.k = 8;
  c.len = {17, 4}; c.idx = {16, 0}; c.dir = 1; c.k = 42;
  return {a, b, c};
}
#elif PROP == 17
template <typename T> using Proto = Mpfss<T>;
static std::vector<MpfssOp> mixed_ops() {
  MpfssOp a, b, c;
  a.len = 7; a.idx = {3}; a.k = 20; a.prep[0] = 1;
  b.len = 30; b.idx = {0, 4, 29}; b.k = 8;
  c.len = 7; c.idx = {6, 1}; c.dir = 1; c.k = 42;
  return {a, b, c};
}
#elif PROP == 18
template <typename T> using Proto = Gilboa<T>;
static std::vector<GilboaOp> mixed_ops() {
  GilboaOp a, b, c;
  a.x = 77; a.y = {3};
  b.x = ~(u128)0 / 5; b.y = {0, 1, 4, 250, ~(u128)0 / 3}; b.api = 1;
  c.x = ((u128)1 << 120) - 3; c.dir = 1;
  for (int i = 0; i < 17; i++) c.y.push_back(((u128)mc::mix(i) << 64) | mc::mix(i + 99));
  return {a, b, c};
}
#endif
typedef Proto<a128>::Op MixOp;
typedef Proto<a128>::Obj MixObj;
struct Use {
  virtual ~Use() {}
  virtual void enter() = 0;
  virtual void run(MixObj& o, const MixOp& op, int role) = 0;
  virtual void check(const MixOp& op) = 0;
};
template <typename T> struct UseOf : Use {
  Mod m;
  typename Proto<T>::Out out[2];
  explicit UseOf(const Mod& m) : m(m) {}
  void enter() override { install<T>(m); }
  void run(MixObj& o, const MixOp& op, int role) override { Proto<T>::run(o, op, m, role, out[role]); }
  void check(const MixOp& op) override { Proto<T>::check(op, m, out); }
};
struct Kind { std::string name; std::function<std::unique_ptr<Use>()> make; };
template <typename T> static Kind kind(const Mod& m = Mod{}) { return {full_name<T>(m), [m] { return std::unique_ptr<Use>(new UseOf<T>(m)); }}; }
static void mixed() {
  std::vector<Kind> ks{kind<uint8_t>(), kind<uint64_t>(), kind<a128>(), kind<gf128>(), kind<NTL::ZZ_p>(Mod{8, 1}), kind<NTL::ZZ_p>(Mod{16, 1}), kind<NTL::ZZ_p>(Mod{61, -1}), kind<NTL::ZZ_p>(Mod{59, -55}),
                       kind<NTL::zz_p>(Mod{8, 1}), kind<NTL::zz_p>(Mod{16, 1}), kind<NTL::zz_p>(Mod{30, -35}), kind<NTL::zz_p>(Mod{59, -55})};
#if PROP == 18
  ks.push_back(kind<NTL::ZZ_p>(Mod{127, -1}));
  ks.push_back(kind<NTL::ZZ_p>(Mod{100, 277}));
  ks.push_back(kind<NTL::zz_p>(Mod{31, -1}));
#endif
  auto ops = mixed_ops();
  auto confs = all_confs();
  size_t K = ks.size();
  for (size_t a = 0; a < K; a++) for (size_t b = 0; b < K; b++) for (size_t c = 0; c < K; c++) {
    if (a == b && b == c) continue;
    if (!mc::thorough() && c != a && (a + b + c) % 4) continue;
    if (!take(strf("in turns %s, %s, %s", ks[a].name.c_str(), ks[b].name.c_str(), ks[c].name.c_str()))) continue;
    size_t w[] = {a, b, c, b, a};
    Conf cf = confs[(a + b + c) % confs.size()];
    Sess<a128> s(cf, Mod{});
    // Values are made and destroyed under the modulus they belong to.
    std::vector<std::unique_ptr<Use>> u;
    for (size_t k : w) { u.push_back(ks[k].make()); u.back()->enter(); }
    s.both([&](int party, mpc_utils::comm_channel& ch) {
      auto o = create<MixObj>(ch);
      for (size_t i = 0; i < u.size(); i++) {
        auto& op = ops[(i + a) % ops.size()];
        u[i]->enter();
        u[i]->run(*o, op, role_of(party, cf.first, op.dir));
      }
    });
    for (size_t i = 0; i < u.size(); i++) { u[i]->enter(); u[i]->check(ops[(i + a) % ops.size()]); }
    mc::report().evaluations++;
    mc::report().states += u.size();
  }
}

int main(int argc, char** argv) {
  mc::init(argc, argv, strf("C%d", PROP).c_str());
  mixed();
  each_type([](auto x, const Mod& m, int weight) { grid<decltype(x)>(m, weight); });
#if PROP == 18
  // Moduli that need the uncorrelated transfer, and those at size boundaries.
  for (Mod m : {Mod{88, -1}, Mod{100, 277}, Mod{127, 29}, Mod{126, 1}, Mod{120, -119}, Mod{112, -75}, Mod{96, -17}, Mod{72, -93}, Mod{63, 29}, Mod{56, -5}, Mod{40, 15}, Mod{24, 43},
                Mod{17, -1}, Mod{16, 1}, Mod{15, 3}, Mod{16, -15}, Mod{8, -5}, Mod{7, -1}, Mod{128, 0}})
    grid<NTL::ZZ_p>(m, 2);
  for (Mod m : {Mod{8, 1}, Mod{16, 1}, Mod{31, -1}, Mod{32, 15}, Mod{50, -27}, Mod{24, -3}}) grid<NTL::zz_p>(m, 2);
#endif
  mc::sample(strf("last case: %s", mc::current_case().c_str()));
  mc::finish();
}
