// C25: what the parties exchange stays within the bounds the protocols promise.
#include "checks/vole.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) {
  if (!mc::shard_owns(g_idx++) || !mc::want(id)) return false;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  return true;
}
static Scaled g_sc;
static uint64_t n_free;

// What has been exchanged so far: oblivious transfers, and bytes sent other
// than by them.
struct Cost { uint64_t ots = 0, bytes[2] = {0, 0}; };
static Cost spent(const mc::Link& l) {
  Cost c;
  for (auto& o : l.ots) c.ots += o.choices.size();
  for (auto& m : l.log) if (!m.ot) c.bytes[m.from] += m.data.size();
  return c;
}
static Cost operator-(const Cost& a, const Cost& b) {
  Cost c;
  c.ots = a.ots - b.ots;
  for (int i = 0; i < 2; i++) c.bytes[i] = a.bytes[i] - b.bytes[i];
  return c;
}
static uint64_t clog2(int64_t n) { uint64_t k = 0; while (((int64_t)1 << k) < n) k++; return k; }

// Runs operations of one protocol; what(i, cost, role-0 party) judges each.
template <typename P, typename T, typename F>
static void costs(const Conf& c, const Mod& m, const std::vector<typename P::Op>& ops, F judge) {
  Sess<T> s(c, m);
  std::vector<Cost> at(ops.size() + 1);
  std::vector<std::array<typename P::Out, 2>> out(ops.size());
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<typename P::Obj>(ch);
    for (size_t i = 0; i <= ops.size(); i++) {
      ch.sync();
      if (party == 0) at[i] = spent(s.link);
      ch.sync();
      if (i == ops.size()) break;
      int role = role_of(party, c.first, ops[i].dir);
      P::run(*o, ops[i], m, role, out[i][role]);
    }
  });
  for (size_t i = 0; i < ops.size(); i++) { P::check(ops[i], m, out[i].data()); judge(ops[i], at[i + 1] - at[i], c.first ^ ops[i].dir); }
  mc::report().evaluations++;
  mc::report().states += ops.size();
}
// Bytes of one scalar on the wire, generously.
static const uint64_t S = 48, SLACK = 160;

static uint64_t tree_ots(const std::vector<int64_t>& len) {
  uint64_t n = 0;
  for (int64_t l : len) if (l > 1) n += clog2(l);
  return n;
}
static void within(const char* what, const std::string& op, const Cost& c, uint64_t ots, uint64_t b0, uint64_t b1, int p0) {
  if (c.ots > ots) mc::violation("%s %s takes %lu oblivious transfers, more than the %lu promised", what, op.c_str(), c.ots, ots);
  if (c.bytes[p0] > b0) mc::violation("%s %s: the first role sends %lu bytes besides the transfers, more than %lu", what, op.c_str(), c.bytes[p0], b0);
  if (c.bytes[1 - p0] > b1) mc::violation("%s %s: the second role sends %lu bytes besides the transfers, more than %lu", what, op.c_str(), c.bytes[1 - p0], b1);
}
template <typename T> static void rot(const Conf& c, const Mod& m, const std::vector<std::vector<int64_t>>& lens) {
  std::vector<RotOp> ops;
  for (size_t i = 0; i < lens.size(); i++) {
    RotOp o;
    o.dir = i & 1;
    o.len = lens[i];
    for (int64_t l : o.len) o.idx.push_back(l ? (int64_t)(mc::mix(l * 31 + i) % l) : 0);
    o.single = o.len.size() == 1 && i % 3 == 0;
    ops.push_back(o);
  }
  costs<Rot<T>, T>(c, m, ops, [](const RotOp& o, const Cost& k, int p0) { within("all-but-one transfer of lengths", show(o.len), k, tree_ots(o.len), SLACK, SLACK, p0); });
}
template <typename T> static void spfss(const Conf& c, const Mod& m, const std::vector<std::vector<int64_t>>& lens) {
  std::vector<SpfssOp> ops;
  for (size_t i = 0; i < lens.size(); i++) {
    SpfssOp o;
    o.dir = i & 1;
    o.len = lens[i];
    for (int64_t l : o.len) o.idx.push_back(l ? (int64_t)(mc::mix(l * 37 + i) % l) : 0);
    o.api = o.len.size() == 1 ? i % 3 : 0;
    o.k = i;
    ops.push_back(o);
  }
  costs<Spfss<T>, T>(c, m, ops, [](const SpfssOp& o, const Cost& k, int p0) {
    within("single-point sharing of lengths", show(o.len), k, tree_ots(o.len), SLACK + S * o.len.size(), SLACK, p0);
  });
}
// At most: each of n positions lies in three buckets; the logarithm is concave.
static uint64_t bucket_ots(int64_t nb, int64_t n) {
  double avg = 3.0 * n / nb;
  return (uint64_t)(nb * (std::log2(std::max(avg, 1.0)) + 1)) + 1;
}
template <typename T> static void mpfss(const Conf& c, const Mod& m, const std::vector<std::pair<int64_t, int>>& shapes) {
  std::vector<MpfssOp> ops;
  std::map<int, int64_t> nb;
  for (size_t i = 0; i < shapes.size(); i++) {
    MpfssOp o;
    o.dir = i & 1;
    o.len = shapes[i].first;
    for (int j = 0; j < shapes[i].second; j++) o.idx.push_back(j * (o.len / shapes[i].second));
    o.k = i;
    o.prep[0] = i % 5;
    o.prep[1] = i / 5 % 5;
    ops.push_back(o);
  }
  {
    Conf q;
    Sess<T> s(q, m);
    s.both([&](int p, mpc_utils::comm_channel& ch) {
      auto o = create<MPFSSKnownIndices>(ch);
      if (p == 0) for (auto& x : shapes) nb[x.second] = o->NumBuckets(x.second).ValueOrDie();
    });
  }
  costs<Mpfss<T>, T>(c, m, ops, [&](const MpfssOp& o, const Cost& k, int p0) {
    int64_t b = nb[o.idx.size()];
    within("multi-point sharing", strf("of %zu points in %ld", o.idx.size(), (long)o.len), k, bucket_ots(b, o.len), SLACK + S * b, SLACK + S * b, p0);
  });
}
template <typename T> static void gilboa(const Conf& c, const Mod& m, const std::vector<int64_t>& lens) {
  std::vector<GilboaOp> ops;
  for (size_t i = 0; i < lens.size(); i++) {
    GilboaOp o;
    o.dir = i & 1;
    o.x = val(pattern<T>(m, i));
    for (int64_t j = 0; j < lens[i]; j++) o.y.push_back(val(pattern<T>(m, i + 3 * j)));
    o.api = i % 2;
    ops.push_back(o);
  }
  u128 top = order_minus_1<T>(m);
  int64_t size = 1;
  while (size < 16 && (top >> (8 * size))) size++;
  costs<Gilboa<T>, T>(c, m, ops, [&](const GilboaOp& o, const Cost& k, int p0) {
    int64_t per = 16 / size, blocks = ((int64_t)o.y.size() + per - 1) / per;
    within("a product of length", strf("%zu", o.y.size()), k, (uint64_t)(blocks * size * 8), SLACK, SLACK, p0);
  });
}

// Histories of the vector OLE. All its costs belong to expansions: as many as
// it takes to produce what was requested so far, given that each makes one
// batch available.
template <typename T> static void vole(const Conf& c, const Mod& m, const std::vector<VOp>& h) {
  std::string hs = show(h);
  Sess<T> s(c, m);
  std::vector<Cost> at(h.size() + 1);
  std::vector<Step<T>> st(h.size());
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<DistributedVectorOLE<T>>(ch);
    for (size_t i = 0; i <= h.size(); i++) {
      ch.sync();
      if (party == 0) at[i] = spent(s.link);
      ch.sync();
      if (i == h.size()) break;
      int role = role_of(party, c.first, h[i].dir);
      vole_op<T>(*o, h[i], m, role, st[i]);
    }
  });
  int width = 16;
  u128 top = order_minus_1<T>(m);
  while (width > 1 && !(top >> (8 * width - 8))) width--;
  const auto& p = g_sc.p;
  int last = (int)p.out.size() - 1;
  struct Dir { int64_t batch = 0, asked = 0; int level = 0; Cost spent; uint64_t one = 0; } d[2];
  auto setup = [&](Dir& x, int64_t b) {   // bound for a precomputation
    x = Dir();
    int64_t per = 16 / width, n0 = p.seed[0] + g_sc.nb[0];
    uint64_t ots = (n0 + per - 1) / per * width * 8, bytes = S * n0 + SLACK;
    while (x.level < last && g_sc.max_batch[x.level] < b) {
      int64_t out = p.seed[x.level + 1] + g_sc.nb[x.level + 1];
      ots += bucket_ots(g_sc.nb[x.level], out);
      bytes += S * g_sc.nb[x.level] + SLACK;
      x.level++;
    }
    x.batch = std::min(b, g_sc.max_batch[x.level]);
    return std::make_pair(ots, bytes);
  };
  for (size_t i = 0; i < h.size(); i++) {
    auto& op = h[i];
    Dir& x = d[op.dir];
    Cost k = at[i + 1] - at[i];
    int p0 = c.first ^ op.dir;
    std::string what = strf("history %s, operation %zu:", hs.c_str(), i);
    std::pair<uint64_t, uint64_t> pre{0, 0};
    if (op.pre || x.batch == 0) pre = setup(x, op.n);
    if (op.pre) { within(what.c_str(), "the precomputation", k, pre.first, pre.second, pre.second, p0); continue; }
    int64_t before = (x.asked + x.batch - 1) / x.batch;
    x.asked += op.n;
    int64_t exps = (x.asked + x.batch - 1) / x.batch;
    for (int q = 0; q < 2; q++) x.spent.bytes[q] += k.bytes[q];
    x.spent.ots += k.ots;
    // With what one expansion takes known exactly, so is the total.
    bool measured = x.one != 0;
    uint64_t bound = bucket_ots(g_sc.nb[x.level], x.batch + p.seed[x.level] + g_sc.nb[x.level]);
    uint64_t each = measured ? std::min(bound, x.one + x.one / 20) : bound;
    within(what.c_str(), strf("all runs of the batches of %ld (%ld elements, %ld expansions)", (long)x.batch, (long)x.asked, (long)exps), x.spent, pre.first + exps * each,
           pre.second + exps * (S * g_sc.nb[x.level] + SLACK), pre.second + exps * (S * g_sc.nb[x.level] + SLACK), p0);
    if (pre.first == 0 && before == 0 && exps == 1) x.one = k.ots;
    if (pre.first) {                    // the first run bootstraps, too
      x.spent = Cost();
      x.asked = 0;                      // its batch is used up: n elements for one expansion of n
      if (op.n > x.batch) x.asked = op.n % x.batch;
      if (x.asked) { x.spent.ots = bound; x.spent.bytes[0] = x.spent.bytes[1] = 0; }
    }
    if (before == exps && k.ots == 0) n_free++;
  }
  mc::report().evaluations++;
  mc::report().states += h.size();
}
static VOp P(int64_t n, int delta = -1, int dir = 0) { VOp o; o.pre = true; o.n = n; o.delta = delta; o.dir = dir; return o; }
static VOp R(int64_t n, int dir = 0) { VOp o; o.n = n; o.dir = dir; return o; }
template <typename T> static void histories(const Mod& m, int depth) {
  install<T>(m);
  int64_t b0 = g_sc.max_batch[0], b1 = g_sc.max_batch[1], b2 = g_sc.max_batch[2];
  auto confs = all_confs();
  for (int64_t b : {(int64_t)1, (int64_t)20, b0, b0 + 1, b1, b1 + 1, b2, b2 + 300}) {
    int64_t e = std::min(b, b2);
    // Requests below, at and above what is left over or produced.
    std::vector<VOp> alpha;
    for (int64_t n : std::set<int64_t>{0, 1, e / 2, e - 1, e, e + 1, 2 * e, 3 * e + 1}) alpha.push_back(R(n));
    alpha.push_back(P(b));
    alpha.push_back(R(1, 1));
    for (int len = 1; len <= depth; len++) {
      uint64_t total = 1;
      for (int i = 0; i < len; i++) total *= alpha.size();
      for (uint64_t q = 0; q < total; q++) {
        std::vector<VOp> h{P(b), R(1)};
        uint64_t y = q;
        for (int i = 0; i < len; i++) { h.push_back(alpha[y % alpha.size()]); y /= alpha.size(); }
        if (!take(strf("%s vector OLE %s", full_name<T>(m).c_str(), show(h).c_str()))) continue;
        install<T>(m);
        vole<T>(confs[mc::mix(q) % 8], m, h);
      }
    }
  }
  for (int64_t n : std::set<int64_t>{1, 2, b0 - 1, b0, b0 + 1, b1, b1 + 1, b2, b2 + 1, 3 * b2})
    for (int64_t k : {(int64_t)1, n}) {
      std::vector<VOp> h{R(n), R(k), P(b1, 1), R(1)};
      if (!take(strf("%s vector OLE %s", full_name<T>(m).c_str(), show(h).c_str()))) continue;
      install<T>(m);
      vole<T>(confs[n & 7], m, h);
    }
}
template <typename T> static void all(const Mod& m, int weight) {
  std::string nm = full_name<T>(m);
  auto confs = all_confs();
  auto lens = [&] {
    std::vector<std::vector<int64_t>> v;
    for (int64_t n = 0; n <= (mc::thorough() ? 600 : 140); n++) v.push_back({n});
    for (int k = 8; k <= (mc::thorough() ? 18 : 14); k++) for (int d = -1; d <= 1; d++) v.push_back({((int64_t)1 << k) + d});
    if (weight == 0 || mc::thorough()) for (int64_t n : {20000, 40000, 70001}) v.push_back({n});
    return v;
  }();
  std::vector<std::vector<int64_t>> batches;
  std::vector<int64_t> ls{0, 1, 2, 3, 4, 5, 8, 9, 33};
  for (int k = 2; k <= 3; k++) {
    size_t total = k == 2 ? ls.size() * ls.size() : ls.size() * ls.size() * ls.size();
    for (size_t q = 0; q < total; q++) { std::vector<int64_t> l; size_t y = q; for (int i = 0; i < k; i++) { l.push_back(ls[y % ls.size()]); y /= ls.size(); } batches.push_back(l); }
  }
  for (int n : {4, 5, 10, 17, 40, 65, 200, 300}) {
    batches.push_back(std::vector<int64_t>(n, 3));
    batches.push_back({});
    for (int i = 0; i < n; i++) batches.back().push_back(i % 7 + (i == n / 2) * 100);
  }
  batches.push_back({});
  auto chunks = [&](const std::vector<std::vector<int64_t>>& v, const char* what, auto f) {
    for (size_t i = 0; i < v.size(); i += 24) {
      if (!take(strf("%s %s from %zu", nm.c_str(), what, i))) continue;
      install<T>(m);
      f(confs[i / 24 % 8], std::vector<std::vector<int64_t>>(v.begin() + i, v.begin() + std::min(v.size(), i + 24)));
    }
  };
  if (weight < 2) {
    chunks(lens, "all-but-one lengths", [&](const Conf& c, auto v) { rot<T>(c, m, v); });
    chunks(batches, "all-but-one batches", [&](const Conf& c, auto v) { rot<T>(c, m, v); });
    chunks(lens, "single-point lengths", [&](const Conf& c, auto v) { spfss<T>(c, m, v); });
    chunks(batches, "single-point batches", [&](const Conf& c, auto v) { spfss<T>(c, m, v); });
    std::vector<std::vector<int64_t>> shapes;
    for (int64_t n = 1; n <= 40; n++) for (int t = 1; t <= n && t <= 6; t++) shapes.push_back({n, t});
    if (weight == 0) { shapes.push_back({30000, 40}); shapes.push_back({70001, 150}); }
    for (int64_t n : {100, 1000, 1 << 13}) for (int t : {1, 7, 30, 99}) shapes.push_back({n, t});
    chunks(shapes, "multi-point shapes", [&](const Conf& c, auto v) {
      std::vector<std::pair<int64_t, int>> w;
      for (auto& x : v) w.emplace_back(x[0], (int)x[1]);
      mpfss<T>(c, m, w);
    });
  }
  std::vector<std::vector<int64_t>> gl;
  for (int64_t n = 0; n <= 70; n++) gl.push_back({n});
  for (int64_t n : {100, 129, 257, 500, 1000, 2500}) gl.push_back({n});
  chunks(gl, "product lengths", [&](const Conf& c, auto v) {
    std::vector<int64_t> w;
    for (auto& x : v) w.push_back(x[0]);
    gilboa<T>(c, m, w);
  });
}

int main(int argc, char** argv) {
  mc::init(argc, argv, "C25");
  g_sc = scaled_params();
  use_params(g_sc.p);
  all<a128>(Mod{}, 0);
  all<uint8_t>(Mod{}, 1);
  all<NTL::ZZ_p>(Mod{61, -1}, 1);
  all<gf128>(Mod{}, 2);
  all<uint16_t>(Mod{}, 2);
  all<uint32_t>(Mod{}, 2);
  all<uint64_t>(Mod{}, 2);
  all<NTL::ZZ_p>(Mod{127, -1}, 2);
  all<NTL::ZZ_p>(Mod{8, 1}, 2);
  all<NTL::ZZ_p>(Mod{16, 1}, 2);
  all<NTL::zz_p>(Mod{30, -35}, 2);
  histories<a128>(Mod{}, mc::thorough() ? 4 : 3);
  histories<NTL::ZZ_p>(Mod{61, -1}, mc::thorough() ? 3 : 2);
  histories<uint8_t>(Mod{}, mc::thorough() ? 3 : 2);
  mc::count("runs_without_communication", n_free);
  mc::sample(strf("last case: %s", mc::current_case().c_str()));
  mc::finish();
}
