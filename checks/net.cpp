// C20 no deadlock, nothing left behind: both parties' real code on networks
// with different buffering, every shape of operation, every interleaving of
// the parties' channel operations within a preemption bound.
#include "checks/steps.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) { return mc::shard_owns(g_idx++) && mc::want(id); }
static Scaled g_sc;

static uint64_t g_ops;
template <typename T> static void once(const Conf& c, const Mod& m, const std::vector<Step1>& steps, bool explore, uint64_t seed) {
  mc::rng_reset(seed);
  Sess<T> s(c, m);
  s.link.explore = explore;
  s.link.keep = false;
  std::vector<std::array<Outs<T>, 2>> out(steps.size());
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    Store<T> o;
    for (size_t i = 0; i < steps.size(); i++) {
      int role = role_of(party, c.first, steps[i].dir());
      run_step<T>(o, steps[i], m, role, ch, out[i][role]);
    }
  });
  for (size_t i = 0; i < steps.size(); i++) check_step<T>(steps[i], m, out[i].data());
  std::string l = s.link.leftovers();
  if (!l.empty()) mc::violation("session \"%s\":%s", show(steps).c_str(), l.c_str());
  g_ops += s.link.ops[0] + s.link.ops[1];
  mc::report().evaluations++;
  mc::report().states += steps.size();
}
static std::vector<Conf> confs20() {
  auto v = all_confs();
  size_t n = v.size();
  for (size_t i = 0; i < n; i++) if (!v[i].lazy) { Conf c = v[i]; c.one = true; v.push_back(c); }
  return v;
}
// One session; bound < 0: one schedule for each starting party.
template <typename T> static void session(const Mod& m, std::vector<Step1> steps, const std::vector<Conf>& confs, int bound) {
  steps = with_creation(std::move(steps));
  for (auto& c : confs) {
    if (!take(strf("%s %s bound %d: %s", full_name<T>(m).c_str(), conf_name(c).c_str(), bound, show(steps).c_str()))) continue;
    install<T>(m);
    uint64_t seed = mc::report().seed * 1000 + g_idx;
    if (bound < 0) { once<T>(c, m, steps, false, seed); continue; }
    mc::Explorer e;
    e.set_bound(bound);
    uint64_t n = e.run([&] { once<T>(c, m, steps, true, seed); });
    mc::report().schedules += n;
    mc::count("explored_sessions");
  }
}
template <typename T> static void shapes(const Mod& m, int weight) {
  auto confs = confs20();
  std::vector<int64_t> lens{0, 1, 2, 3, 5, 8, 9};
  if (weight) lens = {0, 1, 4, 9};
  std::vector<std::vector<int64_t>> batches{{}}, cur{{}};
  for (int k = 0; k < (weight ? 2 : 3); k++) {
    std::vector<std::vector<int64_t>> next;
    for (auto& b : cur) for (int64_t l : lens) { auto x = b; x.push_back(l); next.push_back(x); }
    batches.insert(batches.end(), next.begin(), next.end());
    cur = next;
  }
  // Every batch shape, in both directions on the same objects.
  std::vector<Step1> a, b;
  for (size_t i = 0; i < batches.size(); i++) {
    std::vector<int64_t> first, last;
    for (int64_t l : batches[i]) { first.push_back(0); last.push_back(std::max<int64_t>(l - 1, 0)); }
    a.push_back(st(rop(batches[i], first, i & 1)));
    a.push_back(st(rop(batches[i], last, ~i & 1)));
    b.push_back(st(sop(batches[i], last, i & 1)));
    b.push_back(st(sop(batches[i], first, ~i & 1)));
    if (a.size() >= 20 || i + 1 == batches.size()) {
      session<T>(m, a, confs, -1);
      session<T>(m, b, confs, -1);
      a.clear();
      b.clear();
    }
  }
  for (int64_t n : {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 33, 100})
    session<T>(m, {st(gop(n)), st(gop(n, 1)), st(gop(n / 2)), st(gop(1, 1))}, confs, -1);
  // Every operation as the last one of a session, also large ones: nobody else
  // sends what it forgot in its buffers.
  auto some = confs;
  if (weight) { some.clear(); for (size_t i = 0; i < confs.size(); i += 3) some.push_back(confs[i]); }
  for (int64_t n : {1, 2, 17, 50, 100, 129, 257, 600, 1500}) {
    std::vector<Conf> cs = some;
    if (n > 129) { cs.clear(); for (size_t i = 0; i < some.size(); i++) if (some[i].lazy || i % 4 == 0) cs.push_back(some[i]); }
    session<T>(m, {st(gop(n))}, cs, -1);
    session<T>(m, {st(gop(1, 1)), st(gop(n, 1))}, cs, -1);
  }
  for (size_t n : {4, 9, 20, 65, 130, 300}) {
    std::vector<int64_t> l, ix;
    for (size_t i = 0; i < n; i++) { l.push_back(1 + i % 3); ix.push_back(i % 3 / 2); }
    for (int d = 0; d < 2; d++) {
      session<T>(m, {st(rop(l, ix, d))}, some, -1);
      session<T>(m, {st(sop(l, ix, d))}, some, -1);
    }
  }
  for (int64_t n : {255, 1000, 5000, 33000, 70001}) {
    std::vector<Conf> cs;
    for (size_t i = 0; i < some.size(); i++) if (some[i].lazy || i % 4 == 0 || n < 1000) cs.push_back(some[i]);
    session<T>(m, {st(rop({n}, {n / 2}, n & 1))}, cs, -1);
    session<T>(m, {st(sop({n, 1}, {n - 1, 0}, ~n & 1))}, cs, -1);
    if (n > 40000 && weight) continue;
    session<T>(m, {st(mop(n, {n - 2}, n & 1))}, cs, -1);
    std::vector<int64_t> ix;
    for (int i = 0; i < 100; i++) ix.push_back(i * (n / 100) + i % 2);
    session<T>(m, {st(mop(n, ix, ~n & 1))}, cs, -1);
  }
  for (int64_t n : {1, 2, 3, 7, 20, 64})
    for (int t : {1, 2, 3, 5, 9, 20}) {
      if (t > n) continue;
      std::vector<int64_t> ix;
      for (int i = 0; i < t; i++) ix.push_back(n - 1 - i);
      session<T>(m, {st(mop(n, ix)), st(mop(n, ix, 1, 1, 0)), st(mop(n + 1, ix, 0, 0, 2)), st(mop(n + 1, {0}, 1, 3, 4))}, confs, -1);
    }
  int64_t b0 = g_sc.max_batch[0], b1 = g_sc.max_batch[1], b2 = g_sc.max_batch[2];
  for (int64_t q : {(int64_t)1, b0, b0 + 1, b1, b1 + 1, b2, b2 + 1, (int64_t)100000})
    for (int64_t n : {(int64_t)1, std::min(q, b2) - 1, std::min(q, b2), std::min(q, b2) + 1, 2 * std::min(q, b2) + 1}) {
      if (n < 1) continue;
      session<T>(m, {st(P(q)), st(R(n)), st(R(n)), st(R(1))}, confs, -1);
      if (weight == 0) session<T>(m, {st(R(n)), st(R(q % 1000 + 1)), st(R(3, 1)), st(R(n))}, confs, -1);
    }
}
// Sequences over several objects on the same channel.
template <typename T> static void mixed(const Mod& m, int depth) {
  std::vector<Step1> alpha{st(rop({5, 0, 2}, {4, 0, 0})), st(rop({3}, {1}, 1)), st(sop({3, 4}, {2, 0})), st(sop({0}, {0}, 1)), st(mop(6, {2, 5})), st(mop(4, {0}, 1)),
                           st(gop(3)), st(gop(17, 1)), st(P(20)), st(R(7)), st(R(50, 1))};
  auto confs = confs20();
  uint64_t total = 1;
  for (int i = 0; i < depth; i++) total *= alpha.size();
  for (uint64_t q = 0; q < total; q++) {
    std::vector<Step1> h;
    uint64_t y = q;
    for (int i = 0; i < depth; i++) { h.push_back(alpha[y % alpha.size()]); y /= alpha.size(); }
    if (depth <= 2) session<T>(m, h, confs, -1);
    else session<T>(m, h, {confs[mc::mix(q) % confs.size()]}, -1);
  }
}
template <typename T> static void schedules(const Mod& m, int bound, int vole_bound) {
  std::vector<Conf> confs = confs20();
  session<T>(m, {st(rop({5, 0, 2}, {4, 0, 0}))}, confs, bound);
  session<T>(m, {st(rop({3}, {1}, 1)), st(rop({3, 1}, {1, 0}))}, confs, bound);
  session<T>(m, {st(sop({3, 4}, {2, 0}))}, confs, bound);
  session<T>(m, {st(sop({3}, {2}, 1)), st(sop({0}, {0}))}, confs, bound);
  session<T>(m, {st(gop(3)), st(gop(2, 1))}, confs, bound);
  session<T>(m, {st(mop(6, {2, 5}))}, confs, bound);
  session<T>(m, {st(mop(6, {2}, 1)), st(mop(3, {0, 1}))}, confs, bound);
  session<T>(m, {mk_create(ROT), mk_create(GILBOA), mk_create(MPFSS), st(gop(1)), st(rop({2}, {1}, 1))}, confs, bound);
  session<T>(m, {st(R(3))}, confs, vole_bound);
  session<T>(m, {st(P(60)), st(R(70))}, confs, vole_bound);
  session<T>(m, {st(R(3)), st(R(3, 1)), st(R(30))}, confs, vole_bound);
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C20");
  g_sc = scaled_params();
  use_params(g_sc.p);
  bool t = mc::thorough();
  schedules<a128>(Mod{}, t ? 4 : 3, t ? 2 : 1);
  shapes<a128>(Mod{}, 0);
  shapes<uint8_t>(Mod{}, t ? 0 : 1);
  shapes<NTL::ZZ_p>(Mod{61, -1}, t ? 0 : 1);
  mixed<a128>(Mod{}, 2);
  mixed<a128>(Mod{}, 3);
  if (t) {
    mixed<uint8_t>(Mod{}, 3);
    mixed<a128>(Mod{}, 4);
    mixed<gf128>(Mod{}, 3);
    schedules<uint8_t>(Mod{}, 2, 1);
  }
  mc::count("channel_operations", g_ops);
  mc::sample("vole session explored: new vole P60 R70");
  mc::finish();
}
