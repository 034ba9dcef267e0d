// C21 parallel sections: every number of threads, delivered and advertised,
// per party and changing between operations; every schedule within a delay
// bound. MC_RACE: the same with the race detector linked.
#include "checks/vole.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) {
  if (!mc::shard_owns(g_idx++) || !mc::want(id)) return false;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  return true;
}
struct TC { int max, team; };
static std::string show(const TC& t) { return strf("%d/%d", t.team, t.max); }
static void use(int party, const TC& t) { mc::omp_cfg[party] = {t.max, t.team}; }
typedef std::array<TC, 2> Teams;
static std::string show(const Teams& t) { return show(t[0]) + "," + show(t[1]); }

// Operations of a protocol; operation i runs under mods[i % n] and with
// teams[i % n] (the creation under the first ones).
template <typename P, typename T>
static void run(const Conf& c, const std::vector<Mod>& mods, const std::vector<Teams>& teams, const std::vector<typename P::Op>& ops, int rounds = 1) {
  Sess<T> s(c, mods[0]);
  s.link.keep = false;
  std::vector<std::array<typename P::Out, 2>> out(ops.size() * rounds);
  for (int p = 0; p < 2; p++) use(p, teams[0][p]);
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<typename P::Obj>(ch);
    for (size_t i = 0; i < out.size(); i++) {
      auto& op = ops[i % ops.size()];
      use(party, teams[i % teams.size()][party]);
      if (is_mod<T>::value) install<T>(mods[i % mods.size()]);
      int role = role_of(party, c.first, op.dir);
      P::run(*o, op, mods[i % mods.size()], role, out[i][role]);
    }
  });
  for (size_t i = 0; i < out.size(); i++) {
    if (is_mod<T>::value) install<T>(mods[i % mods.size()]);
    P::check(ops[i % ops.size()], mods[i % mods.size()], out[i].data());
  }
  mc::report().evaluations++;
  mc::report().states += out.size();
}
template <typename T> struct Vole {
  typedef VOp Op;
  typedef Step<T> Out;
  typedef DistributedVectorOLE<T> Obj;
  static void run(Obj& o, const Op& op, const Mod& m, int role, Out& out) { vole_op<T>(o, op, m, role, out); }
  static void check(const Op& op, const Mod&, const Out out[2]) {
    if (op.pre) return;
    MC_CHECK(out[0].u.size() == op.n && out[0].v.size() == op.n && out[1].w.size() == op.n, "vector OLE: wrong output length");
    for (int64_t j = 0; j < op.n; j++)
      if (val(add(mul((T)out[0].u[j], (T)out[1].delta), (T)out[0].v[j])) != val((T)out[1].w[j])) mc::violation("vector OLE: position %ld does not satisfy w = u*delta + v", (long)j);
  }
};
static std::vector<RotOp> rots(bool small) {
  std::vector<RotOp> v;
  auto op = [&](std::vector<int64_t> len, std::vector<int64_t> idx) { RotOp o; o.len = len; o.idx = idx; o.dir = v.size() & 1; v.push_back(o); };
  if (small) { op({2, 3, 1}, {1, 0, 0}); return v; }
  op({5}, {4});
  op({}, {});
  op({0, 0, 0}, {0, 0, 0});
  op({3, 1, 4, 1, 5, 9, 2, 6, 5}, {0, 0, 3, 0, 4, 8, 1, 2, 3});
  op({0, 7, 0, 0, 2}, {0, 3, 0, 0, 0});
  op(std::vector<int64_t>(23, 2), std::vector<int64_t>(23, 1));
  op({100, 3}, {64, 2});
  return v;
}
static std::vector<SpfssOp> spfsss(bool small) {
  std::vector<SpfssOp> v;
  for (auto& r : rots(small)) { SpfssOp o; o.len = r.len; o.idx = r.idx; o.dir = v.size() & 1; o.k = 3 * v.size(); v.push_back(o); }
  return v;
}
static std::vector<MpfssOp> mpfsss(bool small) {
  std::vector<MpfssOp> v;
  auto op = [&](int64_t len, std::vector<int64_t> idx) { MpfssOp o; o.len = len; o.idx = idx; o.dir = v.size() & 1; o.k = 5 * v.size(); v.push_back(o); };
  if (small) { op(4, {3, 1}); return v; }
  op(1, {0});
  op(9, {8, 0, 4});
  op(40, {39, 1, 20, 7, 33});
  op(40, {0, 2, 4, 6, 8});
  op(5, {0, 1, 2, 3, 4});
  op(3, {2});
  return v;
}
static std::vector<GilboaOp> gilboas() {
  std::vector<GilboaOp> v;
  for (int n : {1, 3, 17}) { GilboaOp o; for (int i = 0; i < n; i++) o.y.push_back(i % 2); o.x = 1; o.dir = v.size() & 1; v.push_back(o); }
  return v;
}
static std::vector<VOp> voles(const Scaled& sc) {
  std::vector<VOp> v;
  auto p = [&](int64_t n) { VOp o; o.pre = true; o.n = n; v.push_back(o); };
  auto r = [&](int64_t n) { VOp o; o.n = n; v.push_back(o); };
  p(20); r(30); r(1); p(sc.max_batch[2]); r(300); p(3); r(9);
  return v;
}
static Scaled g_sc;
template <typename T> static void sizes(const std::vector<Mod>& mods, int weight) {
  std::vector<TC> tc{{1, 1}, {2, 1}, {2, 2}, {3, 2}, {3, 3}, {4, 4}, {8, 3}};
  if (mc::thorough()) for (TC t : {TC{4, 1}, TC{4, 2}, TC{4, 3}, TC{3, 1}, TC{8, 8}, TC{16, 16}}) tc.push_back(t);
  const TC wide[] = {{8, 8}, {16, 16}, {16, 7}};   // with one thread and with as many
  const size_t narrow = tc.size();
  for (TC t : wide) if (!mc::thorough() || t.team == 7) tc.push_back(t);
#ifdef MC_RACE
  // Which accesses are ordered hardly depends on the sizes of the teams.
  if (!mc::thorough()) tc = {{1, 1}, {2, 2}, {4, 3}};
#endif
  auto confs = all_confs();
  size_t q = 0;
  for (auto& a : tc)
    for (auto& b : tc) {
      q++;
      if (tc.size() > narrow) {
        size_t i = &a - &tc[0], j = &b - &tc[0];
        if ((i >= narrow || j >= narrow) && !(i == j || std::min(i, j) == 0)) continue;
      }
      if (weight && q % 3 != 1 && !mc::thorough() && (a.team < 7 || q % 2)) continue;
      Teams t{a, b};
      std::vector<std::vector<Teams>> plans{{t}, {Teams{TC{1, 1}, TC{2, 2}}, t, Teams{b, a}}};
      for (size_t k = 0; k < plans.size(); k++)
      for (int pol = 0; pol < 3; pol++) {
        Conf c = confs[(q + k + pol) % confs.size()];
        std::string id = strf("%s teams %s plan %zu order %d %s ", full_name<T>(mods[0]).c_str(), show(t).c_str(), k, pol, conf_name(c).c_str());
        auto go = [&](const char* what, auto f) {
          if (!take(id + what)) return;
          if (is_mod<T>::value) install<T>(mods[0]);
          mc::sched_policy = pol;
          f();
          mc::sched_policy = 0;
        };
        go("rot", [&] { run<Rot<T>, T>(c, mods, plans[k], rots(false), 2); });
        go("spfss", [&] { run<Spfss<T>, T>(c, mods, plans[k], spfsss(false), 2); });
        go("mpfss", [&] { run<Mpfss<T>, T>(c, mods, plans[k], mpfsss(false), 2); });
        go("product", [&] { run<Gilboa<T>, T>(c, mods, plans[k], gilboas(), 2); });
        go("vole", [&] { run<Vole<T>, T>(c, {mods[0]}, plans[k], voles(g_sc)); });
      }
    }
}
template <typename T> static void schedules(const std::vector<Mod>& mods, int bound) {
  std::vector<Teams> ts{{TC{2, 2}, TC{1, 1}}, {TC{1, 1}, TC{2, 2}}, {TC{2, 2}, TC{2, 2}}, {TC{3, 3}, TC{1, 1}}, {TC{1, 1}, TC{3, 3}}, {TC{4, 2}, TC{4, 3}}};
  for (auto& t : ts)
    for (int f = 0; f < 2; f++) {
      Conf c;
      c.first = f;
      auto go = [&](const char* what, int b, auto body) {
        if (!take(strf("%s all schedules, teams %s, first %d, bound %d: %s", full_name<T>(mods[0]).c_str(), show(t).c_str(), f, b, what))) return;
        if (is_mod<T>::value) install<T>(mods[0]);
        uint64_t seed = mc::report().seed * 1000 + g_idx;
        mc::Explorer e;
        e.set_bound(b);
        e.set_delay(true);
        mc::report().schedules += e.run([&] { mc::rng_reset(seed); body(); });
        mc::count("explored_sessions");
      };
      go("rot", bound, [&] { run<Rot<T>, T>(c, mods, {t}, rots(true)); });
      go("spfss", bound, [&] { run<Spfss<T>, T>(c, mods, {t}, spfsss(true)); });
      go("mpfss", bound - 1, [&] { run<Mpfss<T>, T>(c, mods, {t}, mpfsss(true)); });
      // The modulus changes between operations that use their threads
      // differently.
      std::vector<RotOp> sw = rots(true);
      { RotOp o; o.len = {3}; o.idx = {1}; o.dir = 0; sw.push_back(o); o.len = {0, 2}; o.idx = {0, 1}; sw.push_back(o); o.len = {2, 2}; o.idx = {0, 1}; sw.push_back(o); }
      std::vector<SpfssOp> sp;
      for (auto& r : sw) { SpfssOp o; o.len = r.len; o.idx = r.idx; o.k = sp.size(); sp.push_back(o); }
      std::vector<MpfssOp> mp(2);
      mp[0].len = 3; mp[0].idx = {1};
      mp[1].len = 2; mp[1].idx = {1, 0};
      for (int pol = 0; pol < 3; pol++) {
        mc::sched_policy = pol;
        go(strf("rot switched, order %d", pol).c_str(), 1, [&] { run<Rot<T>, T>(c, mods, {t}, sw); });
        go(strf("spfss switched, order %d", pol).c_str(), 1, [&] { run<Spfss<T>, T>(c, mods, {t}, sp); });
        go(strf("mpfss switched, order %d", pol).c_str(), 1, [&] { run<Mpfss<T>, T>(c, mods, {t}, mp); });
        mc::sched_policy = 0;
      }
      VOp r;
      r.n = 3;
      go("vole", 1, [&] { run<Vole<T>, T>(c, {mods[0]}, {t}, {r}); });
    }
}
// Vector OLE with the real parameters: Eigen's products are parallel, too. The
// objects of two moduli are used alternately, and with changing teams.
template <typename T> static void real(const std::vector<Mod>& mods, const std::vector<Teams>& teams, int64_t n) {
  std::string id = strf("%s real parameters, %zu moduli, teams", full_name<T>(mods[0]).c_str(), mods.size());
  for (auto& t : teams) id += " " + show(t);
  if (!take(id + strf(", size %ld", (long)n))) return;
  use_params(real_params());
  Conf c;
  Sess<T> s(c, mods[0]);
  s.link.keep = false;
  std::vector<std::array<Step<T>, 2>> out(2 * mods.size());
  for (int p = 0; p < 2; p++) use(p, teams[0][p]);
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    std::vector<std::unique_ptr<DistributedVectorOLE<T>>> o;
    for (auto& m : mods) { install<T>(m); o.push_back(create<DistributedVectorOLE<T>>(ch)); }
    for (size_t i = 0; i < out.size(); i++) {
      use(party, teams[(i + 1) % teams.size()][party]);
      auto& m = mods[i % mods.size()];
      install<T>(m);
      VOp r;
      r.n = n + i;
      vole_op<T>(*o[i % mods.size()], r, m, party, out[i][party]);
    }
  });
  for (size_t i = 0; i < out.size(); i++) {
    install<T>(mods[i % mods.size()]);
    VOp r;
    r.n = n + i;
    Vole<T>::check(r, mods[i % mods.size()], out[i].data());
  }
  mc::report().evaluations++;
  mc::report().states += out.size();
  use_params(g_sc.p);
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C21");
  g_sc = scaled_params();
  use_params(g_sc.p);
  bool t = mc::thorough();
  std::vector<Mod> z{{61, -1}, {64, 13}, {89, -1}}, s{{30, -35}, {59, -55}}, none{Mod{}};
#ifdef MC_RACE
  int b0 = t ? 2 : 1;
#else
  int b0 = t ? 3 : 2;
#endif
#ifndef MC_RACE
  real<a128>(none, {{TC{4, 4}, TC{3, 2}}}, 3000);
  real<NTL::ZZ_p>({z[0]}, {{TC{2, 2}, TC{4, 4}}}, 3000);
  real<NTL::ZZ_p>({z[0], z[2]}, {{TC{4, 4}, TC{3, 3}}}, 3000);
  real<NTL::ZZ_p>({z[0]}, {{TC{4, 1}, TC{4, 2}}, {TC{4, 3}, TC{4, 4}}, {TC{4, 2}, TC{4, 4}}}, 3000);
  real<NTL::zz_p>({s[1], Mod{59, -55 - 0}}, {{TC{2, 1}, TC{2, 2}}, {TC{2, 2}, TC{3, 3}}}, 3000);
#endif
  schedules<a128>(none, b0);
  schedules<NTL::ZZ_p>(z, b0);
  sizes<NTL::ZZ_p>(z, 0);
  sizes<a128>(none, 1);
  sizes<NTL::zz_p>(s, 1);
  sizes<gf128>(none, 1);
  sizes<uint8_t>(none, 1);
  mc::sample("u128 all schedules, teams 2/2,1/1: spfss");
  mc::finish();
}
