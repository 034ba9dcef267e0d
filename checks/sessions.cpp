// C28 instances do not disturb each other and are not bound to threads: several
// sessions of both parties and local computations at the same time in one
// process, every interleaving of their channel operations, random draws, locks
// and calls within a preemption bound; and sessions whose objects are handed
// from thread to thread in every way. MC_RACE: the same with the race detector.
#include <unistd.h>

#include <atomic>

#include "checks/steps.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) { return mc::shard_owns(g_idx++) && mc::want(id); }
static Scaled g_sc;
static void point(const char* what) { if (mc::Sched::cur() && mc::self_thread() >= 0) mc::Sched::cur()->point(what); }

// Something that runs in one or two threads of its own.
struct Activity {
  virtual ~Activity() {}
  virtual int threads() const = 0;
  virtual void run(int thread) = 0;
  virtual void check() = 0;
};
struct Recipe {
  std::string name;
  bool two;                      // parties, or a local computation
  std::function<std::unique_ptr<Activity>(int)> make;
};
template <typename T> struct Session : Activity {
  Conf c;
  Mod m;
  std::vector<Step1> steps;
  Sess<T> s;
  std::vector<std::array<Outs<T>, 2>> out;
  Session(const Conf& c, const Mod& m, const std::vector<Step1>& st) : c(c), m(m), steps(st), s(c, m), out(st.size()) { s.link.explore = true; s.link.keep = false; }
  int threads() const override { return 2; }
  void run(int party) override {
    install<T>(m);
    Store<T> o;
    for (size_t i = 0; i < steps.size(); i++) {
      int role = role_of(party, c.first, steps[i].dir());
      run_step<T>(o, steps[i], m, role, s.ch[party], out[i][role]);
      point("a call");
    }
  }
  void check() override {
    install<T>(m);
    for (size_t i = 0; i < steps.size(); i++) check_step<T>(steps[i], m, out[i].data());
    std::string l = s.link.leftovers();
    if (!l.empty()) mc::violation("session \"%s\":%s", show(steps).c_str(), l.c_str());
    mc::report().states += steps.size();
  }
};
template <typename T> static Recipe session(const Mod& m, std::vector<Step1> steps) {
  steps = with_creation(std::move(steps));
  return {full_name<T>(m) + ": " + show(steps), true, [=](int k) {
    auto confs = all_confs();
    return std::unique_ptr<Activity>(new Session<T>(confs[k % confs.size()], m, steps));
  }};
}
// A local computation that depends on nothing but its inputs: the results are
// those it has when nothing else goes on.
typedef std::vector<u128> Res;
struct Local : Activity {
  std::string name;
  std::function<Res()> f;
  Res want, got;
  Local(std::string n, std::function<Res()> f, Res w) : name(std::move(n)), f(std::move(f)), want(std::move(w)) {}
  int threads() const override { return 1; }
  void run(int) override { got = f(); }
  void check() override {
    MC_CHECK(got.size() == want.size(), "%s: %zu results instead of %zu", name.c_str(), got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
      if (got[i] != want[i]) mc::violation("%s: result %zu is %s, alone it is %s", name.c_str(), i, hex(got[i]).c_str(), hex(want[i]).c_str());
    mc::report().states++;
  }
};
static Recipe local(const std::string& name, std::function<Res()> f) {
  // Alone: in a thread of its own.
  auto want = std::make_shared<Res>();
  auto have = std::make_shared<bool>(false);
  return {name, false, [=](int) {
    if (!*have) { mc::run1([&] { *want = f(); }); *have = true; }
    return std::unique_ptr<Activity>(new Local(name, f, *want));
  }};
}
static Res tree(int arity, int64_t leaves, u128 seed, int64_t miss) {
  Res r;
  std::vector<a128> keys;
  for (int i = 0; i < arity; i++) keys.push_back(A(mc::mix(seed + i) | (u128)i << 70));
  auto t = GGMTree::Create(leaves, A(seed), keys);
  need_ok(t.ok() ? mpc_utils::OkStatus() : t.status(), "the tree");
  point("a call");
  auto& g = *t.ValueOrDie();
  auto x = g.GetSiblingWiseXOR();
  point("a call");
  auto t2 = GGMTree::CreateFromSiblingWiseXOR(arity, leaves, miss, x, keys);
  need_ok(t2.ok() ? mpc_utils::OkStatus() : t2.status(), "the punctured tree");
  point("a call");
  for (auto& l : x) for (auto& v : l) r.push_back(U(v));
  for (int64_t i = 0; i < leaves; i++) {
    r.push_back(U(g.GetValueAtLeaf(i).ValueOrDie()));
    if (i != miss) r.push_back(U(t2.ValueOrDie()->GetValueAtLeaf(i).ValueOrDie()));
  }
  return r;
}
static Res hashing(uint64_t seed, int k, int64_t n, int64_t nb) {
  Res r;
  auto h = CuckooHasher::Create(A((u128)mc::mix(seed) << 64 | seed), k, 40);
  need_ok(h.ok() ? mpc_utils::OkStatus() : h.status(), "the hasher");
  std::vector<int64_t> in;
  for (int64_t i = 0; i < n; i++) in.push_back(seed + 3 * i);
  point("a call");
  auto& o = *h.ValueOrDie();
  auto s = o.HashSimple<int64_t>(in, nb);
  need_ok(s.ok() ? mpc_utils::OkStatus() : s.status(), "simple hashing");
  point("a call");
  auto b = o.GetOptimalNumberOfBuckets(n);
  r.push_back(b.ok() ? (u128)b.ValueOrDie() : ~(u128)0);
  auto c = o.HashCuckoo<int64_t>(in, nb);
  r.push_back(c.ok());
  point("a call");
  for (auto& v : s.ValueOrDie()) { r.push_back(1000 + v.size()); for (auto x : v) r.push_back(x); }
  if (c.ok()) for (auto x : c.ValueOrDie()) r.push_back(x);
  return r;
}
static Res stream(u128 seed, int buffer) {
  Res r;
  std::vector<uint8_t> sd(32);
  for (int i = 0; i < 32; i++) sd[i] = (uint8_t)(seed >> 4 * i);
  auto g = AESUniformBitGenerator::Create(sd, buffer);
  need_ok(g.ok() ? mpc_utils::OkStatus() : g.status(), "the generator");
  auto o = std::move(g.ValueOrDie());
  for (int i = 0; i < 40; i++) { r.push_back(o()); if (i % 7 == 0) point("a call"); }
  return r;
}
// Conversions, and samples that only have to be in range (0 in the results).
template <typename T> static Res scalars(const Mod& m) {
  install<T>(m);
  Res r;
  for (int q = 0; q < 3; q++) {
    point("a call");
    r.push_back(ScalarHelper<T>::SizeOf());
    r.push_back(ScalarHelper<T>::CanBeHashedInto(40 + q));
    for (int k = 0; k < 8; k++) {
      T x = pattern<T>(m, k + q);
      r.push_back(U(ScalarHelper<T>::ToUint128(x)));
      r.push_back(val(ScalarHelper<T>::FromUint128(A((u128)mc::mix(k) << 64 | mc::mix(k + 9)))));
      T sum = mk<T>(0);
      for (int b = 0; b < 8 * ScalarHelper<T>::SizeOf(); b++) if (ScalarHelper<T>::GetBit(x, b)) sum += ScalarHelper<T>::SetBit(b);
      r.push_back(val(sum) == val(x));
    }
    point("a call");
    std::vector<T> v(5, mk<T>(0));
    ScalarHelper<T>::Randomize(absl::MakeSpan(v));
    bool in = true, same = true;
    for (auto& x : v) { if (val(x) > order_minus_1<T>(m)) in = false; if (val(x) != val(v[0])) same = false; }
    r.push_back(in);
    r.push_back(same);
  }
  return r;
}
static Res field() {
  Res r;
  gf128 a(A(((u128)0x123456789abcdefull << 64) | 77)), b(A(((u128)0xfedcba987ull << 64) | 3));
  for (int i = 0; i < 5; i++) {
    a *= b;
    point("a call");
    b = b.inverse() + a;
    r.push_back(val(a));
    r.push_back(val(b));
  }
  return r;
}

static void once(const std::vector<const Recipe*>& rs, uint64_t seed) {
  mc::rng_reset(seed);
  std::vector<std::unique_ptr<Activity>> a;
  int k = (int)(seed % 8);
  for (auto r : rs) a.push_back(r->make(k++));
  mc::rng_hook = [](unsigned char*, size_t) { point("a random draw"); return false; };
  mc::mutex_points = true;
  {
    mc::Sched s;
    int p = 0;
    for (auto& x : a)
      for (int t = 0; t < x->threads(); t++) {
        auto* y = x.get();
        s.spawn([y, t] { y->run(t); }, x->threads() == 2 ? t : p++ % 2);
      }
    s.run();
  }
  mc::mutex_points = false;
  mc::rng_hook = nullptr;
  for (auto& x : a) x->check();
  mc::report().evaluations++;
}
static std::string names(const std::vector<const Recipe*>& rs) {
  std::string s;
  for (auto r : rs) s += (s.empty() ? "" : " | ") + r->name;
  return s;
}
static void explore(const std::vector<const Recipe*>& rs, int bound) {
  if (!take(strf("bound %d, order %d: ", bound, mc::sched_policy) + names(rs))) return;
  uint64_t seed = mc::report().seed * 1000 + g_idx;
  mc::Explorer e;
  e.set_bound(bound);
  e.set_delay(true);
  mc::report().schedules += e.run([&] { once(rs, seed); });
  mc::count("explored_sets");
}
static void policies(const std::vector<const Recipe*>& rs, int team) {
  if (!take(strf("teams of %d: ", team) + names(rs))) return;
  for (int p = 0; p < 2; p++) mc::omp_cfg[p] = {team, team};
  for (int pol = 0; pol < 3; pol++) {
    mc::sched_policy = pol;
    once(rs, mc::report().seed * 1000 + g_idx + pol);
  }
  mc::sched_policy = 0;
  for (int p = 0; p < 2; p++) mc::omp_cfg[p] = {1, 1};
  mc::count("sets");
}

// ------------------------------------------------------- from thread to thread
// The first thread-local of a thread to be constructed is the last one to go.
struct Gone {
  std::atomic<bool>* flag = nullptr;
  ~Gone() { if (flag) *flag = true; }
};
// Step i of party p is taken by thread plan[p][i] of that party. Threads have
// another modulus installed before.
template <typename T> static void handed(const Mod& m, const Mod& decoy, const std::vector<Step1>& steps0, const std::vector<int> plan[2], const char* what) {
  auto steps = steps0;
  std::string id = strf("%s handed from thread to thread (%s", full_name<T>(m).c_str(), what);
  for (int p = 0; p < 2; p++) { id += p ? "/" : " "; for (int t : plan[p]) id += (char)('a' + t); }
  if (!take(id + "): " + show(steps))) return;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  Conf c = all_confs()[g_idx % 8];
  Sess<T> s(c, m);
  s.link.keep = false;
  std::vector<std::array<Outs<T>, 2>> out(steps.size());
  // The objects go with the last entry of the plan.
  std::unique_ptr<Store<T>> o[2];
  size_t turn[2] = {0, 0};
  std::atomic<bool> gone[2][8] = {};
  int thread_id[2][8] = {};
  {
    mc::Sched sc;
    for (int p = 0; p < 2; p++) {
      int n = 1 + *std::max_element(plan[p].begin(), plan[p].end());
      for (int t = 0; t < n; t++)
        thread_id[p][t] = sc.spawn([&, p, t, n] {
          static thread_local Gone last;
          last.flag = &gone[p][t];
          install<T>(decoy);
          { std::vector<T> v(2, mk<T>(0)); ScalarHelper<T>::Randomize(absl::MakeSpan(v)); }
          for (size_t i = 0; i < plan[p].size(); i++) {
            if (plan[p][i] != t) continue;
            mc::Sched::cur()->block([&, p, i] { return turn[p] == i; }, "its turn");
            if (mc::mc_hb_acquire) mc::mc_hb_acquire(&turn[p]);
            // Threads that have done their part are really gone.
            for (int k = 0; k < n; k++)
              if (std::find(plan[p].begin() + i, plan[p].end(), k) == plan[p].end())
                {
                  // Its workers end first, and that takes turns.
                  mc::Sched::cur()->block([&, p, k] { return mc::Sched::cur()->finished(thread_id[p][k]); }, "a thread to end");
                  while (!gone[p][k]) usleep(10);
                }
            install<T>(m);
            if (i == 0) o[p].reset(new Store<T>);
            if (i < steps.size()) {
              int role = role_of(p, c.first, steps[i].dir());
              run_step<T>(*o[p], steps[i], m, role, s.ch[p], out[i][role]);
            } else {
              o[p].reset();
            }
            install<T>(decoy);
            if (mc::mc_hb_release) mc::mc_hb_release(&turn[p]);
            turn[p]++;
          }
        }, p);
    }
    sc.run();
  }
  install<T>(m);
  for (size_t i = 0; i < steps.size(); i++) check_step<T>(steps[i], m, out[i].data());
  mc::report().evaluations++;
  mc::report().states += steps.size();
}
template <typename T> static void all_handed(const Mod& m, const Mod& decoy, std::vector<Step1> steps, int threads) {
  steps = with_creation(std::move(steps));
  size_t n = steps.size() + 1;
  uint64_t total = 1;
  for (size_t i = 0; i < n; i++) total *= threads;
  for (uint64_t q = 0; q < total; q++) {
    std::vector<int> plan[2];
    int seen = 0;
    bool normal = true;
    uint64_t y = q;
    for (size_t i = 0; i < n; i++) {
      int t = y % threads;
      y /= threads;
      if (t > seen) normal = false;
      if (t == seen) seen++;
      plan[0].push_back(t);
    }
    if (!normal) continue;       // the names of the threads do not matter
    plan[1] = plan[0];
    handed<T>(m, decoy, steps, plan, "both");
    if (seen < 2) continue;
    plan[1].assign(n, 0);
    handed<T>(m, decoy, steps, plan, "one");
    std::swap(plan[0], plan[1]);
    handed<T>(m, decoy, steps, plan, "other");
  }
}
static void handed_all(bool t) {
  auto go = [&](auto tag, const Mod& m, const Mod& d, bool heavy) {
    typedef decltype(tag) T;
    all_handed<T>(m, d, {st(rop({5, 0, 2}, {4, 0, 0})), st(rop({3}, {1}, 1)), st(rop({9, 1}, {8, 0}))}, 3);
    all_handed<T>(m, d, {st(sop({3, 4}, {2, 0})), st(sop({0, 3}, {0, 2}, 1)), st(sop({3, 4}, {1, 3}))}, 3);
    all_handed<T>(m, d, {st(mop(6, {2, 5})), st(mop(6, {0, 1}, 1)), st(mop(7, {6, 0, 3}))}, 3);
    all_handed<T>(m, d, {st(gop(3)), st(gop(17, 1)), st(gop(20))}, 3);
    all_handed<T>(m, d, {st(R(3)), st(R(30)), st(R(5, 1))}, t ? 3 : 2);
    all_handed<T>(m, d, {st(P(20)), st(R(7)), st(R(40)), st(P(3)), st(R(4))}, heavy || t ? 3 : 2);
  };
  go(a128(), Mod{}, Mod{}, true);
  go(NTL::ZZ_p(), Mod{61, -1}, Mod{89, -1}, true);
  go(NTL::zz_p(), Mod{30, -35}, Mod{59, -55}, false);
  go(uint8_t(), Mod{}, Mod{}, false);
}

int main(int argc, char** argv) {
  mc::init(argc, argv, "C28");
  g_sc = scaled_params();
  use_params(g_sc.p);
  bool t = mc::thorough();
  for (int p = 0; p < 3; p++) mc::omp_cfg[p] = {1, 1};
#ifdef MC_HANDED
  handed_all(t);
  mc::finish();
#endif
  const Mod none{}, z61{61, -1}, z89{89, -1}, s30{30, -35}, s59{59, -55};
  // Short ones, whose interleavings are explored.
  std::vector<Recipe> brief{
      session<a128>(none, {st(rop({3, 2}, {2, 0}))}),
      session<NTL::ZZ_p>(z61, {st(rop({4}, {1}))}),
      session<NTL::ZZ_p>(z89, {st(sop({3}, {2}, 1))}),
      session<NTL::zz_p>(s30, {st(sop({2, 3}, {1, 0}))}),
      session<NTL::ZZ_p>(z61, {st(mop(4, {3, 1}))}),
      session<a128>(none, {st(mop(5, {0, 4}, 1))}),
      session<NTL::ZZ_p>(z61, {st(gop(3))}),
      session<NTL::ZZ_p>(z89, {st(gop(2, 1))}),
      session<NTL::zz_p>(s59, {st(gop(2))}),
      session<uint8_t>(none, {st(gop(4))}),
      session<NTL::ZZ_p>(z89, {st(R(3))}),
      session<a128>(none, {st(R(2))}),
      local("tree of arity 2", [] { return tree(2, 9, 5, 4); }),
      local("tree of arity 3", [] { return tree(3, 11, 6, 10); }),
      local("hashing with 3 functions", [] { return hashing(7, 3, 9, 20); }),
      local("hashing with 2 functions", [] { return hashing(8, 2, 5, 30); }),
      local("generator, small buffer", [] { return stream((u128)9 << 64 | 3, 4); }),
      local("generator, larger buffer", [] { return stream((u128)8 << 64 | 1, 64); }),
      local("scalars ZZ_p[2^61-1]", [=] { return scalars<NTL::ZZ_p>(z61); }),
      local("scalars ZZ_p[2^89-1]", [=] { return scalars<NTL::ZZ_p>(z89); }),
      local("scalars zz_p[2^30-35]", [=] { return scalars<NTL::zz_p>(s30); }),
      local("scalars zz_p[2^59-55]", [=] { return scalars<NTL::zz_p>(s59); }),
      local("scalars u16", [=] { return scalars<uint16_t>(none); }),
      local("field", [] { return field(); }),
  };
  for (size_t i = 0; i < brief.size(); i++)
    for (size_t j = i; j < brief.size(); j++) {
      bool none_two = !brief[i].two && !brief[j].two;
      // Departures from the schedule in which every thread runs until it waits.
      int bound = none_two ? 3 : t ? 2 : 1;
#ifdef MC_RACE
      bound = t ? 1 : 0;         // the accesses hardly depend on the order
#endif
      for (int pol = 0; pol < 3; pol++) {
        mc::sched_policy = pol;
        explore({&brief[i], &brief[j]}, !pol ? bound : none_two || t ? std::min(bound, 1) : 0);
      }
      mc::sched_policy = 0;
    }
  // Three at a time, one after the other in three orders.
  for (size_t i = 0; i < brief.size(); i++)
    for (size_t j = i; j < brief.size(); j++)
      for (size_t k = j; k < brief.size(); k++)
#ifdef MC_RACE
        if (t || (i + j * 3 + k * 5) % 12 == 0) policies({&brief[i], &brief[j], &brief[k]}, 1);
#else
        if (t || (i + j * 3 + k * 5) % 4 == 0) policies({&brief[i], &brief[j], &brief[k]}, 1);
#endif
  // Longer ones, also with teams of threads in each.
  auto longer = [&](auto tag, const Mod& m) {
    typedef decltype(tag) T;
    return std::vector<Recipe>{
        session<T>(m, {st(rop({5, 0, 2}, {4, 0, 0})), st(rop({3}, {1}, 1)), st(rop({40, 1, 9}, {17, 0, 8}))}),
        session<T>(m, {st(sop({3, 4}, {2, 0})), st(sop({0}, {0}, 1)), st(sop({33, 2}, {32, 0}))}),
        session<T>(m, {st(mop(6, {2, 5})), st(mop(20, {0, 19, 7}, 1)), st(mop(9, {8}))}),
        session<T>(m, {st(gop(3)), st(gop(17, 1)), st(gop(40))}),
        session<T>(m, {st(P(20)), st(R(7)), st(R(50)), st(R(9, 1))}),
    };
  };
  std::vector<Recipe> lg;
  for (auto& v : {longer(a128(), none), longer(NTL::ZZ_p(), z61), longer(NTL::ZZ_p(), z89), longer(NTL::zz_p(), s59), longer(uint8_t(), none), longer(gf128(), none)}) lg.insert(lg.end(), v.begin(), v.end());
  for (size_t i = 0; i < lg.size(); i++)
    for (size_t j = i; j < lg.size(); j++)
      for (int team : {1, 2, 3}) {
        if (!t && team > 1 && (i + j + team) % 4) continue;
#ifdef MC_RACE
        if (!t && (i + j + team) % 3) continue;
#endif
        policies({&lg[i], &lg[j]}, team);
      }
  mc::sample(names({&brief[4], &brief[7]}));
  mc::finish();
}
