// C27: calls write their outputs, all of them, and nothing else; nothing refers
// to the caller's memory afterwards; the caller's modulus and threads stay.
#include <omp.h>

#include "checks/vole.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) {
  if (!mc::shard_owns(g_idx++) || !mc::want(id)) return false;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  return true;
}
// What memory holds at position i before a call, by party.
template <typename T> T fill(const Mod& m, int f, int party, size_t i) {
  u128 top = order_minus_1<T>(m);
  if (f == 0) return mk<T>(party ? 0x5a : 0x2b);
  if (f == 1) return mk<T>(party ? 0 : top);
  return pattern<T>(m, 6 + i * 13 + party);
}
// An input that is the callee's only during the call.
template <typename T> struct Borrow {
  std::vector<T>* p;
  std::vector<T> copy;
  const char* what;
  bool keep;
  Borrow(std::vector<T> v, const char* w, bool k = false) : copy(std::move(v)), what(w), keep(k) {
    if (keep) { p = &standing<T>(w); p->assign(copy.begin(), copy.end()); }
    else p = new std::vector<T>(copy);
  }
  absl::Span<const T> span() const { return absl::MakeConstSpan(*p); }
  ~Borrow() {
    if (p->size() != copy.size()) mc::violation("the length of %s is changed", what);
    for (size_t i = 0; i < copy.size(); i++)
      if (!(copy[i] == (*p)[i])) mc::violation("element %zu of %s is changed by the call", i, what);
    for (auto& x : *p) x = T(77);
    if (!keep) delete p;
  }
};
// Where the outputs of a call lie.
struct Layout { int order = 0, gap = 0, lead = 0, fill = 0; bool apart = false; };
static std::string show(const Layout& l) {
  return l.apart ? strf("separate memory, content %d", l.fill) : strf("one buffer, order %d, gaps %d, start %d, content %d", l.order, l.gap, l.lead, l.fill);
}
template <typename T> struct Arena {
  std::vector<std::vector<T>*> own;
  std::vector<std::pair<T*, size_t>> piece;
  std::vector<absl::Span<T>> spans, before;
  std::vector<T> fresh;
  std::vector<T>& buf;
  std::vector<int> used;         // piece + 1 of each element
  Mod m;
  Layout l;
  int party;
  Arena(const Mod& mod, const Layout& lay, int p, const std::vector<int64_t>& len) : buf(lay.gap ? fresh : standing<T>("the outputs")), m(mod), l(lay), party(p) {
    buf.clear();
    size_t k = len.size();
    if (l.apart) {
      for (int64_t n : len) {
        own.push_back(new std::vector<T>(n));
        for (int64_t i = 0; i < n; i++) (*own.back())[i] = fill<T>(m, l.fill, party, i);
        spans.push_back(absl::MakeSpan(*own.back()));
      }
    } else {
      std::vector<size_t> ord(k), at(k);
      for (size_t i = 0; i < k; i++) ord[i] = l.order == 0 ? i : l.order == 1 ? k - 1 - i : (i + l.order) % k;
      size_t total = l.lead;
      for (size_t i : ord) { at[i] = total; total += len[i] + l.gap; }
      total += 1 + l.lead % 3;
      buf.resize(total);
      used.assign(total, 0);
      for (size_t i = 0; i < total; i++) buf[i] = fill<T>(m, l.fill, party, i);
      for (size_t i = 0; i < k; i++) {
        spans.push_back(absl::MakeSpan(buf.data() + at[i], len[i]));
        for (int64_t j = 0; j < len[i]; j++) used[at[i] + j] = (int)i + 1;
      }
    }
    before = spans;
  }
  Vecs<T> take() {
    for (size_t i = 0; i < spans.size(); i++)
      if (spans[i].data() != before[i].data() || spans[i].size() != before[i].size()) mc::violation("the caller's description of output %zu is changed", i);
    for (size_t i = 0; i < buf.size(); i++)
      if (!used[i] && val(buf[i]) != val(fill<T>(m, l.fill, party, i)))
        mc::violation("%s: position %zu of the buffer belongs to no output, but is changed to %s", show(l).c_str(), i, show(buf[i]).c_str());
    Vecs<T> v;
    for (auto& s : before) v.emplace_back(s.begin(), s.end());
    return v;
  }
  ~Arena() {
    for (auto* o : own) { for (auto& x : *o) x = T(3); delete o; }
    for (auto& x : buf) x = T(3);
  }
};
// What must be as before after every call.
struct Caller {
  NTL::ZZ big;
  long word;
  int threads;
  static Caller now() { return {NTL::ZZ_p::modulus(), NTL::zz_p::modulus(), omp_get_max_threads()}; }
  void same(const char* what) const {
    if (NTL::ZZ_p::modulus() != big) mc::violation("%s: the caller's ZZ_p modulus is replaced", what);
    if (NTL::zz_p::modulus() != word) mc::violation("%s: the caller's zz_p modulus is replaced", what);
    if (omp_get_max_threads() != threads) mc::violation("%s: the caller's number of threads is changed", what);
  }
};
template <typename T> void other_moduli() {
  if (!std::is_same<T, NTL::ZZ_p>::value) NTL::ZZ_p::init(NTL::ZZ(1000003));
  if (!std::is_same<T, NTL::zz_p>::value) NTL::zz_p::init(10007);
}

// The operations with everything the caller owns put under observation.
template <typename T> struct MRot : Rot<T> {
  static void run(AllButOneRandomOT& o, const RotOp& op, const Mod& m, int role, int party, const Layout& l, Vecs<T>& out) {
    Arena<T> a(m, l, party, op.len);
    Borrow<int64_t> idx(op.idx, "the indices", !l.apart);
    if (role == 0) need_ok(op.single ? o.RunSender<T>(a.spans[0]) : o.RunSenderBatched<T>(absl::MakeSpan(a.spans)), "sending");
    else need_ok(op.single ? o.RunReceiver<T>(op.idx[0], a.spans[0]) : o.RunReceiverBatched<T>(idx.span(), absl::MakeSpan(a.spans)), "receiving");
    out = a.take();
  }
};
template <typename T> struct MSpfss : Spfss<T> {
  static void run(SPFSSKnownIndex& o, const SpfssOp& op, const Mod& m, int role, int party, const Layout& l, Vecs<T>& out) {
    Arena<T> a(m, l, party, op.len);
    Borrow<int64_t> idx(op.idx, "the indices", !l.apart);
    Borrow<T> sh(Spfss<T>::share(op, m, role), "the shares", !l.apart);
    if (role == 0) need_ok(op.api ? o.RunValueProvider<T>(sh.copy[0], a.spans[0]) : o.RunValueProviderBatched<T>(sh.span(), absl::MakeSpan(a.spans)), "providing values");
    else need_ok(op.api ? o.RunIndexProvider<T>(sh.copy[0], op.idx[0], a.spans[0]) : o.RunIndexProviderBatched<T>(sh.span(), idx.span(), absl::MakeSpan(a.spans)), "providing indices");
    out = a.take();
  }
};
template <typename T> struct MMpfss : Mpfss<T> {
  static void run(MPFSSKnownIndices& o, const MpfssOp& op, const Mod& m, int role, int party, const Layout& l, std::vector<T>& out) {
    int t = (int)op.idx.size();
    auto nb = o.NumBuckets(t);
    need_ok(nb.ok() ? mpc_utils::OkStatus() : nb.status(), "NumBuckets");
    auto in = Mpfss<T>::inputs(op, m, nb.ValueOrDie());
    Arena<T> a(m, l, party, {op.len});
    Borrow<int64_t> idx(op.idx, "the indices", !l.apart);
    bool k = !l.apart;
    Borrow<T> y(in.y, "the values", k), u(in.u, "the correlation u", k), v(in.v, "the correlation v", k), w(in.w, "the correlation w", k);
    if (role == 0) need_ok(o.RunValueProviderVectorOLE<T>(in.x, t, w.span(), a.spans[0]), "providing the scalar");
    else need_ok(o.RunIndexProviderVectorOLE<T>(y.span(), idx.span(), u.span(), v.span(), a.spans[0]), "providing the points");
    out = a.take()[0];
  }
};
template <typename T> struct MGilboa : Gilboa<T> {
  static void run(ScalarVectorGilboaProduct& o, const GilboaOp& op, const Mod& m, int role, int party, const Layout& l, std::vector<T>& out) {
    std::vector<T> yy;
    for (u128 v : op.y) yy.push_back(mk<T>(v));
    Arena<T> a(m, l, party, {(int64_t)yy.size()});
    Borrow<T> y(yy, "the vector", !l.apart);
    if (role == 0) need_ok(o.RunVectorProvider<T>(y.span(), a.spans[0]), "providing the vector");
    else need_ok(o.RunValueProvider<T>(mk<T>(op.x), a.spans[0]), "providing the scalar");
    out = a.take()[0];
  }
};
template <typename T> struct MVole {
  typedef VOp Op;
  typedef Step<T> Out;
  typedef DistributedVectorOLE<T> Obj;
  template <typename V> static Vector<T> own(V& v) {  // copies, then overwrites what was returned
    Vector<T> c = v;
    for (int64_t i = 0; i < v.size(); i++) v[i] = T(5);
    return c;
  }
  static void run(Obj& o, const Op& op, const Mod& m, int role, int, const Layout&, Out& st) {
    if (op.pre) { vole_op<T>(o, op, m, role, st); return; }
    if (role == 0) {
      auto r = o.RunSender(op.n);
      need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "running the sender");
      auto& x = r.ValueOrDie();
      st.u = own(x.u);
      st.v = own(x.v);
    } else {
      auto r = o.RunReceiver(op.n);
      need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "running the receiver");
      auto& x = r.ValueOrDie();
      st.w = own(x.w);
      st.delta = x.delta;
      x.delta = T(9);
    }
  }
  static void check(const Op& op, const Mod&, const Out out[2]) {
    if (op.pre) return;
    MC_CHECK(out[0].u.size() == op.n && out[0].v.size() == op.n && out[1].w.size() == op.n, "vector OLE: wrong output length");
    for (int64_t j = 0; j < op.n; j++)
      if (val(add(mul((T)out[0].u[j], (T)out[1].delta), (T)out[0].v[j])) != val((T)out[1].w[j])) mc::violation("vector OLE: position %ld does not satisfy w = u*delta + v", (long)j);
  }
};
static std::vector<Layout> layouts() {
  std::vector<Layout> v;
  for (int f = 0; f < 3; f++) { Layout l; l.apart = true; l.fill = f; v.push_back(l); }
  for (int order = 0; order < 3; order++)
    for (int gap : {0, 1, 2})
      for (int lead : {0, 1, 3}) { Layout l; l.order = order; l.gap = gap; l.lead = lead; l.fill = (order + gap + lead) % 3; v.push_back(l); }
  return v;
}
static const std::vector<std::array<int, 2>> kTeams{{1, 1}, {2, 2}, {4, 3}};
// A session: all operations, those of the parties with layouts `la` and onwards.
template <typename P, typename T>
static void session(const Conf& c, const Mod& m, const std::vector<typename P::Op>& ops, size_t la, const std::array<int, 2>& team) {
  static const auto L = layouts();
  Sess<T> s(c, m);
  s.link.keep = false;
  for (int p = 0; p < 2; p++) mc::omp_cfg[p] = {team[0], team[1]};
  std::vector<std::array<typename P::Out, 2>> out(ops.size());
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    other_moduli<T>();
    Caller before = Caller::now();
    auto o = create<typename P::Obj>(ch);
    before.same("creation");
    for (size_t i = 0; i < ops.size(); i++) {
      int role = role_of(party, c.first, ops[i].dir);
      auto& l = L[(la + (i & 2 ? i * 7 : 0)) % L.size()];
      P::run(*o, ops[i], m, role, party, l, out[i][role]);
      before.same("a call");
    }
    o.reset();
    before.same("destruction");
  });
  install<T>(m);
  for (size_t i = 0; i < ops.size(); i++) P::check(ops[i], m, out[i].data());
  for (int p = 0; p < 2; p++) mc::omp_cfg[p] = {1, 1};
  mc::report().evaluations++;
  mc::report().states += ops.size();
}
static std::vector<std::vector<int64_t>> shapes() {
  std::vector<int64_t> lens{0, 1, 2, 3, 5, 8, 9, 17};
  std::vector<std::vector<int64_t>> v{{}};
  for (int64_t a : lens) v.push_back({a});
  for (int64_t a : lens) for (int64_t b : lens) v.push_back({a, b});
  for (int64_t a : {0, 1, 3, 4}) for (int64_t b : {0, 1, 2, 5}) for (int64_t c : {0, 1, 3, 7}) v.push_back({a, b, c});
  v.push_back({33, 1, 0, 16, 2});
  v.push_back(std::vector<int64_t>(20, 3));
  v.push_back({100, 64, 65});
  return v;
}
template <typename T> static void protocols(const Mod& m, int every, const Scaled& sc) {
  auto confs = all_confs();
  auto sh = shapes();
  auto L = layouts();
  std::string ty = full_name<T>(m);
  auto go = [&](const std::string& what, auto f) {
    if (!take(ty + " " + what)) return;
    if (is_mod<T>::value) install<T>(m);
    f();
  };
  // Sessions of six operations with the shapes in order; every layout.
  for (size_t from = 0, q = 0; from < sh.size(); from += 6)
    for (size_t la = 0; la < L.size(); la++, q++) {
      if (every > 1 && mc::mix(q) % every && !mc::thorough()) continue;
      Conf c = confs[q % confs.size()];
      auto team = kTeams[(q / 3) % kTeams.size()];
      std::vector<RotOp> r;
      std::vector<SpfssOp> p;
      for (size_t i = from; i < from + 6 && i < sh.size(); i++) {
        RotOp o;
        o.len = sh[i];
        o.dir = (i + q) & 1;
        for (size_t j = 0; j < o.len.size(); j++) o.idx.push_back(o.len[j] ? (int64_t)((i + q + j * 5) % o.len[j]) : 0);
        o.single = o.len.size() == 1 && (q & 2);
        r.push_back(o);
        SpfssOp s;
        s.len = o.len; s.idx = o.idx; s.dir = o.dir; s.k = q * 3 + i; s.api = o.single;
        p.push_back(s);
      }
      go(strf("transfers, shapes from %zu, layout %zu", from, la), [&] { session<MRot<T>, T>(c, m, r, la, team); });
      go(strf("single-point sharings, shapes from %zu, layout %zu", from, la), [&] { session<MSpfss<T>, T>(c, m, p, la, team); });
    }
  for (size_t la = 0; la < L.size(); la++)
    for (int64_t n = 1; n <= 24; n += n < 9 ? 1 : 5) {
      if (every > 1 && mc::mix(la * 31 + n) % every && !mc::thorough()) continue;
      Conf c = confs[(la + n) % confs.size()];
      auto team = kTeams[(la + n) / 2 % kTeams.size()];
      std::vector<MpfssOp> ops;
      for (int k = 0; k < 8; k++) {
        MpfssOp o;
        o.len = n + k / 4;
        o.dir = k / 2 & 1;
        o.k = n * 7 + k;
        for (int64_t i = 0; i < o.len && (int)o.idx.size() < 1 + k / 4 + (int)la % 3; i++) o.idx.push_back(k & 1 ? i : o.len - 1 - i);
        ops.push_back(o);
      }
      go(strf("multi-point sharings of %ld, layout %zu", (long)n, la), [&] { session<MMpfss<T>, T>(c, m, ops, la, team); });
    }
  for (size_t la = 0; la < L.size(); la++) {
    if (every > 1 && mc::mix(la) % every && !mc::thorough()) continue;
    std::vector<GilboaOp> ops;
    u128 top = order_minus_1<T>(m);
    for (int n : {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64}) {
      GilboaOp o;
      for (int i = 0; i < n; i++) o.y.push_back(i % 3 == 0 ? top - i % 2 : i % 2);
      o.x = n % 2 ? top : n;
      if (n % 2 == 0 && (u128)n > top) o.x = 1;
      o.dir = n & 1;
      ops.push_back(o);
    }
    go(strf("products, layout %zu", la), [&] { session<MGilboa<T>, T>(confs[la % confs.size()], m, ops, la, kTeams[la % kTeams.size()]); });
  }
  auto P = [](int64_t n, int delta, int dir = 0) { VOp o; o.pre = true; o.n = n; o.delta = delta; o.dir = dir; return o; };
  auto R = [](int64_t n, int dir = 0) { VOp o; o.n = n; o.dir = dir; return o; };
  std::vector<std::vector<VOp>> hs{{R(5), R(1), R(sc.max_batch[0]), R(3)}, {P(20, 3), R(20), R(20), R(7), R(13), R(1)}, {P(30, -1), R(30), P(4, 2), R(4), R(9)}, {P(20, 1), P(20, 2, 1), R(5), R(6, 1), R(40), R(41, 1)}};
  use_params(sc.p);
  for (size_t h = 0; h < hs.size(); h++)
    for (size_t t = 0; t < kTeams.size(); t++)
      go(strf("vector OLE, history %zu, threads %zu", h, t), [&] { session<MVole<T>, T>(confs[(h + t) % confs.size()], m, hs[h], 0, kTeams[t]); });
}
// The parts below the protocols.
static void parts() {
  for (int arity = 2; arity <= 5; arity++)
    for (int64_t n = 1; n <= 40; n++) {
      if (!take(strf("tree of arity %d with %ld leaves", arity, (long)n))) continue;
      mc::omp_cfg[0] = {1, 1};
      mc::run1([&] {
        other_moduli<int>();
        Caller before = Caller::now();
        std::vector<a128> keys, leaves;
        for (int i = 0; i < arity; i++) keys.push_back(A(mc::mix(i + 10 * n)));
        std::vector<std::vector<a128>> x;
        std::unique_ptr<GGMTree> full, part;
        {
          auto k = std::unique_ptr<std::vector<a128>>(new std::vector<a128>(keys));
          full = std::move(GGMTree::Create(n, A(77), *k).ValueOrDie());
          for (auto& e : *k) e = 0;
        }
        int64_t miss = n / 2;
        {
          Borrow<a128> k(keys, "the keys");
          auto sib = full->GetSiblingWiseXOR();
          auto again = full->GetSiblingWiseXOR();
          MC_CHECK(sib == again, "asking for the sums changes the tree");
          std::unique_ptr<Borrow<std::vector<a128>>> b;
          auto copy = std::unique_ptr<std::vector<std::vector<a128>>>(new std::vector<std::vector<a128>>(sib));
          auto r = GGMTree::CreateFromSiblingWiseXOR(arity, n, miss, *copy, k.span());
          need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "the partial tree");
          part = std::move(r.ValueOrDie());
          MC_CHECK(*copy == sib, "the sums given are changed");
          for (auto& l : *copy) for (auto& e : l) e = 0;
        }
        MC_CHECK((int)full->keys().size() == arity && (int)part->keys().size() == arity, "wrong number of keys");
        for (int i = 0; i < arity; i++) MC_CHECK(full->keys()[i] == keys[i] && part->keys()[i] == keys[i], "key %d is not what was given", i);
        for (int64_t i = 0; i < n; i++)
          if (i != miss) MC_CHECK(full->GetValueAtLeaf(i).ValueOrDie() == part->GetValueAtLeaf(i).ValueOrDie(), "leaf %ld", (long)i);
        before.same("the tree");
      });
      mc::report().evaluations++;
      mc::report().states++;
    }
  for (int64_t n : {0, 1, 2, 5, 20, 100})
    for (auto& t : kTeams) {
      if (!take(strf("hashing %ld inputs, %d of %d threads", (long)n, t[1], t[0]))) continue;
      mc::omp_cfg[0] = {t[0], t[1]};
      mc::run1([&] {
        other_moduli<int>();
        Caller before = Caller::now();
        auto h = std::move(CuckooHasher::Create(A(5), 3).ValueOrDie());
        int64_t nb = n + n / 2 + 4;
        std::vector<int64_t> in;
        for (int64_t i = 0; i < n; i++) in.push_back(i * i + 3);
        std::vector<std::vector<int64_t>> simple[2];
        std::vector<int64_t> cuckoo[2];
        for (int k = 0; k < 2; k++) {
          Borrow<int64_t> b(in, "the inputs");
          auto s = h->HashSimple<int64_t>(b.span(), nb);
          auto c = h->HashCuckoo<int64_t>(b.span(), nb);
          need_ok(s.ok() ? mpc_utils::OkStatus() : s.status(), "simple hashing");
          simple[k] = s.ValueOrDie();
          if (c.ok()) cuckoo[k] = c.ValueOrDie();
          before.same("hashing");
          for (auto& x : s.ValueOrDie()) x.assign(3, 1);
        }
        MC_CHECK(simple[0] == simple[1] && cuckoo[0] == cuckoo[1], "hashing the same inputs again gives other buckets");
      });
      mc::omp_cfg[0] = {1, 1};
      mc::report().evaluations++;
      mc::report().states++;
    }
  for (int64_t size : {1, 16, 17, 100, 4096}) {
    if (!take(strf("generator with a buffer of %ld", (long)size))) continue;
    std::vector<uint8_t> seed(32);
    for (int i = 0; i < 32; i++) seed[i] = i * 7;
    std::vector<uint64_t> got[2];
    for (int k = 0; k < 2; k++) {
      std::unique_ptr<AESUniformBitGenerator> g;
      std::unique_ptr<Borrow<uint8_t>> b(new Borrow<uint8_t>(seed, "the seed"));
      auto r = AESUniformBitGenerator::Create(b->span(), size);
      need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "the generator");
      g.reset(new AESUniformBitGenerator(std::move(r.ValueOrDie())));
      if (k) b.reset();
      for (int i = 0; i < 600; i++) got[k].push_back((*g)());
    }
    MC_CHECK(got[0] == got[1], "the generator depends on the seed's memory after its creation");
    mc::report().evaluations++;
    mc::report().states++;
  }
}
// Filling and converting scalars.
template <typename T> static void scalars(const Mod& m) {
  for (int64_t n = 0; n <= 40; n++)
    for (int lead = 0; lead < 4; lead++) {
      if (!take(strf("%s random scalars, %ld from %d", full_name<T>(m).c_str(), (long)n, lead))) continue;
      mc::run1([&] {
        install<T>(m);
        other_moduli<T>();
        Caller before = Caller::now();
        for (int f = 0; f < 3; f++) {
          Layout l;
          l.lead = lead;
          l.fill = f;
          Arena<T> a(m, l, f & 1, {n});
          ScalarHelper<T>::Randomize(a.spans[0]);
          auto v = a.take()[0];
          int64_t same = 0;
          for (int64_t i = 0; i < n; i++) same += val(v[i]) == val(fill<T>(m, f, f & 1, i + lead));
          if (order_minus_1<T>(m) >> 60 && same) mc::violation("%ld of %ld elements are not set", (long)same, (long)n);
          if (n >= 16 && same == n) mc::violation("the elements are not set");
          before.same("filling with random values");
        }
      });
      mc::report().evaluations++;
      mc::report().states++;
    }
}

int main(int argc, char** argv) {
  mc::init(argc, argv, "C27");
  auto sc = scaled_params();
#ifdef MC_SMALL
  const int e = 8;
#else
  const int e = 1;
#endif
  protocols<uint8_t>(Mod{}, e, sc);
  protocols<uint64_t>(Mod{}, e, sc);
  protocols<a128>(Mod{}, e, sc);
  protocols<gf128>(Mod{}, 2 * e, sc);
  protocols<uint16_t>(Mod{}, 3 * e, sc);
  protocols<uint32_t>(Mod{}, 3 * e, sc);
  protocols<NTL::ZZ_p>(Mod{61, -1}, 2 * e, sc);
  protocols<NTL::ZZ_p>(Mod{127, -1}, 3 * e, sc);
  protocols<NTL::zz_p>(Mod{30, -35}, 2 * e, sc);
  scalars<uint8_t>(Mod{});
  scalars<uint64_t>(Mod{});
  scalars<a128>(Mod{});
  scalars<gf128>(Mod{});
  scalars<NTL::ZZ_p>(Mod{61, -1});
  scalars<NTL::zz_p>(Mod{30, -35});
  parts();
  mc::sample(strf("last case: %s", mc::current_case().c_str()));
  mc::finish();
}
