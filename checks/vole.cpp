// C19 vector OLE histories, C24 no reuse.
#include "checks/vole.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) {
  if (!mc::shard_owns(g_idx++) || !mc::want(id)) return false;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  return true;
}
template <typename F> void each_type(F f) {
  f(a128(), Mod{}, 0);
  f(NTL::ZZ_p(), Mod{61, -1}, 1);
  f(uint8_t(), Mod{}, 1);
  f(uint64_t(), Mod{}, 1);
  f(gf128(), Mod{}, 1);
  f(NTL::zz_p(), Mod{30, -35}, 1);
  f(NTL::ZZ_p(), Mod{127, -1}, 1);
  f(NTL::ZZ_p(), Mod{128, -159}, 2);
  f(uint16_t(), Mod{}, 2);
  f(uint32_t(), Mod{}, 2);
  f(NTL::ZZ_p(), Mod{1, 1}, 2);
  f(NTL::ZZ_p(), Mod{8, 1}, 2);
  f(NTL::zz_p(), Mod{59, -55}, 2);
}
static Scaled g_sc;
static VOp P(int64_t n, int delta = -1, int dir = 0) { VOp o; o.pre = true; o.n = n; o.delta = delta; o.dir = dir; return o; }
static VOp R(int64_t n, int dir = 0) { VOp o; o.n = n; o.dir = dir; return o; }

#if PROP == 19 || PROP == 24
template <typename T> static void monitor(const std::vector<VOp>& h, const std::vector<Step<T>>& st, const Sess<T>& s, const Conf& c);

template <typename T> static void one(const Conf& c, const Mod& m, const std::vector<VOp>& h) {
  Sess<T> s(c, m);
#if PROP == 24
  auto st = vole_history<T>(s, c, m, h, true);
  monitor<T>(h, st, s, c);
#else
  vole_history<T>(s, c, m, h);
#endif
}
template <typename T> static void sequences(const Mod& m, const std::string& name, const std::vector<VOp>& alpha, int depth) {
  auto confs = all_confs();
  uint64_t total = 1;
  for (int i = 0; i < depth; i++) total *= alpha.size();
  for (uint64_t q = 0; q < total; q++) {
    std::vector<VOp> h;
    uint64_t y = q;
    for (int i = 0; i < depth; i++) { h.push_back(alpha[y % alpha.size()]); y /= alpha.size(); }
    if (h.back().pre && depth > 1 && q % 7) continue;  // a precomputation at the end is only run
    if (!take(strf("%s %s %s", full_name<T>(m).c_str(), name.c_str(), show(h).c_str()))) continue;
    install<T>(m);
    one<T>(confs[mc::mix(q) % confs.size()], m, h);
  }
}
template <typename T> static void grid(const Mod& m, int weight) {
  install<T>(m);
  int64_t b0 = g_sc.max_batch[0], b1 = g_sc.max_batch[1], b2 = g_sc.max_batch[2];
  // Batches of every level and beyond the largest one; requests below, at and
  // above the batch and across several expansions.
  std::vector<VOp> alpha{P(1), P(20, 3), P(b1, 1), P(150), P(b2 + 700, 0), R(1), R(13), R(20), R(b1 + 1), R(150), R(3 * b2 + 5)};
  int depth = weight == 0 ? (mc::thorough() ? 5 : 3) : weight == 1 ? (mc::thorough() ? 4 : 3) : (mc::thorough() ? 3 : 1);
  for (int d = 1; d <= depth; d++) sequences<T>(m, "history", alpha, d);
  if (!mc::thorough() && weight == 0) sequences<T>(m, "history", {P(2), P(b1 + 1, 2), R(2), R(b1 + 2), R(400)}, 4);
  // Every batch size and request around the thresholds.
  if (weight < 2)
    for (int64_t b : std::set<int64_t>{1, 2, 3, b0 - 1, b0, b0 + 1, b1 - 1, b1, b1 + 1, b2 - 1, b2, b2 + 1, 10 * b2, (int64_t)1 << 31, (int64_t)1 << 33, std::numeric_limits<int64_t>::max() - 20,
                                 std::numeric_limits<int64_t>::max()})
      for (int64_t n : b > 10 * b2 ? std::set<int64_t>{1, 40, b2 + 1} : std::set<int64_t>{1, 2, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, b2 + 1}) {
        if (n < 1 || n > 600) continue;
        for (int first = 0; first < 2; first++) {
          std::vector<VOp> h{P(b, first ? 4 : -1), R(n), R(n), R(1)};
          if (!take(strf("%s sizes first %d %s", full_name<T>(m).c_str(), first, show(h).c_str()))) continue;
          install<T>(m);
          Conf c;
          c.first = first;
          one<T>(c, m, h);
        }
      }
  // All boundary values of delta.
  for (int d = 0; d < 11; d++) {
    std::vector<VOp> h{P(30, d), R(40), P(5, (d + 1) % 11), R(7), R(3)};
    if (!take(strf("%s delta %d", full_name<T>(m).c_str(), d))) continue;
    install<T>(m);
    one<T>(all_confs()[d % 8], m, h);
  }
  // Both directions on the same objects.
  std::vector<VOp> both{P(5), P(b1, 1), P(100, 2), R(6), R(70), P(5, -1, 1), P(b1, 3, 1), P(100, -1, 1), R(6, 1), R(70, 1)};
  for (int d = 2; d <= (weight == 0 || mc::thorough() ? 3 : 2); d++) sequences<T>(m, "both directions", both, d);
  if (weight < 2)
    for (auto& h : std::vector<std::vector<VOp>>{{P(5), P(100, 2, 1), R(6), R(9, 1), R(20), R(300, 1), R(50)},
                                                 {P(100), P(5, 2, 1), R(6), R(9, 1), R(300), R(30, 1), R(300)},
                                                 {R(3), R(200, 1), R(3), R(200, 1), P(40), R(300, 1), R(90)}}) {
      if (!take(strf("%s both directions %s", full_name<T>(m).c_str(), show(h).c_str()))) continue;
      install<T>(m);
      for (auto& c : all_confs()) one<T>(c, m, h);
    }
}
template <typename T> static void real(const Mod& m, const std::vector<std::vector<VOp>>& hs) {
  for (auto& h : hs) {
    if (!take(strf("%s real parameters %s", full_name<T>(m).c_str(), show(h).c_str()))) continue;
    use_params(real_params());
    install<T>(m);
    Sess<T> s(all_confs()[h.size() % 8], m);
    s.link.keep = false;
    vole_history<T>(s, all_confs()[h.size() % 8], m, h);
    use_params(g_sc.p);
  }
}

#endif

#if PROP == 19
// A precomputation without a delta draws one, whatever happened before: not the
// one of any earlier precomputation, nor one fixed in advance.
template <typename T> static void fresh_deltas() {
  std::vector<VOp> alpha{P(5), P(g_sc.max_batch[1]), P(9, 3), R(4), R(300), P(5, -1, 1), P(7, 4, 1), R(6, 1)};
  std::vector<std::vector<VOp>> hs;
  for (auto& a : alpha) { hs.push_back({a}); for (auto& b : alpha) { hs.push_back({a, b}); for (auto& c : alpha) hs.push_back({a, b, c}); } }
  auto confs = all_confs();
  for (size_t q = 0; q < hs.size(); q++) {
    auto h = hs[q];
    h.push_back(P(6));
    h.push_back(R(2));
    h.push_back(R(40));
    h.push_back(P(30));
    h.push_back(R(1));
    if (!take(strf("%s fresh delta %s", full_name<T>(Mod{}).c_str(), show(h).c_str()))) continue;
    Conf c = confs[q % confs.size()];
    Sess<T> s(c, Mod{});
    auto st = vole_history<T>(s, c, Mod{}, h);
    size_t n = h.size();
    std::set<u128> seen;
    for (int d = 0; d < 11; d++) seen.insert(val(pattern<T>(Mod{}, d)));
    for (size_t i = 0; i < n; i++) {
      if (h[i].pre || h[i].dir) continue;
      // Deltas that a precomputation drew: new each time.
      bool first = false, drawn = false;
      for (size_t j = i; j-- > 0;) {
        if (h[j].dir) continue;
        if (h[j].pre) { first = j + 1 == i || i == n - 1; drawn = h[j].delta < 0; break; }
      }
      if (i < n - 4 || !first || !drawn) continue;
      if (!seen.insert(val(st[i].delta)).second) mc::violation("history %s, operation %zu: the precomputation before did not draw a new delta, but uses %s again", show(h).c_str(), i, show(st[i].delta).c_str());
    }
    // Nor the one of any run before the last two precomputations.
    for (size_t i = 0; i + 5 < n; i++)
      if (!h[i].pre && !h[i].dir)
        for (size_t j : {n - 4, n - 1})
          if (val(st[i].delta) == val(st[j].delta)) mc::violation("history %s: operations %zu and %zu have the same delta, but a precomputation in between should have drawn another one", show(h).c_str(), i, j);
  }
}
// Two objects for different types or moduli, used in turns on one channel.
struct OleUse {
  virtual ~OleUse() {}
  virtual void enter() = 0;
  virtual void make(int party, mpc_utils::comm_channel& ch) = 0;
  virtual void run(int party, int first, size_t i) = 0;
  virtual void check() = 0;
  virtual void prepare() = 0;
  virtual void drop(int party) = 0;
  std::vector<VOp> h;
  std::string name;
};
template <typename T> struct OleUseOf : OleUse {
  Mod m;
  std::vector<Step<T>> st;
  std::unique_ptr<DistributedVectorOLE<T>> o[2];
  explicit OleUseOf(const Mod& m) : m(m) { name = full_name<T>(m); }
  void enter() override { install<T>(m); }
  void make(int party, mpc_utils::comm_channel& ch) override { o[party] = create<DistributedVectorOLE<T>>(ch); }
  void run(int party, int first, size_t i) override { vole_op<T>(*o[party], h[i], m, role_of(party, first, h[i].dir), st[i]); }
  void prepare() override { st.resize(h.size()); }
  void drop(int party) override { o[party].reset(); }
  void check() override {
    for (size_t i = 0; i < h.size(); i++) {
      if (h[i].pre) continue;
      auto& x = st[i];
      MC_CHECK(x.u.size() == h[i].n && x.v.size() == h[i].n && x.w.size() == h[i].n, "%s: vectors of other lengths than %ld", name.c_str(), (long)h[i].n);
      if (i && h[i - 1].pre && h[i - 1].delta >= 0) MC_CHECK(val(x.delta) == val(pattern<T>(m, h[i - 1].delta)), "%s: another delta than requested", name.c_str());
      for (int64_t j = 0; j < h[i].n; j++) {
        T want = add(mul((T)x.u[j], (T)x.delta), (T)x.v[j]);
        if (val(want) != val((T)x.w[j])) mc::violation("%s, operation %zu of %s, position %ld: w is %s, but u*delta+v is %s", name.c_str(), i, show(h).c_str(), (long)j, show((T)x.w[j]).c_str(), show(want).c_str());
      }
    }
  }
};
static void in_turns() {
  typedef std::function<std::unique_ptr<OleUse>()> Make;
  std::vector<Make> ks;
  auto k = [&](auto x, const Mod& m) { typedef decltype(x) T; ks.push_back([m] { return std::unique_ptr<OleUse>(new OleUseOf<T>(m)); }); };
  k(uint8_t(), Mod{});
  k(a128(), Mod{});
  k(gf128(), Mod{});
  k(NTL::ZZ_p(), Mod{8, 1});
  k(NTL::ZZ_p(), Mod{16, 1});
  k(NTL::ZZ_p(), Mod{61, -1});
  k(NTL::ZZ_p(), Mod{127, -1});
  k(NTL::zz_p(), Mod{8, 1});
  k(NTL::zz_p(), Mod{30, -35});
  k(NTL::zz_p(), Mod{16, 1});
  auto confs = all_confs();
  for (size_t a = 0; a < ks.size(); a++) for (size_t b = 0; b < ks.size(); b++) for (int v = 0; v < 2; v++) {
    auto ua = ks[a](), ub = ks[b]();
    if (!take(strf("in turns %s, %s, variant %d", ua->name.c_str(), ub->name.c_str(), v))) continue;
    OleUse* u[2] = {ua.get(), ub.get()};
    u[0]->h = v ? std::vector<VOp>{P(g_sc.max_batch[1], 1), R(60), R(60), R(7)} : std::vector<VOp>{P(5, 2), R(6), R(20), R(90)};
    u[1]->h = v ? std::vector<VOp>{R(12), P(40, 8), R(50), R(1)} : std::vector<VOp>{P(g_sc.max_batch[0], 9), R(30), P(6), R(150)};
    Conf c = confs[(a + b) % confs.size()];
    Sess<a128> s(c, Mod{});
    for (auto x : u) { x->enter(); x->prepare(); }
    s.both([&](int party, mpc_utils::comm_channel& ch) {
      for (auto x : u) { x->enter(); x->make(party, ch); }
      for (size_t i = 0; i < u[0]->h.size(); i++) for (auto x : u) { x->enter(); x->run(party, c.first, i); }
      for (auto x : u) { x->enter(); x->drop(party); }
    });
    for (auto x : u) { x->enter(); x->check(); }
    mc::report().evaluations++;
    mc::report().states += 8;
  }
}
#endif
#if PROP == 24
static uint64_t n_expansions, n_peeked, n_unpeeked, n_noise;
static std::map<int64_t, std::map<int64_t, uint64_t>> g_noise_at;  // output size -> position -> hits
template <typename V> static bool decode_as(const std::string& d, V* v) {
  try {
    std::istringstream is(d);
    boost::archive::binary_iarchive ar(is, boost::archive::no_header);
    ar >> *v;
    return is.peek() == std::char_traits<char>::eof();
  } catch (const std::exception&) { return false; }
}
template <typename T> static bool scalars(const mc::Msg& m, std::vector<T>* out) {
  if (m.type == std::string(typeid(std::vector<T>).name())) return decode_as(m.data, out);
  Vector<T> e;
  if (m.type == std::string(typeid(Vector<T>).name()) && decode_as(m.data, &e)) { out->assign(e.data(), e.data() + e.size()); return true; }
  return false;
}
template <typename T> static bool wide(const Mod& m) { return order_minus_1<T>(m) >> 100; }
template <typename T>
static void monitor(const std::vector<VOp>& h, const std::vector<Step<T>>& st, const Sess<T>& s, const Conf& c) {
  std::string hs = show(h);
  // The same public code on both sides, always.
  for (size_t i = 0; i < h.size(); i++) {
    auto &a = st[i].code[0], &b = st[i].code[1];
    if (!a.have || !b.have) continue;
    bool same = a.rows == b.rows && a.cols == b.cols && a.e.size() == b.e.size();
    for (size_t k = 0; same && k < a.e.size(); k++)
      same = std::get<0>(a.e[k]) == std::get<0>(b.e[k]) && std::get<1>(a.e[k]) == std::get<1>(b.e[k]) && val(std::get<2>(a.e[k])) == val(std::get<2>(b.e[k]));
    if (!same) mc::violation("history %s: after operation %zu the parties hold different codes", hs.c_str(), i);
    // The noise of a parameter set is for outputs of at most a certain length.
    for (size_t k = 0; k < g_sc.p.seed.size(); k++)
      if (a.rows == g_sc.p.seed[k] && a.cols > g_sc.p.out[k])
        mc::violation("history %s: after operation %zu seeds of length %ld are to be expanded to %ld, but their noise is for at most %d", hs.c_str(), i, (long)a.rows, (long)a.cols, g_sc.p.out[k]);
  }
  if (!wide<T>(s.mod)) return;
  // Who has used a value, and for what.
  std::map<u128, std::string> used_u, used_v, used_w;
  auto use = [&](std::map<u128, std::string>& where, u128 x, const std::string& what) {
    auto r = where.emplace(x, what);
    if (!r.second) mc::violation("history %s: %s has the same value (%s) as %s", hs.c_str(), what.c_str(), hex(x).c_str(), r.first->second.c_str());
  };
  // Messages: masked values never repeat.
  std::map<u128, std::string> sent;
  std::vector<size_t> per_op(h.size(), 0);   // masked vectors of the sender
  size_t cnt[2] = {0, 0}, op_of[2] = {0, 0};
  for (size_t at = 0; at < s.link.log.size(); at++) {
    auto& msg = s.link.log[at];
    size_t& i = op_of[msg.from];
    while (i + 1 < h.size() && cnt[msg.from] >= st[i].sent[msg.from]) i++;
    cnt[msg.from]++;
    std::vector<T> v;
    if (msg.ot || !msg.typed || !scalars(msg, &v)) continue;
    for (size_t k = 0; k < v.size(); k++)
      if (!zero(v[k])) use(sent, val(v[k]), strf("entry %zu of message %zu", k, at));
    if (msg.from == (c.first ^ h[i].dir)) per_op[i]++;
  }
  for (size_t i = 0; i < h.size(); i++) {
    auto& x = st[i];
    if (h[i].pre) continue;
    for (int64_t j = 0; j < h[i].n; j++) {
      use(used_u, val((T)x.u[j]), strf("u[%ld] of operation %zu", (long)j, i));
      use(used_v, val((T)x.v[j]), strf("v[%ld] of operation %zu", (long)j, i));
      use(used_w, val((T)x.w[j]), strf("w[%ld] of operation %zu", (long)j, i));
      auto it = sent.find(val((T)x.u[j]));
      if (it != sent.end()) mc::violation("history %s: u[%ld] of operation %zu served as a mask: it was sent as %s", hs.c_str(), (long)j, i, it->second.c_str());
      it = sent.find(val((T)x.v[j]));
      if (it != sent.end()) mc::violation("history %s: v[%ld] of operation %zu served as a mask: it was sent as %s", hs.c_str(), (long)j, i, it->second.c_str());
    }
  }
  // Drawn deltas do not repeat.
  for (int d = 0; d < 2; d++) {
    std::set<u128> deltas;
    bool open = true, drawn = true;
    for (size_t i = 0; i < h.size(); i++) {
      if (h[i].dir != d) continue;
      if (h[i].pre) { open = true; drawn = h[i].delta < 0; continue; }
      if (open && drawn && !deltas.insert(val(st[i].delta)).second) mc::violation("history %s: the delta drawn by a precomputation has been used before", hs.c_str());
      open = false;
    }
  }
  // Seeds, per direction.
  for (int d = 0; d < 2; d++) {
    const Snap<T>* prev = nullptr;
    const Step<T>* prev_step = nullptr;
    std::deque<std::vector<u128>> last_pos;
    uint64_t repeats_of_any = 0, repeat_pairs = 0;
    std::map<u128, std::string> noise;
    int repeats = 0;
    for (size_t i = 0; i < h.size(); i++) {
      if (h[i].dir != d) continue;
      auto& sn = st[i].snap;
      if (!sn.have) { n_unpeeked++; continue; }
      n_peeked++;
      auto eq = [](const std::vector<T>& a, const std::vector<T>& b) {
        if (a.size() != b.size()) return false;
        for (size_t k = 0; k < a.size(); k++) if (val(a[k]) != val(b[k])) return false;
        return true;
      };
      bool new_vole = !prev || !eq(prev->vole, sn.vole), new_mpfss = !prev || !eq(prev->mpfss, sn.mpfss);
      if (new_vole != new_mpfss) mc::violation("history %s: operation %zu replaces only the %s seed", hs.c_str(), i, new_vole ? "expansion" : "noise");
      // Expansions of the operation; a first precomputation sends one masked
      // vector more (the first seeds).
      size_t exps = per_op[i];
      if (!h[i].pre && exps > 0 && !new_vole) mc::violation("history %s: operation %zu expands but keeps its seeds", hs.c_str(), i);
      if (new_vole)
        for (size_t k = 0; k < sn.vole.size(); k++) use(used_u, val(sn.vole[k]), strf("entry %zu of the expansion seed after operation %zu", k, i));
      if (new_mpfss)
        for (size_t k = 0; k < sn.mpfss.size(); k++) use(used_u, val(sn.mpfss[k]), strf("entry %zu of the noise seed after operation %zu", k, i));
      // What is cached must not be among what is used, at any time.
      for (size_t k = 0; k < sn.cache.size(); k++)
        if (used_u.count(val(sn.cache[k])) && used_u[val(sn.cache[k])][0] == 'e') mc::violation("history %s: entry %zu of the cache after operation %zu is %s, too", hs.c_str(), k, i, used_u[val(sn.cache[k])].c_str());
      // A run with one expansion: compare its output with seed * code.
      bool first_run = !h[i].pre && (!prev_step);
      if (!h[i].pre && exps == 1 && !first_run && prev && st[i].code[0].have && (int64_t)prev->vole.size() == st[i].code[0].rows) {
        std::set<u128> out;
        for (int64_t k = 0; k < h[i].n; k++) out.insert(val((T)st[i].u[k]));
        for (auto& x : sn.cache) out.insert(val(x));
        for (auto& x : sn.vole) out.insert(val(x));
        for (auto& x : sn.mpfss) out.insert(val(x));
        std::vector<T> col(st[i].code[0].cols, mk<T>(0));
        for (auto& e : st[i].code[0].e) col[std::get<1>(e)] = add(col[std::get<1>(e)], mul(prev->vole[std::get<0>(e)], std::get<2>(e)));
        std::vector<u128> pos;
        for (size_t k = 0; k < col.size(); k++) if (!out.count(val(col[k]))) pos.push_back(k);
        size_t want = 0;
        for (size_t k = 0; k < g_sc.p.seed.size(); k++) if (g_sc.p.seed[k] == (int)prev->vole.size()) want = g_sc.p.noise[k];
        if (pos.size() != want)
          mc::violation("history %s: the expansion in operation %zu has %zu noise positions, the parameters prescribe %zu", hs.c_str(), i, pos.size(), want);
        // Noise values: an output at a noise position is the noiseless value plus
        // fresh noise. Which of the outputs belongs to which position is left
        // open; with fresh values, no two of all their differences are equal.
        std::set<u128> plain;
        for (auto& x : col) plain.insert(val(x));
        for (u128 o : out) {
          if (plain.count(o)) continue;
          for (u128 p : pos) use(noise, val(sub(mk<T>(o), col[p])), strf("noise value %zu of operation %zu", noise.size(), i));
          n_noise++;
        }
        for (u128 p : pos) g_noise_at[col.size()][p]++;
        // Positions repeat by chance, but hardly ever.
        repeats = !last_pos.empty() && pos == last_pos[0] ? repeats + 1 : 0;
        if (repeats >= 2) mc::violation("history %s: three expansions in a row have the same noise positions", hs.c_str());
        for (auto& q : last_pos) repeats_of_any += q == pos, repeat_pairs++;
        if (repeats_of_any >= 4 + repeat_pairs / 500)
          mc::violation("history %s: %lu of %lu expansions have the noise positions of one of the four before", hs.c_str(), repeats_of_any, repeat_pairs / 4);
        last_pos.push_front(pos);
        if (last_pos.size() > 4) last_pos.pop_back();
        n_expansions++;
      }
      prev = &sn;
      prev_step = &st[i];
    }
  }
}
#endif

#if PROP == 22
// The masks of the first seeds' product, where they are hash values reduced
// modulo p: see C22's check of the product itself.
static uint64_t n_reduced, n_drawn, n_refused;
template <typename T> static void first_masks(double s, int k, int e) {
  int bits = 8 * k, stride = 16 / k;
  double lc = bits - s - std::log2(30.0 * bits) + e * 0.9;
  if (lc < 0 || lc > 61 || lc > bits - 1.5) return;
  Mod m{bits, -(long)std::exp2(lc)};
  if (m.add % 2 == 0) m.add++;
  if (std::is_same<T, NTL::zz_p>::value && mod_zz(m) >= NTL_SP_BOUND) return;
  std::string id = strf("%s first masks security %g", full_name<T>(m).c_str(), s);
  if (!take(id)) return;
  Conf c;
  c.first = e & 1;
  c.measured = k & 1;
  Sess<T> se(c, m);
  bool refused = false;
  se.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<DistributedVectorOLE<T>>(ch, s);
    ch.sync();
    if (party == 0) se.link.ots.clear();
    ch.sync();
    auto st = party == c.first ? o->PrecomputeSender(5) : o->PrecomputeReceiver(5);
    if (!st.ok()) refused = true;
  });
  install<T>(m);
  int64_t masks = 0;
  for (auto& o : se.link.ots)
    if (o.kind == 'C') masks += bits * (((int64_t)o.choices.size() / bits - 1) * stride + 1);
  if (refused) n_refused++;
  else (masks ? n_reduced : n_drawn)++;
  double r = (double)-m.add, H = std::exp2(bits), dist = r / H * ((H - 2 * r) / (H - r)) * (double)masks * std::exp2(s);
  if (dist > 1.02) mc::violation("%s: masks are hash values reduced modulo the modulus, but their distances from uniform add up to %g times 2^-%g", id.c_str(), dist, s);
  mc::report().evaluations++;
  mc::report().states++;
}
// First seeds: w = u*delta + v travels to the receiver. Every entry of that
// message must be shifted by exactly the change of one random draw of the
// sender that nothing else the receiver sees until then depends on.
template <typename V> static bool decode_as(const std::string& d, V* v) {
  try {
    std::istringstream is(d);
    boost::archive::binary_iarchive ar(is, boost::archive::no_header);
    ar >> *v;
    return is.peek() == std::char_traits<char>::eof();
  } catch (const std::exception&) { return false; }
}
static uint64_t n_masks, n_skipped;
template <typename T> static void first_seeds(int first, int64_t batch) {
  Mod m;
  Conf c;
  c.first = first;
  struct Run { std::vector<mc::Msg> before; std::vector<T> w; std::vector<std::vector<u128>> got; bool found = false; };
  std::vector<mc::Draw> log;
  // `word`: which word of the party's randomness has bit `bit` inverted.
  auto run = [&](int word, int bit) {
    Run r;
    mc::rng_reset(4711);
    int at = 0;
    log.clear();
    mc::rng_hook = [&](unsigned char* p, size_t n) {
      mc::rng_fill(p, n);
      if (mc::self_party() != first) return true;
      for (size_t i = 0; i < n; i += 8, at++)
        if (at == word) p[i + std::min<size_t>(bit / 8, n - i - 1)] ^= 1 << bit % 8;
      return true;
    };
    mc::rng_log = &log;
    Sess<T> s(c, m);
    size_t created = 0;
    s.both([&](int party, mpc_utils::comm_channel& ch) {
      auto o = create<DistributedVectorOLE<T>>(ch);
      ch.sync();
      if (party == 0) created = s.link.log.size();
      if (party == 0) s.link.ots.clear();
      ch.sync();
      need_ok(party == first ? o->PrecomputeSender(batch) : o->PrecomputeReceiver(batch, mk<T>(12345)), "precomputation");
    });
    mc::rng_hook = nullptr;
    mc::rng_log = nullptr;
    for (size_t i = created; i < s.link.log.size() && !r.found; i++) {
      auto& msg = s.link.log[i];
      if (msg.from != first) continue;
      if (!msg.ot) {
        if (msg.type == std::string(typeid(std::vector<T>).name())) r.found = decode_as(msg.data, &r.w);
        Vector<T> e;
        if (msg.type == std::string(typeid(Vector<T>).name())) { r.found = decode_as(msg.data, &e); if (r.found) r.w.assign(e.data(), e.data() + e.size()); }
        if (r.found) break;
      }
      // The data of a correlated transfer contains both messages' difference;
      // what the receiver gets to know of it is in `got`.
      if (!msg.ot) r.before.push_back(msg);
    }
    if (!s.link.ots.empty() && s.link.ots[0].sender == first) r.got.push_back(s.link.ots[0].got);
    mc::report().evaluations++;
    return r;
  };
  Run base = run(-1, 0);
  if (!base.found) { n_skipped++; return; }
  size_t words = 0;
  for (auto& d : log) if (d.party == first) words += (d.bytes.size() + 7) / 8;
  // Each half of each entry must be moved, alone, by some random bit.
  for (int bit : {0, 61}) {
    std::vector<std::array<int, 2>> masks(base.w.size(), {{0, 0}});
    for (size_t k = 0; k < words; k++) {
      Run r = run((int)k, bit);
      mc::report().states++;
      if (!r.found || r.w.size() != base.w.size()) continue;
      std::vector<size_t> moved;
      for (size_t i = 0; i < r.w.size(); i++) if (val(r.w[i]) != val(base.w[i])) moved.push_back(i);
      bool others = r.before.size() != base.before.size() || r.got != base.got;
      for (size_t i = 0; !others && i < r.before.size(); i++) others = r.before[i].data != base.before[i].data;
      if (moved.size() == 1 && !others)
        for (u128 x : {val(sub(r.w[moved[0]], base.w[moved[0]])), val(sub(base.w[moved[0]], r.w[moved[0]]))})
          if (x && !(x & (x - 1))) { masks[moved[0]][x >> 64 ? 1 : 0]++; break; }
      else if (moved.size() > 1) mc::violation("vector OLE, batch %ld: %zu entries of the first seed's message depend on the same random value", (long)batch, moved.size());
    }
    for (size_t i = 0; i < masks.size(); i++)
      for (int h = 0; h < 2; h++)
        if (!masks[i][h]) mc::violation("vector OLE, batch %ld: no random value of its own masks the %s half of entry %zu of the first seed's message", (long)batch, h ? "upper" : "lower", i);
    n_masks += masks.size();
  }
}
#endif

int main(int argc, char** argv) {
  mc::init(argc, argv, strf("C%d", PROP).c_str());
  g_sc = scaled_params();
  use_params(g_sc.p);
#if PROP == 19
  fresh_deltas<a128>();
  fresh_deltas<gf128>();
  in_turns();
  each_type([](auto x, const Mod& m, int weight) { grid<decltype(x)>(m, weight); });
  std::vector<std::vector<VOp>> hs{{R(3000), R(5000)}, {P(20000, 3), R(20000), R(20001)}};
  if (mc::thorough()) {
    hs.push_back({P(100000), R(99999), R(2), R(100001)});
    hs.push_back({P(500000, 1), R(500000), P(1), R(40000)});
  }
  real<a128>(Mod{}, hs);
  real<gf128>(Mod{}, hs);
  real<NTL::ZZ_p>(Mod{61, -1}, hs);
  if (mc::thorough()) real<uint8_t>(Mod{}, {{R(9000000), R(3000000)}});
#elif PROP == 22
  for (int first = 0; first < 2; first++)
    for (int64_t b : {1, 60}) {
      if (take(strf("u128 first seeds first %d batch %ld", first, (long)b))) first_seeds<a128>(first, b);
      if (take(strf("gf128 first seeds first %d batch %ld", first, (long)b))) first_seeds<gf128>(first, b);
    }
  for (double sec : {0.0, 10.0, 20.0, 30.0, 40.0, 47.5, 60.0, 80.0})
    for (int k : {1, 2, 3, 4, 5, 6, 7, 8, 10, 12})
      for (int e = -8; e <= 40; e++) {
        first_masks<NTL::ZZ_p>(sec, k, e);
        if (k < 8 && e % 2 == 0) first_masks<NTL::zz_p>(sec, k, e);
      }
  mc::count("first_seed_products_with_reduced_masks", n_reduced);
  mc::count("first_seed_products_with_drawn_masks", n_drawn);
  mc::count("first_seed_products_refused", n_refused);
  mc::count("first_seed_masks", n_masks);
  mc::count("pairs_not_applicable", n_skipped);
#elif PROP == 24
  grid<a128>(Mod{}, 0);
  grid<gf128>(Mod{}, 1);
  grid<NTL::ZZ_p>(Mod{127, -1}, 1);
  // Many expansions: every position gets noise at some time.
  for (int k = 0; k < 8; k++) {
    if (!take(strf("noise positions %d", k))) continue;
    g_noise_at.clear();
    int64_t b = std::vector<int64_t>{1, 10, 20, g_sc.max_batch[0], 40, g_sc.max_batch[1], 100, g_sc.max_batch[2]}[k];
    std::vector<VOp> h{P(b)};
    for (int i = 0; i < (mc::thorough() ? 8000 : 1500); i++) h.push_back(R(b));
    Conf c;
    c.first = k & 1;
    one<a128>(c, Mod{}, h);
    for (auto& q : g_noise_at) {
      uint64_t hits = 0;
      for (auto& p : q.second) hits += p.second;
      if (hits < (uint64_t)q.first * 30) continue;
      for (int64_t p = 0; p < q.first; p++)
        if (!q.second.count(p)) mc::violation("batch %ld: in %lu draws of noise positions out of %ld, position %ld never got noise", (long)b, hits, (long)q.first, (long)p);
      mc::count("position_histograms");
    }
  }
  mc::count("expansions_with_noise_counted", n_expansions);
  mc::count("noise_values_compared", n_noise);
  mc::count("operations_with_seeds_observed", n_peeked);
  mc::count("operations_without", n_unpeeked);
#endif
  mc::sample(strf("last case: %s", mc::current_case().c_str()));
  mc::finish();
}
