// C23 bad arguments are refused cleanly: every bad call, by either party, in
// either role, before and between valid operations.
#include "checks/vole.h"
#include "NTL/RR.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) {
  if (!mc::shard_owns(g_idx++) || !mc::want(id)) return false;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  return true;
}
static uint64_t n_bad;
// Runs one bad call and checks that it is refused and leaves the network alone.
template <typename F> static void refuse(mc::Link& l, int party, const std::string& what, F f, bool silent = true) {
  uint64_t ops = l.ops[party], bytes = l.bytes[party], syncs = l.syncs[party];
  int opened = l.opened[party];
  bool threw = false;
  std::string w;
  bool ok = true;
  try { ok = f(); } catch (const std::exception& e) { threw = true; w = e.what(); }
  if (threw) mc::violation("%s: throws %s", what.c_str(), w.c_str());
  if (ok) mc::violation("%s: is not refused", what.c_str());
  if (silent && (l.bytes[party] != bytes || l.ops[party] != ops || l.syncs[party] != syncs || l.opened[party] != opened))
    mc::violation("%s: is refused, but only after talking to the peer", what.c_str());
  n_bad++;
}
// A vector with guards around the part that is handed out.
template <typename T> struct Guarded {
  std::vector<T> v;
  size_t n;
  explicit Guarded(size_t n) : v(n + 64, mk<T>(0x3c)), n(n) {}
  absl::Span<T> span() { return absl::MakeSpan(v).subspan(32, n); }
  void check(const std::string& what) {
    for (size_t i = 0; i < v.size(); i++)
      if ((i < 32 || i >= 32 + n) && val(v[i]) != val(mk<T>(0x3c))) mc::violation("%s: memory outside of the output is written (%ld)", what.c_str(), (long)i - 32);
  }
};
template <typename T> struct GuardedBatch {
  std::vector<Guarded<T>> g;
  std::vector<absl::Span<T>> s;
  explicit GuardedBatch(const std::vector<int64_t>& len) {
    g.reserve(len.size());
    for (int64_t n : len) { g.emplace_back(n); s.push_back(g.back().span()); }
  }
  absl::Span<absl::Span<T>> spans() { return absl::MakeSpan(s); }
  void check(const std::string& what) { for (auto& x : g) x.check(what); }
};
template <typename O> struct Bad {
  std::string name;
  std::function<bool(O&, const std::string& what)> call;  // true if accepted
};
template <typename S> static bool okay(const S& s) { return s.ok(); }
static const int64_t kMin = std::numeric_limits<int64_t>::min(), kMax = std::numeric_limits<int64_t>::max();

// Every bad call in every position of a history of valid operations.
template <typename P, typename T>
static void drive(const char* proto, const Mod& m, const std::vector<typename P::Op>& valid, const std::vector<Bad<typename P::Obj>>& bad) {
  auto confs = all_confs();
  for (size_t b = 0; b < bad.size(); b++)
    for (int who = 0; who < 2; who++)
      for (size_t at = 0; at <= valid.size(); at++)
        for (int first = 0; first < 2; first++) {
          Conf c = confs[(b + at * 2 + who) % 4 * 2];
          c.first = first;
          std::string what = strf("%s %s: %s", proto, full_name<T>(m).c_str(), bad[b].name.c_str());
          if (!take(strf("%s by party %d before operation %zu, %s", what.c_str(), who, at, conf_name(c).c_str()))) continue;
          Sess<T> s(c, m);
          std::vector<std::array<typename P::Out, 2>> out(valid.size());
          s.both([&](int party, mpc_utils::comm_channel& ch) {
            auto o = create<typename P::Obj>(ch);
            for (size_t i = 0; i <= valid.size(); i++) {
              if (i == at && party == who)
                for (int k = 0; k < 2; k++) refuse(s.link, party, what, [&] { return bad[b].call(*o, what); });
              if (i == valid.size()) break;
              int role = role_of(party, c.first, valid[i].dir);
              P::run(*o, valid[i], m, role, out[i][role]);
            }
          });
          for (size_t i = 0; i < valid.size(); i++) P::check(valid[i], m, out[i].data());
          std::string l = s.link.leftovers();
          if (!l.empty()) mc::violation("%s: afterwards%s", what.c_str(), l.c_str());
          mc::report().evaluations++;
          mc::report().states += valid.size() + 2;
        }
}
// An unusable modulus: both parties refuse, then go on under a good one. If
// `in_step`, they may do so after the same steps of both.
template <typename P, typename T>
static void unusable(const char* proto, const Mod& bad, const Mod& good, const typename P::Op& op, const std::vector<Bad<typename P::Obj>>& calls, bool in_step = false) {
  for (size_t b = 0; b < calls.size(); b += in_step ? 2 : 1)
    for (int who = in_step ? 2 : 0; who < 3; who++)
      for (int first = 0; first < 2; first++) {
        std::string what = strf("%s modulus 2^%d%+ld: %s", proto, bad.bits, bad.add, calls[b].name.c_str());
        if (!take(strf("%s by %s, first %d", what.c_str(), who == 2 ? "both" : who ? "party 1" : "party 0", first))) continue;
        Conf c;
        c.first = first;
        c.measured = b & 1;
        Sess<T> s(c, good);
        typename P::Out out[2];
        s.both([&](int party, mpc_utils::comm_channel& ch) {
          auto o = create<typename P::Obj>(ch);
          install<T>(bad);
          if (in_step) refuse(s.link, party, what, [&] { return calls[b + role_of(party, c.first, op.dir)].call(*o, what); }, false);
          else if (who == party || who == 2) refuse(s.link, party, what, [&] { return calls[b].call(*o, what); });
          install<T>(good);
          int role = role_of(party, c.first, op.dir);
          P::run(*o, op, good, role, out[role]);
        });
        install<T>(good);
        P::check(op, good, out);
        std::string l = s.link.leftovers();
        if (!l.empty()) mc::violation("%s: afterwards%s", what.c_str(), l.c_str());
        mc::report().evaluations++;
        mc::report().states += 2;
      }
}

template <typename O> static void creation(const char* proto) {
  for (int who = 0; who < 3; who++)
    for (int k = 0; k < 5; k++) {
      if (!take(strf("%s creation %d by %d", proto, k, who))) continue;
      Conf c;
      c.measured = k & 1;
      Sess<a128> s(c, Mod{});
      s.both([&](int party, mpc_utils::comm_channel& ch) {
        std::string what = strf("creating %s with %s", proto, k < 2 ? "no channel" : "a negative security parameter");
        if (party == who || who == 2)
          refuse(s.link, party, what, [&] {
            double sec = k == 2 ? -1 : k == 3 ? -1e-6 : k == 4 ? -1e300 : 40;
            auto r = O::Create(k < 2 ? nullptr : &ch, k == 1 ? -1 : sec);
            return r.ok();
          });
        create<O>(ch, k == 2 ? 0 : 40);
      });
      std::string l = s.link.leftovers();
      if (!l.empty()) mc::violation("creating %s after a refused creation: afterwards%s", proto, l.c_str());
      mc::report().evaluations++;
      mc::report().states++;
    }
}

template <typename T> static void rot(const Mod& m) {
  install<T>(m);
  typedef Rot<T> P;
  typedef AllButOneRandomOT O;
  std::vector<Bad<O>> bad;
  for (int64_t n : {1, 2, 5, 64})
    for (int64_t i : {(int64_t)-1, n, n + 1, kMin, kMax, (int64_t)1 << 32})
      bad.push_back({strf("receiver, length %ld, index %ld", (long)n, (long)i), [n, i](O& o, const std::string& w) {
        Guarded<T> g(n);
        bool r = okay(o.RunReceiver<T>(i, g.span()));
        g.check(w);
        return r;
      }});
  for (auto& len : std::vector<std::vector<int64_t>>{{3}, {3, 4}, {0, 2, 0}, {1, 1, 1, 1}})
    for (size_t at = 0; at < len.size(); at++)
      for (int64_t i : {(int64_t)-1, len[at], len[at] + 7, kMin, kMax}) {
        if (len[at] == 0) continue;
        bad.push_back({strf("receiver, lengths %s, index %ld at %zu", show(len).c_str(), (long)i, at), [=](O& o, const std::string& w) {
          GuardedBatch<T> g(len);
          std::vector<int64_t> ix(len.size(), 0);
          ix[at] = i;
          bool r = okay(o.RunReceiverBatched<T>(ix, g.spans()));
          g.check(w);
          return r;
        }});
      }
  for (int nl : {0, 1, 2, 3})
    for (int ni : {0, 1, 2, 3}) {
      if (nl == ni) continue;
      bad.push_back({strf("receiver, %d vectors and %d indices", nl, ni), [=](O& o, const std::string& w) {
        GuardedBatch<T> g(std::vector<int64_t>(nl, 4));
        std::vector<int64_t> ix(ni, 0);
        bool r = okay(o.RunReceiverBatched<T>(ix, g.spans()));
        g.check(w);
        return r;
      }});
    }
  for (int64_t n : {1000, 70000})
    for (int64_t i : {(int64_t)-1, n, kMin})
      bad.push_back({strf("receiver, length %ld, index %ld", (long)n, (long)i), [n, i](O& o, const std::string& w) {
        Guarded<T> g(n);
        bool r = okay(o.RunReceiver<T>(i, g.span()));
        g.check(w);
        return r;
      }});
  for (int n : {12, 40, 300})
    for (int at : {4, 7, 11, 16, 31, 39, 128, 299})
      for (int64_t i : {(int64_t)-1, (int64_t)3}) {
        if (at >= n || (n > 12 && at < 11)) continue;
        bad.push_back({strf("receiver, %d vectors of length 3, index %ld at %d", n, (long)i, at), [=](O& o, const std::string& w) {
          GuardedBatch<T> g(std::vector<int64_t>(n, 3));
          std::vector<int64_t> ix(n, 1);
          ix[at] = i;
          bool r = okay(o.RunReceiverBatched<T>(ix, g.spans()));
          g.check(w);
          return r;
        }});
      }
  for (auto& p : std::vector<std::pair<int, int>>{{40, 39}, {40, 41}, {300, 299}, {1, 300}, {300, 1}})
    bad.push_back({strf("receiver, %d vectors and %d indices", p.first, p.second), [=](O& o, const std::string& w) {
      GuardedBatch<T> g(std::vector<int64_t>(p.first, 4));
      std::vector<int64_t> ix(p.second, 0);
      bool r = okay(o.RunReceiverBatched<T>(ix, g.spans()));
      g.check(w);
      return r;
    }});
  RotOp v;
  v.len = {4, 0, 3};
  v.idx = {2, 0, 0};
  RotOp v2 = v;
  v2.dir = 1;
  drive<P, T>("all-but-one transfer", m, {v, v2}, bad);
}
template <typename T> static void spfss(const Mod& m) {
  install<T>(m);
  typedef Spfss<T> P;
  typedef SPFSSKnownIndex O;
  std::vector<Bad<O>> bad;
  for (int64_t n : {1, 2, 5, 64})
    for (int64_t i : {(int64_t)-1, n, n + 1, kMin, kMax})
      bad.push_back({strf("index provider, length %ld, index %ld", (long)n, (long)i), [=](O& o, const std::string& w) {
        Guarded<T> g(n);
        bool r = okay(o.RunIndexProvider<T>(mk<T>(1), i, g.span()));
        g.check(w);
        if (r) return true;
        return okay(o.RunIndexProvider<T>(mk<T>(1), i, n));
      }});
  for (int64_t n : {(int64_t)-1, (int64_t)-5, kMin}) {
    bad.push_back({strf("value provider, length %ld", (long)n), [=](O& o, const std::string&) { return okay(o.RunValueProvider<T>(mk<T>(1), n)); }});
    bad.push_back({strf("index provider, length %ld", (long)n), [=](O& o, const std::string&) { return okay(o.RunIndexProvider<T>(mk<T>(1), 0, n)); }});
  }
  for (int ns = 0; ns < 4; ns++)
    for (int nl = 0; nl < 4; nl++) {
      if (ns != nl)
        bad.push_back({strf("value provider, %d shares and %d vectors", ns, nl), [=](O& o, const std::string& w) {
          GuardedBatch<T> g(std::vector<int64_t>(nl, 3));
          std::vector<T> sh(ns, mk<T>(1));
          bool r = okay(o.RunValueProviderBatched<T>(sh, g.spans()));
          g.check(w);
          return r;
        }});
      for (int ni = 0; ni < 4; ni++) {
        if (ns == nl && nl == ni) continue;
        bad.push_back({strf("index provider, %d shares, %d indices and %d vectors", ns, ni, nl), [=](O& o, const std::string& w) {
          GuardedBatch<T> g(std::vector<int64_t>(nl, 3));
          std::vector<T> sh(ns, mk<T>(1));
          std::vector<int64_t> ix(ni, 1);
          bool r = okay(o.RunIndexProviderBatched<T>(sh, ix, g.spans()));
          g.check(w);
          return r;
        }});
      }
    }
  for (int at = 0; at < 3; at++)
    for (int64_t i : {(int64_t)-1, (int64_t)3, kMax})
      bad.push_back({strf("index provider, index %ld of vector %d", (long)i, at), [=](O& o, const std::string& w) {
        GuardedBatch<T> g({3, 3, 3});
        std::vector<T> sh(3, mk<T>(1));
        std::vector<int64_t> ix(3, 1);
        ix[at] = i;
        bool r = okay(o.RunIndexProviderBatched<T>(sh, ix, g.spans()));
        g.check(w);
        return r;
      }});
  for (int n : {12, 40, 300})
    for (int at : {4, 7, 11, 16, 31, 39, 128, 299})
      for (int64_t i : {(int64_t)-1, (int64_t)3}) {
        if (at >= n || (n > 12 && at < 11)) continue;
        bad.push_back({strf("index provider, %d vectors of length 3, index %ld at %d", n, (long)i, at), [=](O& o, const std::string& w) {
          GuardedBatch<T> g(std::vector<int64_t>(n, 3));
          std::vector<T> sh(n, mk<T>(1));
          std::vector<int64_t> ix(n, 1);
          ix[at] = i;
          bool r = okay(o.RunIndexProviderBatched<T>(sh, ix, g.spans()));
          g.check(w);
          return r;
        }});
      }
  for (auto& q : std::vector<std::array<int, 3>>{{40, 40, 39}, {40, 39, 40}, {39, 40, 40}, {41, 40, 40}, {300, 300, 299}, {300, 299, 300}, {299, 300, 300}, {300, 300, 301}}) {
    bad.push_back({strf("index provider, %d shares, %d indices and %d vectors", q[0], q[1], q[2]), [=](O& o, const std::string& w) {
      GuardedBatch<T> g(std::vector<int64_t>(q[2], 3));
      std::vector<T> sh(q[0], mk<T>(1));
      std::vector<int64_t> ix(q[1], 1);
      bool r = okay(o.RunIndexProviderBatched<T>(sh, ix, g.spans()));
      g.check(w);
      return r;
    }});
    if (q[0] != q[2])
      bad.push_back({strf("value provider, %d shares and %d vectors", q[0], q[2]), [=](O& o, const std::string& w) {
        GuardedBatch<T> g(std::vector<int64_t>(q[2], 3));
        std::vector<T> sh(q[0], mk<T>(1));
        bool r = okay(o.RunValueProviderBatched<T>(sh, g.spans()));
        g.check(w);
        return r;
      }});
  }
  SpfssOp v;
  v.len = {4, 0, 3};
  v.idx = {2, 0, 0};
  v.k = 5;
  SpfssOp v2 = v;
  v2.dir = 1;
  drive<P, T>("single-point sharing", m, {v, v2}, bad);
}
template <typename T> static void mpfss(const Mod& m) {
  install<T>(m);
  typedef Mpfss<T> P;
  typedef MPFSSKnownIndices O;
  std::vector<Bad<O>> bad;
  auto nbk = [](O& o, int t) { auto r = o.NumBuckets(t); need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "NumBuckets"); return (int64_t)r.ValueOrDie(); };
  auto index = [nbk](O& o, const std::string& w, int64_t N, size_t ny, const std::vector<int64_t>& ix, int64_t du, int64_t dv) {
    int64_t nb = ix.empty() ? 1 : nbk(o, (int)ix.size());
    auto size = [&](int64_t d) { return std::max<int64_t>(0, d == -1000 ? 0 : nb + d); };
    Guarded<T> g(N);
    std::vector<T> y(ny, mk<T>(1)), u(size(du), mk<T>(1)), v(size(dv), mk<T>(1));
    bool r = okay(o.RunIndexProviderVectorOLE<T>(y, ix, u, v, g.span()));
    g.check(w);
    return r;
  };
  auto value = [nbk](O& o, const std::string& w, int64_t N, int t, int64_t dw) {
    int64_t nb = t < 1 ? 1 : nbk(o, t);
    Guarded<T> g(N);
    std::vector<T> ws(std::max<int64_t>(0, dw == -1000 ? 0 : nb + dw), mk<T>(1));
    bool r = okay(o.RunValueProviderVectorOLE<T>(mk<T>(1), t, ws, g.span()));
    g.check(w);
    return r;
  };
  for (int64_t N : {1, 5, 40})
    for (int64_t i : {(int64_t)-1, N, N + 1, kMin, kMax})
      for (int at = 0; at < (N > 1 ? 2 : 1); at++)
        bad.push_back({strf("index provider, length %ld, index %ld at %d", (long)N, (long)i, at), [=](O& o, const std::string& w) {
          std::vector<int64_t> ix{0};
          if (N > 1) ix.push_back(1);
          ix[at] = i;
          return index(o, w, N, ix.size(), ix, 0, 0);
        }});
  for (int ny = 0; ny < 4; ny++)
    for (int ni = 0; ni < 4; ni++) {
      if (ny == ni && ny > 0) continue;
      bad.push_back({strf("index provider, %d values for %d indices", ny, ni), [=](O& o, const std::string& w) {
        std::vector<int64_t> ix;
        for (int k = 0; k < ni; k++) ix.push_back(k);
        return index(o, w, 9, ny, ix, 0, 0);
      }});
    }
  for (int N : {0, 1, 2})
    bad.push_back({strf("index provider, length %d for 3 indices", N), [=](O& o, const std::string& w) { return index(o, w, N, 3, {0, 1, 2}, 0, 0); }});
  for (int64_t d : {-1000, -1, 1, 40}) {
    bad.push_back({strf("index provider, u has wrong size %+ld", (long)d), [=](O& o, const std::string& w) { return index(o, w, 9, 2, {0, 5}, d, 0); }});
    bad.push_back({strf("index provider, v has wrong size %+ld", (long)d), [=](O& o, const std::string& w) { return index(o, w, 9, 2, {0, 5}, 0, d); }});
    bad.push_back({strf("index provider, u and v have wrong size %+ld", (long)d), [=](O& o, const std::string& w) { return index(o, w, 9, 2, {0, 5}, d, d); }});
    bad.push_back({strf("value provider, w has wrong size %+ld", (long)d), [=](O& o, const std::string& w) { return value(o, w, 9, 2, d); }});
  }
  for (int rep : {2, 3, 4, 5, 9})
    for (int64_t x : {0, 3, 9})
      bad.push_back({strf("index provider, index %ld is repeated %d times", (long)x, rep), [=](O& o, const std::string& w) {
        std::vector<int64_t> ix(rep, x);
        ix.push_back(7);
        return index(o, w, 30, ix.size(), ix, 0, 0);
      }});
  for (int n : {12, 40, 130}) {
    std::vector<int64_t> fine;
    for (int i = 0; i < n; i++) fine.push_back((i * 7) % (3 * n + 1));
    for (int at : {4, 7, 11, 16, 31, 39, 100, 129})
      for (int64_t i : {(int64_t)-1, (int64_t)3 * n + 1}) {
        if (at >= n || (n > 12 && at < 11)) continue;
        bad.push_back({strf("index provider, %d points, index %ld at %d", n, (long)i, at), [=](O& o, const std::string& w) {
          auto ix = fine;
          ix[at] = i;
          return index(o, w, 3 * n + 1, ix.size(), ix, 0, 0);
        }});
      }
    // Far apart, next to each other, first and last.
    for (auto& q : std::vector<std::pair<int, int>>{{0, n - 1}, {n / 2, n / 2 + 1}, {3, n - 2}, {0, 1}})
      bad.push_back({strf("index provider, %d points, number %d again as %d", n, q.first, q.second), [=](O& o, const std::string& w) {
        auto ix = fine;
        ix[q.second] = ix[q.first];
        return index(o, w, 3 * n + 1, ix.size(), ix, 0, 0);
      }});
    for (int d : {-1, 1}) {
      bad.push_back({strf("index provider, %d values for %d indices", n + d, n), [=](O& o, const std::string& w) { return index(o, w, 3 * n + 1, n + d, fine, 0, 0); }});
      bad.push_back({strf("index provider, %d points, u has wrong size %+d", n, d), [=](O& o, const std::string& w) { return index(o, w, 3 * n + 1, n, fine, d, 0); }});
      bad.push_back({strf("index provider, %d points, v has wrong size %+d", n, d), [=](O& o, const std::string& w) { return index(o, w, 3 * n + 1, n, fine, 0, d); }});
      bad.push_back({strf("value provider, %d points, w has wrong size %+d", n, d), [=](O& o, const std::string& w) { return value(o, w, 3 * n + 1, n, d); }});
    }
    bad.push_back({strf("index provider, length %d for %d indices", n - 1, n), [=](O& o, const std::string& w) {
      std::vector<int64_t> ix(n);
      std::iota(ix.begin(), ix.end(), 0);
      return index(o, w, n - 1, n, ix, 0, 0);
    }});
    bad.push_back({strf("value provider, %d points for length %d", n, n - 1), [=](O& o, const std::string& w) { return value(o, w, n - 1, n, 0); }});
  }
  for (int t : {0, -1, std::numeric_limits<int>::min()})
    bad.push_back({strf("value provider, %d points", t), [=](O& o, const std::string& w) { return value(o, w, 9, t, 0); }});
  for (int t : {2, 3, 30})
    bad.push_back({strf("value provider, %d points for length 1", t), [=](O& o, const std::string& w) { return value(o, w, 1, t, 0); }});
  bad.push_back({"value provider, 1 point for length 0", [=](O& o, const std::string& w) { return value(o, w, 0, 1, 0); }});
  for (int64_t n : {(int64_t)-1, (int64_t)-7, kMin})
    bad.push_back({strf("layout for length %ld", (long)n), [=](O& o, const std::string&) { return okay(o.UpdateBuckets(n, 2)); }});
  for (int t : {-1, std::numeric_limits<int>::min()}) {
    bad.push_back({strf("layout for %d points", t), [=](O& o, const std::string&) { return okay(o.UpdateBuckets(6, t)); }});
    bad.push_back({strf("buckets for %d points", t), [=](O& o, const std::string&) { return okay(o.NumBuckets(t)); }});
  }
  bad.push_back({"unimplemented value provider", [](O& o, const std::string& w) {
    Guarded<T> g(5);
    std::vector<T> sh(2, mk<T>(1));
    bool r = okay(o.RunValueProvider<T>(sh, g.span()));
    g.check(w);
    return r;
  }});
  bad.push_back({"unimplemented index provider", [](O& o, const std::string& w) {
    Guarded<T> g(5);
    std::vector<T> sh(2, mk<T>(1));
    std::vector<int64_t> ix{0, 1};
    bool r = okay(o.RunIndexProvider<T>(sh, ix, g.span()));
    g.check(w);
    return r;
  }});
  MpfssOp v;
  v.len = 6;
  v.idx = {5, 0};
  v.k = 3;
  MpfssOp v2 = v;
  v2.dir = 1;
  drive<P, T>("multi-point sharing", m, {v, v2}, bad);
}
template <typename T> static void gilboa(const Mod& m) {
  install<T>(m);
  typedef Gilboa<T> P;
  typedef ScalarVectorGilboaProduct O;
  std::vector<Bad<O>> bad;
  for (int ny : {0, 1, 2, 17})
    for (int no : {0, 1, 2, 17, 18}) {
      if (ny == no) continue;
      bad.push_back({strf("vector provider, %d values, output of length %d", ny, no), [=](O& o, const std::string& w) {
        Guarded<T> g(no);
        std::vector<T> y(ny, mk<T>(1));
        bool r = okay(o.RunVectorProvider<T>(y, g.span()));
        g.check(w);
        return r;
      }});
    }
  for (int ny : {100, 1000, 5000})
    for (int no : {ny - 1, ny + 1, ny - 16, ny + 16, 0}) 
      bad.push_back({strf("vector provider, %d values, output of length %d", ny, no), [=](O& o, const std::string& w) {
        Guarded<T> g(no);
        std::vector<T> y(ny, mk<T>(1));
        bool r = okay(o.RunVectorProvider<T>(y, g.span()));
        g.check(w);
        return r;
      }});
  for (int64_t n : {(int64_t)-1, (int64_t)-100, kMin})
    bad.push_back({strf("value provider, length %ld", (long)n), [=](O& o, const std::string&) { return okay(o.RunValueProvider<T>(mk<T>(1), n)); }});
  GilboaOp v;
  v.y = {1, 0, 77 & (u128)order_minus_1<T>(m)};
  v.x = 1;
  GilboaOp v2 = v;
  v2.dir = 1;
  drive<P, T>("product", m, {v, v2}, bad);
}
// Vector OLE as an operation of `drive`.
template <typename T> struct Vole {
  typedef VOp Op;
  typedef Step<T> Out;
  typedef DistributedVectorOLE<T> Obj;
  static void run(Obj& o, const Op& op, const Mod& m, int role, Out& out) { vole_op<T>(o, op, m, role, out); }
  static void check(const Op& op, const Mod&, const Out out[2]) {
    if (op.pre) return;
    MC_CHECK(out[0].u.size() == op.n && out[0].v.size() == op.n && out[1].w.size() == op.n, "vector OLE: wrong output length");
    for (int64_t j = 0; j < op.n; j++)
      if (val(add(mul((T)out[0].u[j], (T)out[1].delta), (T)out[0].v[j])) != val((T)out[1].w[j])) mc::violation("vector OLE: position %ld does not satisfy w = u*delta + v", (long)j);
  }
};
static Scaled g_sc;
template <typename T> static void vole(const Mod& m) {
  install<T>(m);
  typedef DistributedVectorOLE<T> O;
  std::vector<Bad<O>> bad;
  for (int64_t n : {(int64_t)0, (int64_t)-1, (int64_t)-1000, kMin}) {
    bad.push_back({strf("precomputation by the sender for %ld", (long)n), [=](O& o, const std::string&) { return okay(o.PrecomputeSender(n)); }});
    bad.push_back({strf("precomputation by the receiver for %ld", (long)n), [=](O& o, const std::string&) { return okay(o.PrecomputeReceiver(n, mk<T>(1))); }});
    bad.push_back({strf("precomputation by the receiver for %ld without delta", (long)n), [=](O& o, const std::string&) { return okay(o.PrecomputeReceiver(n)); }});
    // An empty request may also be served.
    bad.push_back({strf("run by the sender for %ld", (long)n), [=](O& o, const std::string& w) {
      auto r = o.RunSender(n);
      if (r.ok() && n == 0) MC_CHECK(r.ValueOrDie().u.size() == 0 && r.ValueOrDie().v.size() == 0, "%s: something is returned", w.c_str());
      return r.ok() && n != 0;
    }});
    bad.push_back({strf("run by the receiver for %ld", (long)n), [=](O& o, const std::string& w) {
      auto r = o.RunReceiver(n);
      if (r.ok() && n == 0) MC_CHECK(r.ValueOrDie().w.size() == 0, "%s: something is returned", w.c_str());
      return r.ok() && n != 0;
    }});
  }
  VOp p, r, r2;
  p.pre = true;
  p.n = 20;
  r.n = 7;
  r2.n = 45;
  drive<Vole<T>, T>("vector OLE", m, {p, r, r2}, bad);
  drive<Vole<T>, T>("vector OLE without precomputation", m, {r, r2}, bad);
  VOp rr = r2;
  rr.dir = 1;
  drive<Vole<T>, T>("vector OLE in both directions", m, {r, rr, r2}, bad);
}
// Under a modulus that only admits small outputs, both parties refuse a large
// precomputation in step, and the object stays usable.
static void vole_limits() {
  typedef NTL::ZZ_p T;
  int total = 0;
  for (double sec : {40., 31., 56.}) {
  int found = 0;
  long a0 = sec < 40 ? 1L << 44 : sec > 40 ? 1L << 27 : 0;  // so that 2^128 mod the modulus is large
  for (long a = a0 + 1; a < a0 + 2000 && found < (sec == 40 ? 3 : 2); a += 2) {
    for (int bits = 114 - (int)sec; bits <= 118 - (int)sec; bits++) {
      Mod m{bits, a};
      if (!NTL::ProbPrime(mod_zz(m))) continue;
      install<T>(m);
      if (!ScalarHelper<T>::CanBeHashedInto(sec + 11.5, 128) || ScalarHelper<T>::CanBeHashedInto(sec + 12.4, 128)) continue;
      found++;
      for (int first = 0; first < 2; first++)
        for (int hist = 0; hist < 4; hist++) {
          std::string what = strf("vector OLE modulus 2^%d%+ld security %g history %d", bits, a, sec, hist);
          if (!take(strf("%s first %d", what.c_str(), first))) continue;
          install<T>(m);
          Conf c;
          c.first = first;
          Sess<T> s(c, m);
          int64_t big = g_sc.max_batch[2];
          // +n: precompute n, must succeed; -n: must be refused; 1000+n: run.
          std::vector<std::vector<int64_t>> hs{{5, 1003, -big, 1003, 1040}, {-big, 1003, 5, 1040}, {5, -big, -big, 1003, 1003}, {5, 1003, -big, 5, 1040}};
          std::vector<std::array<Step<T>, 2>> out(hs[hist].size());
          std::vector<std::array<int, 2>> st(hs[hist].size());
          s.both([&](int party, mpc_utils::comm_channel& ch) {
            auto o = create<DistributedVectorOLE<T>>(ch, sec);
            int role = role_of(party, first, 0);
            for (size_t i = 0; i < hs[hist].size(); i++) {
              int64_t n = hs[hist][i];
              if (n >= 1000) { VOp r; r.n = n - 1000; vole_op<T>(*o, r, m, role, out[i][role]); continue; }
              st[i][role] = (role == 0 ? o->PrecomputeSender(std::abs(n)) : o->PrecomputeReceiver(std::abs(n), mk<T>(99))).ok();
            }
          });
          install<T>(m);
          for (size_t i = 0; i < hs[hist].size(); i++) {
            int64_t n = hs[hist][i];
            if (n >= 1000) {
              VOp r;
              r.n = n - 1000;
              Vole<T>::check(r, m, out[i].data());
              int zeros = 0;
              for (int64_t j = 0; j < r.n; j++) zeros += zero((T)out[i][0].u[j]);
              if (zeros > 0) mc::violation("%s: operation %zu returns %d zeros in u", what.c_str(), i, zeros);
            } else if (st[i][0] != (n > 0) || st[i][1] != (n > 0)) {
              mc::violation("%s: precomputation %zu for %ld is %s by the sender and %s by the receiver", what.c_str(), i, (long)std::abs(n), st[i][0] ? "accepted" : "refused", st[i][1] ? "accepted" : "refused");
            }
          }
          std::string l = s.link.leftovers();
          if (!l.empty()) mc::violation("%s: afterwards%s", what.c_str(), l.c_str());
          mc::report().evaluations++;
          mc::report().states += hs[hist].size();
        }
    }
  }
  total += found;
  }
  mc::count("moduli_with_limits", total);
}

// A modulus is usable for some numbers of leaves and unusable for larger ones:
// as long as the leaves that would have to be cut off make up less than 2^-s of
// the hash values, over all leaves, the call is accepted; once the distances
// from uniform add up to more than 2^-s it is refused. Between `lo` and `hi`
// times that, either is right.
static Mod small_mod(const NTL::ZZ& m) {  // as 2^bits + add, add within a long
  Mod r;
  r.bits = (int)NTL::NumBits(m);
  NTL::ZZ d = m - (NTL::ZZ(1) << r.bits);
  if (NTL::NumBits(d) > 60) { r.bits--; d = m - (NTL::ZZ(1) << r.bits); }
  r.add = NTL::conv<long>(d);
  return NTL::NumBits(d) > 60 ? Mod{} : r;
}
static uint64_t n_limit[2];
// f(object, role) runs the call and returns whether it was accepted.
template <typename O, typename T, typename F>
static void limits(const char* proto, double leaves, double slack, F f, const std::string& id, std::initializer_list<double> security) {
  NTL::ZZ H = NTL::ZZ(1) << 128;
  for (double s : security)
    for (int e = -8; e <= 8; e++) {
      // A modulus p = 2^b - small with 2^128 mod p about 2^(b-1) or 2^(b-3), where
      // leaves * 2^(b-129) is about 2^-s.
      int b = (int)std::lround(128 - s - std::log2(leaves)) + e;
      if (b < 60 || b > 124) continue;
      for (int part = 0; part < 2; part++) {
        // 2^128 = q*p + r with q = 2^(128-b): p = 2^b - c gives r = q*c, so pick c.
        NTL::ZZ c = part ? (NTL::ZZ(1) << std::max(0, 2 * b - 131)) : (NTL::ZZ(1) << std::max(0, 2 * b - 129));
        if (NTL::NumBits(c) > 58) continue;
        NTL::ZZ p = (NTL::ZZ(1) << b) - c, r = H % p;
        Mod m = small_mod(p);
        if (m.bits == 0 || mod_zz(m) != p) continue;
        double cut = NTL::conv<double>(NTL::to_RR(r) / NTL::to_RR(H)) * leaves * std::exp2(s);
        double dist = NTL::conv<double>(NTL::to_RR(r) * NTL::to_RR(p - r) / NTL::to_RR(p) / NTL::to_RR(H)) * leaves * std::exp2(s);
        int must = cut < 0.99 / slack ? 1 : dist > 1.02 * slack ? 0 : -1;
        for (int first = 0; first < 2; first++) {
          std::string what = strf("%s, %s, modulus 2^%d%+ld, security %g", proto, id.c_str(), m.bits, m.add, s);
          if (!take(strf("%s first %d", what.c_str(), first))) continue;
          Conf cf;
          cf.first = first;
          cf.measured = e & 1;
          Sess<T> se(cf, m);
          int ok[2] = {-1, -1};
          se.both([&](int party, mpc_utils::comm_channel& ch) {
            auto o = create<O>(ch, s);
            int role = role_of(party, first, 0);
            ok[role] = f(*o, role, m);
          });
          install<T>(m);
          if (ok[0] != ok[1]) mc::violation("%s: is %s by one party and %s by the other", what.c_str(), ok[0] ? "accepted" : "refused", ok[1] ? "accepted" : "refused");
          if (must == 1 && !ok[0]) mc::violation("%s: is refused, though the modulus is usable (%g of the allowed values are cut off)", what.c_str(), cut);
          if (must == 0 && ok[0]) mc::violation("%s: is not refused, though the elements are too far from uniform (%g times the allowed distance)", what.c_str(), dist);
          std::string l = se.link.leftovers();
          if (!l.empty()) mc::violation("%s: afterwards%s", what.c_str(), l.c_str());
          if (must >= 0) n_limit[must]++;
          mc::report().evaluations++;
          mc::report().states++;
        }
      }
    }
}
static void all_limits() {
  typedef NTL::ZZ_p T;
  for (auto& len : std::vector<std::vector<int64_t>>{{1}, {2}, {3}, {1, 1, 1}, {7, 0, 1}, {16}, {64}, {33, 31}, {200, 0, 0, 56}, std::vector<int64_t>(128, 2), {1024}, {1, 4095}, {1000, 3000, 96}}) {
    double n = std::accumulate(len.begin(), len.end(), 0.0);
    bool big = n > 300;
    if (big) {
      limits<AllButOneRandomOT, T>("all-but-one transfer", n, 1, [&](AllButOneRandomOT& o, int role, const Mod&) {
        GuardedBatch<T> g(len);
        std::vector<int64_t> ix(len.size(), 0);
        return okay(role == 0 ? o.RunSenderBatched<T>(g.spans()) : o.RunReceiverBatched<T>(ix, g.spans()));
      }, "lengths " + show(len), {40.});
      continue;
    }
    limits<AllButOneRandomOT, T>("all-but-one transfer", n, 1, [&](AllButOneRandomOT& o, int role, const Mod&) {
      GuardedBatch<T> g(len);
      std::vector<int64_t> ix(len.size(), 0);
      bool single = len.size() == 1;
      if (single) return okay(role == 0 ? o.RunSender<T>(g.s[0]) : o.RunReceiver<T>(0, g.s[0]));
      return okay(role == 0 ? o.RunSenderBatched<T>(g.spans()) : o.RunReceiverBatched<T>(ix, g.spans()));
    }, "lengths " + show(len), {35., 40., 48.5, 60.});
    limits<SPFSSKnownIndex, T>("single-point sharing", n, 1, [&](SPFSSKnownIndex& o, int role, const Mod&) {
      GuardedBatch<T> g(len);
      std::vector<int64_t> ix(len.size(), 0);
      std::vector<T> sh(len.size(), mk<T>(3));
      return okay(role == 0 ? o.RunValueProviderBatched<T>(sh, g.spans()) : o.RunIndexProviderBatched<T>(sh, ix, g.spans()));
    }, "lengths " + show(len), {36., 40., 60.});
  }
  // The number of leaves is up to the protocol (each position is in one tree at
  // least, and hardly in more than 8).
  for (int64_t N : {3, 40, 300})
    limits<MPFSSKnownIndices, T>("multi-point sharing", 2.8 * N, 4, [&](MPFSSKnownIndices& o, int role, const Mod&) {
      Guarded<T> g(N);
      size_t nb = o.NumBuckets(2).ValueOrDie();
      std::vector<T> u(nb, mk<T>(1)), y(2, mk<T>(1));
      std::vector<int64_t> ix{1, 0};
      return okay(role == 0 ? o.RunValueProviderVectorOLE<T>(mk<T>(1), 2, u, g.span()) : o.RunIndexProviderVectorOLE<T>(y, ix, u, u, g.span()));
    }, strf("length %ld", (long)N), {36., 40., 55.});
  mc::count("limits_accepted", n_limit[1]);
  mc::count("limits_refused", n_limit[0]);
}

int main(int argc, char** argv) {
  mc::init(argc, argv, "C23");
  g_sc = scaled_params();
  use_params(g_sc.p);
  creation<AllButOneRandomOT>("all-but-one transfer");
  creation<SPFSSKnownIndex>("single-point sharing");
  creation<MPFSSKnownIndices>("multi-point sharing");
  creation<ScalarVectorGilboaProduct>("product");
  creation<DistributedVectorOLE<a128>>("vector OLE");
  rot<a128>(Mod{});
  spfss<a128>(Mod{});
  mpfss<a128>(Mod{});
  gilboa<a128>(Mod{});
  vole<a128>(Mod{});
  spfss<NTL::ZZ_p>(Mod{61, -1});
  mpfss<NTL::ZZ_p>(Mod{61, -1});
  vole<NTL::ZZ_p>(Mod{61, -1});
  if (mc::thorough()) {
    rot<uint8_t>(Mod{});
    rot<NTL::ZZ_p>(Mod{61, -1});
    spfss<gf128>(Mod{});
    spfss<uint8_t>(Mod{});
    mpfss<gf128>(Mod{});
    mpfss<uint8_t>(Mod{});
    mpfss<NTL::zz_p>(Mod{30, -35});
    vole<gf128>(Mod{});
    vole<uint8_t>(Mod{});
  }
  gilboa<uint8_t>(Mod{});
  gilboa<NTL::ZZ_p>(Mod{61, -1});
  // Unusable moduli: too large, or with too large a bias.
  {
    typedef NTL::ZZ_p T;
    Mod good{61, -1};
    for (Mod bad : {Mod{127, 29}, Mod{100, 277}, Mod{129, 51}, Mod{200, 235}}) {
      RotOp r;
      r.len = {4, 0, 3};
      r.idx = {1, 0, 2};
      typedef AllButOneRandomOT O;
      unusable<Rot<T>, T>("all-but-one transfer", bad, good, r,
        {{"sender", [](O& o, const std::string& w) { GuardedBatch<T> g({4, 3}); bool r = okay(o.RunSenderBatched<T>(g.spans())); g.check(w); return r; }},
         {"receiver", [](O& o, const std::string& w) { GuardedBatch<T> g({4, 3}); std::vector<int64_t> ix{1, 1}; bool r = okay(o.RunReceiverBatched<T>(ix, g.spans())); g.check(w); return r; }},
         {"single sender", [](O& o, const std::string& w) { Guarded<T> g(4); bool r = okay(o.RunSender<T>(g.span())); g.check(w); return r; }},
         {"single receiver", [](O& o, const std::string& w) { Guarded<T> g(4); bool r = okay(o.RunReceiver<T>(2, g.span())); g.check(w); return r; }}});
      SpfssOp s;
      s.len = {4, 0, 3};
      s.idx = {1, 0, 2};
      typedef SPFSSKnownIndex S;
      unusable<Spfss<T>, T>("single-point sharing", bad, good, s,
        {{"value provider", [](S& o, const std::string& w) { GuardedBatch<T> g({4, 3}); std::vector<T> sh(2, mk<T>(1)); bool r = okay(o.RunValueProviderBatched<T>(sh, g.spans())); g.check(w); return r; }},
         {"index provider", [](S& o, const std::string& w) { GuardedBatch<T> g({4, 3}); std::vector<T> sh(2, mk<T>(1)); std::vector<int64_t> ix{1, 1}; bool r = okay(o.RunIndexProviderBatched<T>(sh, ix, g.spans())); g.check(w); return r; }}});
      MpfssOp p;
      p.len = 6;
      p.idx = {5, 0};
      typedef MPFSSKnownIndices M;
      unusable<Mpfss<T>, T>("multi-point sharing", bad, good, p,
        {{"value provider", [](M& o, const std::string& w) { Guarded<T> g(6); std::vector<T> ws(o.NumBuckets(2).ValueOrDie(), mk<T>(1)); bool r = okay(o.RunValueProviderVectorOLE<T>(mk<T>(1), 2, ws, g.span())); g.check(w); return r; }},
         {"index provider", [](M& o, const std::string& w) {
           Guarded<T> g(6);
           std::vector<T> u(o.NumBuckets(2).ValueOrDie(), mk<T>(1)), y(2, mk<T>(1));
           std::vector<int64_t> ix{1, 4};
           bool r = okay(o.RunIndexProviderVectorOLE<T>(y, ix, u, u, g.span()));
           g.check(w);
           return r;
         }}}, true);
      if (bad.bits > 128) {
      GilboaOp q;
      q.y = {1, 2, 3};
      q.x = 5;
      typedef ScalarVectorGilboaProduct G;
      unusable<Gilboa<T>, T>("product", bad, good, q,
        {{"value provider", [](G& o, const std::string& w) { Guarded<T> g(6); bool r = okay(o.RunValueProvider<T>(mk<T>(1), g.span())); g.check(w); return r; }},
         {"vector provider", [](G& o, const std::string& w) { Guarded<T> g(6); std::vector<T> y(6, mk<T>(1)); bool r = okay(o.RunVectorProvider<T>(y, g.span())); g.check(w); return r; }}});
      }
      VOp v;
      v.n = 9;
      typedef DistributedVectorOLE<T> V;
      unusable<Vole<T>, T>("vector OLE", bad, good, v,
        {{"sender", [](V& o, const std::string&) { return okay(o.RunSender(5)); }},
         {"receiver", [](V& o, const std::string&) { return okay(o.RunReceiver(5)); }},
         {"precomputation by the sender", [](V& o, const std::string&) { return okay(o.PrecomputeSender(5)); }},
         {"precomputation by the receiver", [](V& o, const std::string&) { return okay(o.PrecomputeReceiver(5)); }}}, bad.bits <= 128);
    }
  }
  vole_limits();
  all_limits();
  mc::count("refused_calls", n_bad);
  mc::sample("multi-point sharing u128: index provider, length 5, index 5 at 0");
  mc::finish();
}
