// One operation of each protocol: how the two parties run it and what their
// outputs must satisfy.
#ifndef OPS_H_
#define OPS_H_
#include "checks/twoparty.h"
#include "distributed_vector_ole/all_but_one_random_ot.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#include "distributed_vector_ole/spfss_known_index.h"

// Role 0 is the sender / value provider / vector provider, role 1 the other
// one. In an operation with dir == 0 the session's first party takes role 0.
inline int role_of(int party, int first, int dir) { return party ^ first ^ dir; }

template <typename T> using Vecs = std::vector<std::vector<T>>;
template <typename T> std::vector<absl::Span<T>> spans(Vecs<T>& v) {
  std::vector<absl::Span<T>> s;
  for (auto& x : v) s.push_back(absl::MakeSpan(x));
  return s;
}
template <typename T> Vecs<T> garbage(const std::vector<int64_t>& len) {
  Vecs<T> v;
  for (int64_t n : len) v.emplace_back(n, mk<T>(0x5a));
  return v;
}

// Memory that serves one call after the other, with the same addresses.
template <typename T> std::vector<T>& standing(const char* what) {
  static thread_local std::map<std::string, std::vector<T>> m;
  auto& v = m[what];
  v.reserve(4096);
  return v;
}
// Some calls get their inputs in memory of their own, some where earlier inputs were.
template <typename T> struct Given {
  std::vector<T> own;
  absl::Span<const T> span;
  Given(const std::vector<T>& v, const char* what, bool again) {
    std::vector<T>& p = again && v.size() < 4096 ? standing<T>(what) : own;
    p.assign(v.begin(), v.end());
    span = absl::MakeConstSpan(p.data(), p.size());
  }
  operator absl::Span<const T>() const { return span; }
};
inline bool again() { static thread_local unsigned n; return n++ / 3 & 1; }

// ---------------------------------------------------------- all-but-one transfer
struct RotOp {
  int dir = 0;
  std::vector<int64_t> len, idx;
  bool single = false;           // through the single-vector entry points
};
template <typename T>
struct Rot {
  typedef RotOp Op;
  typedef Vecs<T> Out;
  typedef AllButOneRandomOT Obj;
  static void run(Obj& o, const Op& op, const Mod&, int role, Out& out) {
    out = garbage<T>(op.len);
    auto s = spans(out);
    if (role == 0) need_ok(op.single ? o.RunSender<T>(s[0]) : o.RunSenderBatched<T>(absl::MakeSpan(s)), "sending");
    else need_ok(op.single ? o.RunReceiver<T>(op.idx[0], s[0]) : o.RunReceiverBatched<T>(Given<int64_t>(op.idx, "indices", again()), absl::MakeSpan(s)), "receiving");
  }
  static void check(const Op& op, const Mod&, const Out out[2]) {
    for (size_t i = 0; i < op.len.size(); i++)
      for (int64_t j = 0; j < op.len[i]; j++)
        if (j != op.idx[i] && val(out[0][i][j]) != val(out[1][i][j]))
          mc::violation("vector %zu of lengths %s, receiver's indices %s: position %ld is %s for the sender and %s for the receiver", i, show(op.len).c_str(),
                        show(op.idx).c_str(), (long)j, show(out[0][i][j]).c_str(), show(out[1][i][j]).c_str());
  }
};

// ----------------------------------------------------------- single-point sharing
struct SpfssOp {
  int dir = 0;
  std::vector<int64_t> len, idx;
  int api = 0;                   // 0 batched, 1 single span, 2 single returning a vector
  uint64_t k = 0;                // selects the shares
};
template <typename T>
struct Spfss {
  typedef SpfssOp Op;
  typedef Vecs<T> Out;
  typedef SPFSSKnownIndex Obj;
  static std::vector<T> share(const Op& op, const Mod& m, int role) { return patterns<T>(m, op.len.size(), role ? op.k / 11 + 1000 * (op.k % 11 > 5) : op.k); }
  static void run(Obj& o, const Op& op, const Mod& m, int role, Out& out) {
    out = garbage<T>(op.len);
    auto s = spans(out);
    auto sh = share(op, m, role);
    bool a = again();
    Given<T> gs(sh, "shares", a);
    Given<int64_t> gi(op.idx, "indices", a);
    if (op.api == 2) {
      auto r = role == 0 ? o.RunValueProvider<T>(sh[0], op.len[0]) : o.RunIndexProvider<T>(sh[0], op.idx[0], op.len[0]);
      need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "single-point sharing");
      out[0] = r.ValueOrDie();
      MC_CHECK((int64_t)out[0].size() == op.len[0], "an output of length %zu instead of %ld is returned", out[0].size(), (long)op.len[0]);
    } else if (role == 0) {
      need_ok(op.api ? o.RunValueProvider<T>(sh[0], s[0]) : o.RunValueProviderBatched<T>(gs, absl::MakeSpan(s)), "providing values");
    } else {
      need_ok(op.api ? o.RunIndexProvider<T>(sh[0], op.idx[0], s[0]) : o.RunIndexProviderBatched<T>(gs, gi, absl::MakeSpan(s)), "providing indices");
    }
  }
  static void check(const Op& op, const Mod& m, const Out out[2]) {
    auto a = share(op, m, 0), b = share(op, m, 1);
    for (size_t i = 0; i < op.len.size(); i++)
      for (int64_t j = 0; j < op.len[i]; j++) {
        T want = j == op.idx[i] ? add(a[i], b[i]) : mk<T>(0);
        T got = add(out[0][i][j], out[1][i][j]);
        if (val(got) != val(want))
          mc::violation("vector %zu of lengths %s, indices %s: position %ld adds up to %s, expected %s (shares %s and %s)", i, show(op.len).c_str(), show(op.idx).c_str(),
                        (long)j, show(got).c_str(), show(want).c_str(), show(a[i]).c_str(), show(b[i]).c_str());
      }
  }
};

// ------------------------------------------------------------ multi-point sharing
struct MpfssOp {
  int dir = 0;
  int64_t len = 1;
  std::vector<int64_t> idx;
  uint64_t k = 0;
  // What each role prepares in advance: 0 nothing, 1 this layout, 2 another one.
  int prep[2] = {0, 0};
};
template <typename T>
struct Mpfss {
  typedef MpfssOp Op;
  typedef std::vector<T> Out;
  typedef MPFSSKnownIndices Obj;
  struct In { T x; std::vector<T> y, u, v, w; };
  static In inputs(const Op& op, const Mod& m, int buckets) {
    In in;
    in.x = pattern<T>(m, op.k);
    in.y = patterns<T>(m, op.idx.size(), op.k / 7);
    in.u = patterns<T>(m, buckets, op.k * 3 + 6);
    in.v = patterns<T>(m, buckets, op.k * 5 + 17);
    in.w.resize(buckets);
    for (int i = 0; i < buckets; i++) in.w[i] = add(mul(in.u[i], in.x), in.v[i]);
    return in;
  }
  static void run(Obj& o, const Op& op, const Mod& m, int role, Out& out) {
    int t = (int)op.idx.size();
    if (op.prep[role] == 1) need_ok(o.UpdateBuckets(op.len, t), "UpdateBuckets");
    if (op.prep[role] == 2) need_ok(o.UpdateBuckets(op.len + 3, t + 1), "UpdateBuckets");
    if (op.prep[role] == 3) need_ok(o.UpdateBuckets(op.len, t + 1), "UpdateBuckets");
    if (op.prep[role] == 4) need_ok(o.UpdateBuckets(op.len + 1, t), "UpdateBuckets");
    auto nb = o.NumBuckets(t);
    need_ok(nb.ok() ? mpc_utils::OkStatus() : nb.status(), "NumBuckets");
    In in = inputs(op, m, nb.ValueOrDie());
    out.assign(op.len, mk<T>(0x5a));
    bool a = again();
    Given<T> w(in.w, "w", a), y(in.y, "y", a), u(in.u, "u", a), v(in.v, "v", a);
    Given<int64_t> idx(op.idx, "indices", a);
    if (role == 0) need_ok(o.RunValueProviderVectorOLE<T>(in.x, t, w, absl::MakeSpan(out)), "providing the scalar");
    else need_ok(o.RunIndexProviderVectorOLE<T>(y, idx, u, v, absl::MakeSpan(out)), "providing the points");
  }
  static void check(const Op& op, const Mod& m, const Out out[2]) {
    In in = inputs(op, m, 0);
    std::vector<T> want(op.len, mk<T>(0));
    for (size_t i = 0; i < op.idx.size(); i++) want[op.idx[i]] = mul(in.x, in.y[i]);
    for (int64_t j = 0; j < op.len; j++) {
      T got = add(out[0][j], out[1][j]);
      if (val(got) != val(want[j]))
        mc::violation("length %ld, indices %s: position %ld adds up to %s, expected %s", (long)op.len, show(op.idx).c_str(), (long)j, show(got).c_str(), show(want[j]).c_str());
    }
  }
};

// --------------------------------------------------------- scalar-vector product
struct GilboaOp {
  int dir = 0;
  std::vector<u128> y;           // values
  u128 x = 0;
  int api = 0;                   // 0 spans, 1 returning vectors
};
template <typename T>
struct Gilboa {
  typedef GilboaOp Op;
  typedef std::vector<T> Out;
  typedef ScalarVectorGilboaProduct Obj;
  static void run(Obj& o, const Op& op, const Mod&, int role, Out& out) {
    out.assign(op.y.size(), mk<T>(0x5a));
    std::vector<T> y;
    for (u128 v : op.y) y.push_back(mk<T>(v));
    if (op.api) {
      auto r = role == 0 ? o.RunVectorProvider<T>(y) : o.RunValueProvider<T>(mk<T>(op.x), (int64_t)op.y.size());
      need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "the product");
      out = r.ValueOrDie();
      MC_CHECK(out.size() == op.y.size(), "a product of length %zu instead of %zu is returned", out.size(), op.y.size());
    } else if (role == 0) {
      need_ok(o.RunVectorProvider<T>(y, absl::MakeSpan(out)), "providing the vector");
      for (size_t i = 0; i < y.size(); i++) MC_CHECK(val(y[i]) == val(mk<T>(op.y[i])), "the input vector is changed");
    } else {
      need_ok(o.RunValueProvider<T>(mk<T>(op.x), absl::MakeSpan(out)), "providing the scalar");
    }
  }
  static void check(const Op& op, const Mod&, const Out out[2]) {
    for (size_t j = 0; j < op.y.size(); j++) {
      T want = mul(mk<T>(op.x), mk<T>(op.y[j])), got = add(out[0][j], out[1][j]);
      if (val(got) != val(want))
        mc::violation("length %zu: shares of %s * %s (position %zu) add up to %s, expected %s", op.y.size(), hex(op.x).c_str(), hex(op.y[j]).c_str(), j, show(got).c_str(), show(want).c_str());
    }
  }
};

// Runs a sequence of operations in one session and checks all of them.
// Returns the outputs.
template <typename P, typename T>
std::vector<std::array<typename P::Out, 2>> run_ops(const Conf& c, const Mod& m, const std::vector<typename P::Op>& ops, double security = 40) {
  Sess<T> s(c, m);
  std::vector<std::array<typename P::Out, 2>> out(ops.size());  // by role
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<typename P::Obj>(ch, security);
    for (size_t i = 0; i < ops.size(); i++) {
      int role = role_of(party, c.first, ops[i].dir);
      P::run(*o, ops[i], m, role, out[i][role]);
    }
  });
  for (size_t i = 0; i < ops.size(); i++) P::check(ops[i], m, out[i].data());
  mc::report().evaluations++;
  mc::report().states += ops.size();
  return out;
}
#endif
