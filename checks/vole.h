// Vector OLE histories on scaled-down or real parameters.
#ifndef VOLE_H_
#define VOLE_H_
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <iostream>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include "checks/ops.h"
#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "absl/strings/str_cat.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"
#include "mpc_utils/benchmarker.hpp"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/eigen.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/status_macros.h"
#include "openssl/rand.h"
// Lets the monitors of C24 look at seeds and caches, if they are named as we
// know them (see Peek below).
#define private public
#include "distributed_vector_ole/distributed_vector_ole.h"
#undef private

struct Params { std::vector<int> out, seed, noise; };
inline Params& real_params() {
  static Params p{VOLEParameters::output_size, VOLEParameters::seed_size, VOLEParameters::num_noise_indices};
  return p;
}
inline void use_params(const Params& p) {
  real_params();
  const_cast<std::vector<int>&>(VOLEParameters::output_size) = p.out;
  const_cast<std::vector<int>&>(VOLEParameters::seed_size) = p.seed;
  const_cast<std::vector<int>&>(VOLEParameters::num_noise_indices) = p.noise;
}
// Three levels small enough to explore histories: the seeds of each level fit
// into what the level below can put out.
inline int64_t buckets_at(int t) {
  Conf c;
  Sess<a128> s(c, Mod{});
  int64_t n[2] = {0, 0};
  s.both([&](int p, mpc_utils::comm_channel& ch) {
    auto o = create<MPFSSKnownIndices>(ch, 40 + std::log2(3));
    auto r = o->NumBuckets(t);
    need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "NumBuckets");
    n[p] = r.ValueOrDie();
  });
  return n[0];
}
struct Scaled { Params p; std::vector<int64_t> nb, max_batch; };
inline Scaled scaled_params() {
  Scaled s;
  s.p.noise = {4, 5, 6};
  s.p.seed = {8, 16, 30};
  for (int t : s.p.noise) s.nb.push_back(buckets_at(t));
  s.p.out = {(int)(s.p.seed[1] + s.nb[1] + 16), (int)(s.p.seed[2] + s.nb[2] + 40), (int)(s.p.seed[2] + s.nb[2] + 224)};
  for (int i = 0; i < 3; i++) s.max_batch.push_back(s.p.out[i] - s.p.seed[i] - s.nb[i]);
  return s;
}

struct VOp {
  bool pre = false;
  int64_t n = 1;
  int delta = -1;                // precompute: -1 random, else pattern number
  int dir = 0;
};
inline std::string show(const std::vector<VOp>& h) {
  std::string s;
  for (auto& o : h) s += strf("%s%s%ld%s%s", s.empty() ? "" : " ", o.pre ? "P" : "R", (long)o.n, o.pre && o.delta >= 0 ? strf("d%d", o.delta).c_str() : "", o.dir ? "'" : "");
  return s;
}
// White-box views that are empty when members are named otherwise.
struct Peek {
  template <typename D> static auto seeds_u(D& o, int) -> decltype(o.sender_vole_seed_.u.size(), o.sender_mpfss_seed_.u.size(), o.sender_cached_.u.size(), bool()) { return true; }
  template <typename D> static bool seeds_u(D&, long) { return false; }
  template <typename D, typename S> static auto snap(D& o, S& s, int) -> decltype(o.sender_vole_seed_.u.data(), o.sender_mpfss_seed_.u.data(), o.sender_cached_.u.data(), void()) {
    s.have = true;
    auto cp = [](auto& to, auto& v) { to.assign(v.data(), v.data() + v.size()); };
    cp(s.vole, o.sender_vole_seed_.u);
    cp(s.mpfss, o.sender_mpfss_seed_.u);
    cp(s.cache, o.sender_cached_.u);
  }
  template <typename D, typename S> static void snap(D&, S&, long) {}
  template <typename D, typename C> static auto code(D& o, C& c, int) -> decltype(o.code_generator_.rows(), o.code_generator_.outerSize(), void()) {
    c.have = true;
    c.rows = o.code_generator_.rows();
    c.cols = o.code_generator_.cols();
    typedef std::decay_t<decltype(o.code_generator_)> M;
    for (int k = 0; k < o.code_generator_.outerSize(); k++)
      for (typename M::InnerIterator it(o.code_generator_, k); it; ++it) c.e.emplace_back(it.row(), it.col(), it.value());
  }
  template <typename D, typename C> static void code(D&, C&, long) {}
};
template <typename T>
struct Snap {
  bool have = false;
  std::vector<T> vole, mpfss, cache;
};
template <typename T>
struct Code {
  bool have = false;
  int64_t rows = 0, cols = 0;
  std::vector<std::tuple<int64_t, int64_t, T>> e;
};
template <typename T>
struct Step {                    // of one operation
  Vector<T> u, v, w;
  T delta;
  Snap<T> snap;                  // sender's seeds after the operation
  Code<T> code[2];
  size_t sent[2] = {0, 0};       // messages each party has sent so far
};
template <typename T>
void vole_op(DistributedVectorOLE<T>& o, const VOp& op, const Mod& m, int role, Step<T>& st) {
  if (op.pre) {
    if (role == 0) need_ok(o.PrecomputeSender(op.n), "precomputation by the sender");
    else need_ok(op.delta < 0 ? o.PrecomputeReceiver(op.n) : o.PrecomputeReceiver(op.n, pattern<T>(m, op.delta)), "precomputation by the receiver");
  } else if (role == 0) {
    auto r = o.RunSender(op.n);
    need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), strf("running the sender for %ld", (long)op.n).c_str());
    st.u = r.ValueOrDie().u;
    st.v = r.ValueOrDie().v;
  } else {
    auto r = o.RunReceiver(op.n);
    need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), strf("running the receiver for %ld", (long)op.n).c_str());
    st.w = r.ValueOrDie().w;
    st.delta = r.ValueOrDie().delta;
  }
}
// Runs a history and checks the relation.
template <typename T>
std::vector<Step<T>> vole_history(Sess<T>& s, const Conf& c, const Mod& m, const std::vector<VOp>& h, bool peek = false) {
  std::vector<Step<T>> st(h.size());
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<DistributedVectorOLE<T>>(ch);
    for (size_t i = 0; i < h.size(); i++) {
      int role = role_of(party, c.first, h[i].dir);
      vole_op<T>(*o, h[i], m, role, st[i]);
      if (peek) {
        if (role == 0) Peek::snap(*o, st[i].snap, 0);
        Peek::code(*o, st[i].code[role], 0);
        for (auto& x : s.link.log) st[i].sent[party] += x.from == party;
      }
    }
  });
  T cur[2];
  bool have[2] = {false, false};
  for (size_t i = 0; i < h.size(); i++) {
    auto& op = h[i];
    int d = op.dir;
    if (op.pre) {
      have[d] = op.delta >= 0;
      if (have[d]) cur[d] = pattern<T>(m, op.delta);
      continue;
    }
    auto& x = st[i];
    if (x.u.size() != op.n || x.v.size() != op.n || x.w.size() != op.n)
      mc::violation("history %s, operation %zu: vectors of length %ld, %ld and %ld are returned for a request of %ld", show(h).c_str(), i, (long)x.u.size(), (long)x.v.size(), (long)x.w.size(), (long)op.n);
    if (have[d]) {
      if (val(cur[d]) != val(x.delta)) mc::violation("history %s, operation %zu: delta is %s, expected %s", show(h).c_str(), i, show(x.delta).c_str(), show(cur[d]).c_str());
    }
    have[d] = true;
    cur[d] = x.delta;
    for (int64_t j = 0; j < op.n; j++) {
      T want = add(mul((T)x.u[j], (T)x.delta), (T)x.v[j]);
      if (val(want) != val((T)x.w[j]))
        mc::violation("history %s, operation %zu, position %ld: w is %s, but u*delta+v is %s (u %s, delta %s, v %s)", show(h).c_str(), i, (long)j, show((T)x.w[j]).c_str(), show(want).c_str(),
                      show((T)x.u[j]).c_str(), show(x.delta).c_str(), show((T)x.v[j]).c_str());
    }
  }
  mc::report().evaluations++;
  mc::report().states += h.size();
  return st;
}
#endif
