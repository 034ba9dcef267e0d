// C26: every expansion of the vector OLE belongs to a published parameter set.
//
// The vector OLE is compiled against stand-ins for the two protocols it uses,
// which record every call and otherwise forward to the real ones (or, where
// only sizes matter, do nothing).
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include "checks/twoparty.h"
#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "absl/strings/str_cat.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"
#include "distributed_vector_ole/spfss_known_index.h"
#include "mpc_utils/benchmarker.hpp"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/eigen.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/status_macros.h"
#include "openssl/rand.h"
#define private public
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"

namespace spy {
struct Event {
  char kind;                     // G first seeds, B buckets, X expansion
  int role;
  int64_t n, t, buckets;
};
static std::vector<Event> log[2];  // by party
static bool stub;                  // sizes only
static uint64_t where[10], n_where;  // noise positions by tenths of the output
static void note(const Event& e) { log[mc::self_party()].push_back(e); }
}  // namespace spy

namespace distributed_vector_ole {
class MPFSSSpy : public MPFSSKnownIndices {
 public:
  explicit MPFSSSpy(MPFSSKnownIndices&& o) : MPFSSKnownIndices(std::move(o)) {}
  static mpc_utils::StatusOr<std::unique_ptr<MPFSSSpy>> Create(mpc_utils::comm_channel* c, double s) {
    ASSIGN_OR_RETURN(auto o, MPFSSKnownIndices::Create(c, s));
    return std::unique_ptr<MPFSSSpy>(new MPFSSSpy(std::move(*o)));
  }
  mpc_utils::Status UpdateBuckets(int64_t n, int t) {
    spy::note({'B', -1, n, t, 0});
    return spy::stub ? mpc_utils::OkStatus() : MPFSSKnownIndices::UpdateBuckets(n, t);
  }
  template <typename T>
  mpc_utils::Status RunValueProviderVectorOLE(T x, int t, absl::Span<const T> w, absl::Span<T> out) {
    spy::note({'X', 1, (int64_t)out.size(), t, (int64_t)w.size()});
    if (!spy::stub) return MPFSSKnownIndices::RunValueProviderVectorOLE<T>(x, t, w, out);
    std::fill(out.begin(), out.end(), T(0));
    return mpc_utils::OkStatus();
  }
  template <typename T>
  mpc_utils::Status RunIndexProviderVectorOLE(absl::Span<const T> y, absl::Span<const int64_t> idx, absl::Span<const T> u, absl::Span<const T> v, absl::Span<T> out) {
    std::set<int64_t> distinct(idx.begin(), idx.end());
    if (distinct.size() != y.size() || (y.size() && (*distinct.begin() < 0 || *distinct.rbegin() >= (int64_t)out.size())))
      mc::violation("an expansion to %zu elements has %zu noise values at %zu different positions", out.size(), y.size(), distinct.size());
    size_t zeros = 0;
    for (auto& e : y) zeros += zero(e);
    if (sizeof(T) == 16 && zeros) mc::violation("%zu of %zu noise values are zero", zeros, y.size());
    std::set<u128> values;
    for (auto& e : y)
      if (sizeof(T) == 16 && !values.insert(val(e)).second) mc::violation("two of %zu noise values are equal", y.size());
    if (spy::stub && out.size() >= 1000 && mc::self_party() == 0)
      for (auto& i : idx) spy::where[i * 10 / (int64_t)out.size()]++, spy::n_where++;
    spy::note({'X', 0, (int64_t)out.size(), (int64_t)y.size(), (int64_t)u.size()});
    if (!spy::stub) return MPFSSKnownIndices::RunIndexProviderVectorOLE<T>(y, idx, u, v, out);
    std::fill(out.begin(), out.end(), T(0));
    return mpc_utils::OkStatus();
  }
};
class GilboaSpy : public ScalarVectorGilboaProduct {
 public:
  explicit GilboaSpy(ScalarVectorGilboaProduct&& o) : ScalarVectorGilboaProduct(std::move(o)) {}
  static mpc_utils::StatusOr<std::unique_ptr<GilboaSpy>> Create(mpc_utils::comm_channel* c, double s) {
    ASSIGN_OR_RETURN(auto o, ScalarVectorGilboaProduct::Create(c, s));
    return std::unique_ptr<GilboaSpy>(new GilboaSpy(std::move(*o)));
  }
  using ScalarVectorGilboaProduct::RunVectorProvider;
  using ScalarVectorGilboaProduct::RunValueProvider;
  template <typename T> mpc_utils::Status RunVectorProvider(absl::Span<const T> y, absl::Span<T> out) {
    spy::note({'G', 0, (int64_t)y.size(), 0, 0});
    if (!spy::stub) return ScalarVectorGilboaProduct::RunVectorProvider<T>(y, out);
    std::fill(out.begin(), out.end(), T(0));
    return mpc_utils::OkStatus();
  }
  template <typename T> mpc_utils::Status RunValueProvider(T x, absl::Span<T> out) {
    spy::note({'G', 1, (int64_t)out.size(), 0, 0});
    if (!spy::stub) return ScalarVectorGilboaProduct::RunValueProvider<T>(x, out);
    std::fill(out.begin(), out.end(), T(0));
    return mpc_utils::OkStatus();
  }
};
}  // namespace distributed_vector_ole
#define MPFSSKnownIndices MPFSSSpy
#define ScalarVectorGilboaProduct GilboaSpy
#include "distributed_vector_ole/distributed_vector_ole.h"
#undef MPFSSKnownIndices
#undef ScalarVectorGilboaProduct
#undef private
#include "checks/vole.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) {
  if (!mc::shard_owns(g_idx++) || !mc::want(id)) return false;
  mc::rng_reset(mc::report().seed * 1000 + g_idx);
  return true;
}
static std::map<int, int64_t> g_buckets;  // number of noise positions -> buckets
static int64_t buckets_of(int t) {
  auto it = g_buckets.find(t);
  return it != g_buckets.end() ? it->second : g_buckets[t] = buckets_at(t);
}
static uint64_t n_expansions, n_codes, n_codes_unseen;

// Work of the pooled Gaussian elimination: k of n outputs must be free of noise.
static double work(double n, double k, double t) {
  double bits = 0;
  for (int i = 0; i < (int)t; i++) bits += std::log2((n - i) / (n - k - i));
  return bits + 2 * std::log2(k);
}
static int level_of(const Params& p, int64_t t) {
  for (size_t i = 0; i < p.noise.size(); i++) if (p.noise[i] == t) return (int)i;
  return -1;
}
template <typename T> struct After { Code<T> code; };

// Checks the recorded calls of one role in a history; `done` tells the number
// of events and elements handed out after each operation.
struct Mark { size_t events; int64_t out; bool pre; };
static void judge(const Params& p, const std::vector<spy::Event>& ev, const std::vector<Mark>& marks, const std::string& what, bool hard) {
  int64_t have = 0, k = 0;
  int level = -1, cur = 0;
  size_t m = 0;
  for (size_t i = 0;; i++) {
    while (m < marks.size() && marks[m].events == i) {
      // Whatever is handed out must be left over once the seeds are set aside.
      have -= marks[m].out;
      int64_t keep = p.seed[cur] + buckets_of(p.noise[cur]);
      if (have < keep)
        mc::violation("%s: after operation %zu at most %ld elements can be left, but the seeds of the next expansion (%d noise positions) take %ld", what.c_str(), m, (long)have, p.noise[cur], (long)keep);
      m++;
    }
    if (i >= ev.size()) break;
    auto& e = ev[i];
    if (e.kind == 'G') { have = e.n; level = -1; cur = 0; k = e.n; continue; }
    int l = level_of(p, e.t);
    if (l < 0) mc::violation("%s: an expansion to %ld elements has %ld noise positions, which belongs to no parameter set", what.c_str(), (long)e.n, (long)e.t);
    if (e.n > p.out[l]) mc::violation("%s: %ld noise positions are for at most %d elements, but %ld are to be computed with them", what.c_str(), (long)e.t, p.out[l], (long)e.n);
    cur = l;
    if (e.kind == 'B') continue;
    n_expansions++;
    int64_t nb = buckets_of((int)e.t);
    if (e.buckets != nb) mc::violation("%s: an expansion with %ld noise positions consumes %ld elements as masks instead of %ld", what.c_str(), (long)e.t, (long)e.buckets, (long)nb);
    if (l < level) mc::violation("%s: parameter set %d is used after %d", what.c_str(), l, level);
    level = l;
    // The seed is among what is there.
    if (have < nb + p.seed[l])
      mc::violation("%s: the seed expanded with %ld noise positions has at most %ld elements instead of %d", what.c_str(), (long)e.t, (long)(have - nb), p.seed[l]);
    have += e.n - nb - p.seed[l];
    if (hard && work(e.n, p.seed[l], e.t) < 80)
      mc::violation("%s: an expansion of %d to %ld elements with %ld noise positions takes only 2^%.1f operations to solve", what.c_str(), p.seed[l], (long)e.n, (long)e.t, work(e.n, p.seed[l], e.t));
  }
  (void)k;
}
// The public code, where it can be looked at: every output combines
// kCodeGeneratorNonzeros entries of the seed, from everywhere.
template <typename T> static void judge_code(const Params& p, const Code<T>& c, const std::string& what) {
  if (!c.have) { n_codes_unseen++; return; }
  n_codes++;
  size_t l = 0;
  while (l < p.seed.size() && p.seed[l] != c.rows) l++;
  if (l == p.seed.size()) mc::violation("%s: the code expands %ld elements, which belongs to no parameter set", what.c_str(), (long)c.rows);
  if (c.cols > p.out[l]) mc::violation("%s: the code expands %ld elements to %ld instead of at most %d", what.c_str(), (long)c.rows, (long)c.cols, p.out[l]);
  std::map<int64_t, int> per_col;
  std::vector<uint64_t> per_row(c.rows, 0);
  std::set<u128> values;
  std::map<int64_t, std::vector<int64_t>> rows;
  for (auto& e : c.e) {
    if (zero(std::get<2>(e))) continue;
    per_col[std::get<1>(e)]++;
    per_row[std::get<0>(e)]++;
    rows[std::get<1>(e)].push_back(std::get<0>(e));
    if (sizeof(T) == 16 && !values.insert(val(std::get<2>(e))).second) mc::violation("%s: coefficient %s appears twice in the code", what.c_str(), show(std::get<2>(e)).c_str());
  }
  const int w = 10;
  if ((int64_t)per_col.size() != c.cols) mc::violation("%s: %ld of %ld outputs do not depend on the seed", what.c_str(), (long)(c.cols - (int64_t)per_col.size()), (long)c.cols);
  uint64_t total = 0;
  for (auto& q : per_col) {
    total += q.second;
    if (q.second > w) mc::violation("%s: output %ld combines %d elements of the seed", what.c_str(), (long)q.first, q.second);
  }
  // Drawing w of k elements with replacement gives k(1-(1-1/k)^w) different ones
  // on average; modular types may have zeros among the coefficients.
  double want = c.rows * (1 - std::pow(1 - 1.0 / c.rows, w)) * c.cols;
  if (sizeof(T) == 16 && total < want * 0.9 - 20)
    mc::violation("%s: the code of %ld outputs has %lu coefficients, about %.0f are expected", what.c_str(), (long)c.cols, (unsigned long)total, want);
  double each = double(total) / c.rows;
  for (int64_t r = 0; r < c.rows; r++)
    if (each > 20 && (per_row[r] < each / 6 || per_row[r] > each * 4))
      mc::violation("%s: element %ld of the seed is used by %lu outputs, others by %.1f on average", what.c_str(), (long)r, (unsigned long)per_row[r], each);
  // No two outputs use the same elements (for seeds large enough).
  if (c.rows > 1000) {
    std::set<std::vector<int64_t>> seen;
    for (auto& q : rows) {
      std::sort(q.second.begin(), q.second.end());
      if (!seen.insert(q.second).second) mc::violation("%s: output %ld combines the same elements of the seed as another one", what.c_str(), (long)q.first);
    }
  }
}
// Runs a history; both parties' calls are recorded.
template <typename T>
static void one(const Params& p, const Conf& c, const Mod& m, const std::vector<VOp>& h, bool hard, bool stub, bool codes) {
  std::string what = strf("%s, %s", full_name<T>(m).c_str(), show(h).c_str());
  use_params(p);
  spy::stub = stub;
  install<T>(m);
  Sess<T> s(c, m);
  s.link.keep = false;
  std::vector<Mark> marks[2];
  spy::log[0].clear();
  spy::log[1].clear();
  Code<T> code[2];
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<DistributedVectorOLE<T>>(ch);
    spy::log[party].clear();
    Step<T> st;
    for (auto& op : h) {
      vole_op<T>(*o, op, m, role_of(party, c.first, 0), st);
      marks[party].push_back({spy::log[party].size(), op.pre ? 0 : op.n, op.pre});
      if (!op.pre && (role_of(party, c.first, 0) == 0 ? st.u.size() != op.n || st.v.size() != op.n : st.w.size() != op.n))
        mc::violation("%s: a run for %ld elements returns another number", what.c_str(), (long)op.n);
    }
    if (codes) Peek::code(*o, code[party], 0);
  });
  for (int q = 0; q < 2; q++) judge(p, spy::log[q], marks[q], what, hard);
  // Both parties make the same expansions.
  std::vector<std::array<int64_t, 3>> x[2];
  for (int q = 0; q < 2; q++)
    for (auto& e : spy::log[q]) if (e.kind == 'X') x[q].push_back({e.n, e.t, e.buckets});
  if (x[0] != x[1]) mc::violation("%s: the parties make different expansions", what.c_str());
  if (codes) judge_code<T>(p, code[0], what);
  mc::report().evaluations++;
  mc::report().states += h.size();
}
static VOp P(int64_t n, int delta = 3) { VOp o; o.pre = true; o.n = n; o.delta = delta; return o; }
static VOp R(int64_t n) { VOp o; o.n = n; return o; }

static std::vector<Params> scaled_tables() {
  auto nb = buckets_of;
  std::vector<Params> v{scaled_params().p};
  // Each level just fits, or with one element to spare; one, two and four levels.
  for (int spare : {1, 2, 9}) {
    Params q;
    q.noise = {3, 4, 5, 7};
    q.seed = {6, 9, 15, 20};
    for (int i = 0; i < 4; i++) q.out.push_back((int)(i < 3 ? std::max(q.seed[i + 1] + nb(q.noise[i + 1]), q.seed[i] + nb(q.noise[i])) : q.seed[i] + nb(q.noise[i])) + spare);
    v.push_back(q);
  }
  v.push_back({{(int)(8 + nb(4) + 5)}, {8}, {4}});
  v.push_back({{(int)(12 + nb(6) + 30), (int)(12 + nb(6) + 31)}, {8, 12}, {4, 6}});
  return v;
}

int main(int argc, char** argv) {
  mc::init(argc, argv, "C26");
  const Params real = real_params();
  auto confs = all_confs();
  // The published table itself.
  for (size_t i = 0; i < real.out.size(); i++) {
    MC_CHECK(real.seed.size() == real.out.size() && real.noise.size() == real.out.size(), "the parameter sets are incomplete");
    if (!take(strf("published set %zu", i))) continue;
    int64_t nb = buckets_of(real.noise[i]);
    double w = work(real.out[i], real.seed[i], real.noise[i]);
    if (w < 80) mc::violation("parameter set %zu: expanding %d to %d elements with %d noise positions takes only 2^%.1f operations to solve", i, real.seed[i], real.out[i], real.noise[i], w);
    if (real.out[i] <= real.seed[i] + nb) mc::violation("parameter set %zu: %d elements are not more than the seeds, %d and %ld", i, real.out[i], real.seed[i], (long)nb);
    if (i + 1 < real.out.size() && real.out[i] < real.seed[i + 1] + buckets_of(real.noise[i + 1]))
      mc::violation("parameter set %zu: %d elements are not enough for the seeds of the next one, %d and %ld", i, real.out[i], real.seed[i + 1], (long)buckets_of(real.noise[i + 1]));
    mc::report().states++;
  }
  if (VOLEParameters::kCodeGeneratorNonzeros < 10) mc::violation("every output combines only %d elements of the seed", VOLEParameters::kCodeGeneratorNonzeros);
  // Small tables: all batch sizes, then all short histories.
  auto tables = scaled_tables();
  for (size_t ti = 0; ti < tables.size(); ti++) {
    auto& p = tables[ti];
    int64_t top = p.out.back();
    std::vector<int64_t> bs;
    for (int64_t b = 1; b <= top + 20; b++) bs.push_back(b);
    for (int64_t b : {10 * top, (int64_t)1 << 31, ((int64_t)1 << 32) + 1, (int64_t)1 << 40, std::numeric_limits<int64_t>::max() - 1000, std::numeric_limits<int64_t>::max()}) bs.push_back(b);
    for (int64_t b : bs)
      for (int first = 0; first < 2; first++) {
        if (!take(strf("small table %zu batch %ld first %d", ti, (long)b, first))) continue;
        Conf c = confs[(b + ti) % 8];
        c.first = first;
        one<a128>(p, c, Mod{}, {P(b), R(1), R(std::min<int64_t>(b, top)), R(2), R(3 * top)}, false, first, true);
        one<NTL::ZZ_p>(p, c, Mod{61, -1}, {R(std::min<int64_t>(b, 4 * top)), R(1), R(top)}, false, !first, true);
      }
    std::vector<VOp> alpha{R(1), R(7), R(top / 2), R(2 * top)};
    for (size_t i = 0; i < p.out.size(); i++) {
      int64_t mb = p.out[i] - p.seed[i] - buckets_of(p.noise[i]);
      alpha.push_back(P(std::max<int64_t>(1, mb)));
      alpha.push_back(P(std::max<int64_t>(1, mb) + 1));
    }
    for (int depth = 2; depth <= (mc::thorough() ? 4 : 3); depth++) {
      uint64_t total = 1;
      for (int i = 0; i < depth; i++) total *= alpha.size();
      for (uint64_t q = 0; q < total; q++) {
        std::vector<VOp> h;
        for (uint64_t y = q, i = 0; i < (uint64_t)depth; i++, y /= alpha.size()) h.push_back(alpha[y % alpha.size()]);
        if (!take(strf("small table %zu history %s", ti, show(h).c_str()))) continue;
        one<a128>(p, confs[mc::mix(q) % 8], Mod{}, h, false, true, depth < 3);
      }
    }
  }
  // The published table: every batch size of the lowest level, the thresholds
  // of all levels, and sizes in between.
  std::vector<int64_t> mb;
  for (size_t i = 0; i < real.out.size(); i++) mb.push_back(real.out[i] - real.seed[i] - buckets_of(real.noise[i]));
  std::set<int64_t> bs;
  for (int64_t b = 1; b <= mb[0] + 5; b += mc::thorough() ? 1 : b < 40 || b > mb[0] - 40 ? 1 : 7) bs.insert(b);
  for (size_t i = 1; i + 1 < mb.size(); i++) {
    // Around where a forgotten seed or noise size would shift the threshold.
    for (int64_t at : {mb[i], (int64_t)real.out[i] - real.seed[i], mb[i] + buckets_of(real.noise[i]), (int64_t)real.out[i]})
      for (int64_t d = -2; d <= 2; d++) if (i < 3 || d == (at == mb[i] ? 0 : 1) || (d == 1 && at == mb[i])) bs.insert(at + d);
    for (int64_t b = mb[i - 1]; b < mb[i]; b += std::max<int64_t>(1, (mb[i] - mb[i - 1]) / (mc::thorough() ? 40 : i < 3 ? 20 : 3))) bs.insert(b);
  }
  for (int64_t b : bs)
    for (int first = 0; first < 2; first++) {
      if (!mc::thorough() && b > 20000 && first) continue;
      if (!take(strf("published sets batch %ld first %d", (long)b, first))) continue;
      Conf c = confs[b % 8];
      c.first = first;
      if (b < 20000) one<a128>(real, c, Mod{}, {P(b), R(b), R(1)}, true, true, b < 6000);
      else one<uint8_t>(real, c, Mod{}, {P(b), R(b), R(1)}, true, true, false);
      if (first && b < 8000) one<NTL::zz_p>(real, c, Mod{30, -35}, {R(b), R(1), R(b + 5)}, true, true, false);
    }
  if (mc::thorough())
    for (int64_t b : {mb.back(), mb.back() + 1, std::numeric_limits<int64_t>::max()})
      if (take(strf("published sets batch %ld", (long)b))) one<uint8_t>(real, Conf(), Mod{}, {P(b), R(5)}, true, true, false);
  // And with the real protocols underneath.
  for (int64_t b : {1, 2000, 2500, 12000})
    if (take(strf("published sets, nothing replaced, batch %ld", (long)b))) one<a128>(real, confs[b % 8], Mod{}, {P(b), R(b), R(b)}, true, false, true);
  // The noise is spread over the whole output.
  if (spy::n_where > 20000)
    for (int i = 0; i < 10; i++)
      if (spy::where[i] * 10 < spy::n_where * 8 / 10 || spy::where[i] * 10 > spy::n_where * 12 / 10)
        mc::violation("of %lu noise positions %lu are in tenth %d of the output", (unsigned long)spy::n_where, (unsigned long)spy::where[i], i);
  mc::count("noise_positions", spy::n_where);
  mc::count("expansions", n_expansions);
  mc::count("codes_examined", n_codes);
  mc::count("codes_not_observable", n_codes_unseen);
  mc::sample(strf("last case: %s", mc::current_case().c_str()));
  mc::finish();
}
