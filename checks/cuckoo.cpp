// C11 simple hashing, C12 cuckoo hashing, C13 number of buckets.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>

#include "distributed_vector_ole/cuckoo_hasher.h"
#include "mc/core.h"
#include "mc/net.h"
using distributed_vector_ole::CuckooHasher;
using mc::strf;
typedef std::vector<std::vector<int64_t>> Buckets;

template <typename T>
static std::vector<T> inputs_of(int kind, int64_t n) {
  std::vector<T> v(n);
  mc::Rnd r(17 + kind);
  for (int64_t i = 0; i < n; i++) {
    if (kind == 0) v[i] = T(i);
    else if (kind == 1) v[i] = T(n - i);              // descending
    else if (kind == 2) v[i] = T(i % 3);              // repeated values
    else if (kind == 3) v[i] = T(r.next());
    else v[i] = T(7);                                 // all equal
  }
  return v;
}
static std::unique_ptr<CuckooHasher> mk(uint64_t seed, int k, double s = 40) {
  auto h = CuckooHasher::Create(absl::MakeUint128(mc::mix(seed), seed), k, s);
  MC_CHECK(h.ok(), "Create refused: %s", h.status().message().data());
  return std::move(h.ValueOrDie());
}
static std::string show(const std::vector<int64_t>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 40; i++) s += strf(i ? ",%ld" : "%ld", (long)v[i]);
  return s + "]";
}

// Histories of calls on two hashers: each result is that of the same call on an
// instance of its own.
struct HCall { int obj; int op; int64_t nb; int in; };
struct HRes { bool ok; Buckets b; bool operator==(const HRes& o) const { return ok == o.ok && b == o.b; } };
static HRes h_call(CuckooHasher& h, int op, int64_t nb, const std::vector<int64_t>& in) {
  HRes r{false, {}};
  auto sp = absl::MakeConstSpan(in);
  if (op == 0) {
    auto x = h.HashSimple<int64_t>(sp, nb);
    r.ok = x.ok();
    if (r.ok) r.b.assign(x.ValueOrDie().begin(), x.ValueOrDie().end());
  } else if (op == 1) {
    auto x = h.HashCuckoo<int64_t>(sp, nb);
    r.ok = x.ok();
    if (r.ok) r.b.push_back(std::vector<int64_t>(x.ValueOrDie().begin(), x.ValueOrDie().end()));
  } else {
    auto x = h.Hash<int64_t>(sp, nb);
    r.ok = x.ok();
    if (r.ok) for (auto& y : x.ValueOrDie()) r.b.emplace_back(y.begin(), y.end());
  }
  return r;
}
[[maybe_unused]] static void histories(uint64_t& idx, int depth, int judged) {
  std::vector<std::vector<int64_t>> ins{{}, {3, 9, 4}, {4, 3, 9}, {5, 5, 1, 80, 2}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}};
  std::vector<HCall> calls;
  for (int o = 0; o < 2; o++) for (int op = 0; op < 3; op++) for (int64_t nb : {5, 13}) for (int i : {1, 2, 3, 4}) calls.push_back({o, op, nb, i});
  calls.push_back({0, judged, 0, 1});
  calls.push_back({1, judged, 2, 4});
  int ks[2][2] = {{3, 2}, {3, 3}};
  for (int v = 0; v < 2; v++) {
    auto make = [&](int o) { return mk(o == 0 ? 21 : 22, ks[v][o]); };
    std::vector<HRes> want;
    mc::run1([&] { for (auto& c : calls) { auto h = make(c.obj); want.push_back(h_call(*h, c.op, c.nb, ins[c.in])); } });
    size_t m = calls.size();
    for (size_t a = 0; a < m; a++) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("histories of hashers %d starting with call %zu", v, a))) continue;
      mc::run1([&] {
        size_t total = 1;
        for (int d = 1; d < depth; d++) total *= m;
        for (size_t k = 0; k < total; k++) {
          std::unique_ptr<CuckooHasher> h[2] = {make(0), make(1)};
          size_t x = k;
          for (int d = 0; d < depth; d++) {
            size_t c = a;
            if (d > 0) { c = x % m; x /= m; }
            HRes r = h_call(*h[calls[c].obj], calls[c].op, calls[c].nb, ins[calls[c].in]);
            if (calls[c].op == judged && !(r == want[c]))
              mc::violation("call %d of a history (operation %d of hasher %d, %ld buckets, inputs %s) differs from the same call on a new instance", d + 1, calls[c].op, calls[c].obj, (long)calls[c].nb, show(ins[calls[c].in]).c_str());
            mc::report().transitions++;
          }
          mc::report().states++;
        }
        mc::report().evaluations += total;
      });
    }
  }
}

// Hashers whose seeds differ in one bit: what each does is the same whether the
// other or an entirely different one was made before.
[[maybe_unused]] static void neighbours(uint64_t& idx, int judged) {
  std::vector<int64_t> in(40);
  for (size_t i = 0; i < in.size(); i++) in[i] = i * i;
  for (int bit = 0; bit < 128; bit++) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("neighbouring seeds bit %d", bit))) continue;
    mc::run1([&] {
      for (absl::uint128 s : {absl::MakeUint128(1, 2), absl::MakeUint128(0x0123456789abcdefull, 0xfedcba9876543210ull)}) {
        absl::uint128 t = s ^ absl::uint128(1) << bit;
        auto make = [&](absl::uint128 x) { auto h = CuckooHasher::Create(x, 3, 10); MC_CHECK(h.ok(), "Create refused"); return std::move(h.ValueOrDie()); };
        auto call = [&](CuckooHasher& h) { return h_call(h, judged, 97, in); };
        call(*make(~s));
        HRes a = call(*make(s));
        call(*make(~t));
        HRes b = call(*make(t));
        call(*make(~s));
        auto h1 = make(s);
        auto h2 = make(t);
        for (int r = 0; r < 2; r++) {
          if (!(call(*h2) == b)) mc::violation("a hasher made after one whose seed differs in bit %d gives another result than one made after an unrelated one", bit);
          if (!(call(*h1) == a)) mc::violation("a hasher gives another result once one whose seed differs in bit %d has been made", bit);
        }
        if (!(call(*make(s)) == a)) mc::violation("a hasher made after one whose seed differs in bit %d gives another result than one made after an unrelated one", bit);
        mc::report().states++;
        mc::report().evaluations++;
      }
    });
  }
}

#if PROP == 11
// The reference filing computed from the hash functions themselves.
template <typename T>
static Buckets reference(CuckooHasher& h, const std::vector<T>& in, int64_t nb, int k, const std::vector<std::vector<int64_t>>& hs) {
  Buckets b(nb);
  for (size_t i = 0; i < in.size(); i++)
    for (int j = 0; j < k; j++) b[hs[i][j]].push_back(i);
  return b;
}
template <typename T>
static std::vector<std::vector<int64_t>> hashes(CuckooHasher& h, const std::vector<T>& in, int64_t nb, int k) {
  auto r = h.template Hash<T>(absl::MakeConstSpan(in), nb);
  MC_CHECK(r.ok(), "Hash refused: %s", r.status().message().data());
  std::vector<std::vector<int64_t>> o;
  MC_CHECK(r.ValueOrDie().size() == in.size(), "Hash returns %zu entries for %zu inputs", r.ValueOrDie().size(), in.size());
  for (auto& x : r.ValueOrDie()) {
    MC_CHECK((int)x.size() == k, "Hash assigns %zu buckets with %d hash functions", x.size(), k);
    o.emplace_back(x.begin(), x.end());
    for (int64_t b : x) MC_CHECK(b >= 0 && b < nb, "bucket %ld is out of range [0,%ld)", (long)b, (long)nb);
  }
  return o;
}
static void compare(const Buckets& got, const Buckets& want, const char* what) {
  MC_CHECK(got.size() == want.size(), "%s: %zu buckets, expected %zu", what, got.size(), want.size());
  for (size_t b = 0; b < got.size(); b++)
    if (got[b] != want[b]) mc::violation("%s: bucket %zu holds %s, expected %s", what, b, show(got[b]).c_str(), show(want[b]).c_str());
  mc::report().evaluations++;
}
template <typename T>
static void one(const char* ty, int kind, int64_t n, int64_t nb, int k, int teams) {
  auto in = inputs_of<T>(kind, n);
  std::vector<std::vector<int64_t>> hs;
  Buckets want;
  mc::omp_cfg[0] = {1, 1};
  mc::run1([&] {
    auto h = mk(5, k);
    hs = hashes<T>(*h, in, nb, k);
    want = reference<T>(*h, in, nb, k, hs);
    auto r = h->HashSimple<T>(absl::MakeConstSpan(in), nb);
    MC_CHECK(r.ok(), "HashSimple refused: %s", r.status().message().data());
    compare(r.ValueOrDie(), want, "single thread");
    // Again on the same object, and on another with the same seed.
    compare(h->HashSimple<T>(absl::MakeConstSpan(in), nb).ValueOrDie(), want, "second call");
    auto h2 = mk(5, k);
    compare(h2->HashSimple<T>(absl::MakeConstSpan(in), nb).ValueOrDie(), want, "second instance");
    MC_CHECK(hashes<T>(*h2, in, nb, k) == hs, "instances with equal seeds hash differently");
    // The bucket of a value does not depend on its position or type.
    std::vector<T> rev(in.rbegin(), in.rend());
    auto hr = hashes<T>(*h2, rev, nb, k);
    for (int64_t i = 0; i < n; i++) MC_CHECK(hr[n - 1 - i] == hs[i], "the buckets of a value depend on its position");
    std::vector<absl::uint128> wide(in.begin(), in.end());
    MC_CHECK(hashes<absl::uint128>(*h2, wide, nb, k) == hs, "the buckets of a value depend on its type");
  });
  mc::report().states++;
  mc::report().transitions += n;
  // Threads: advertised / delivered, all schedules within the bound.
  for (int max = 2; max <= teams; max++)
    for (int team = 1; team <= max; team++) {
      mc::omp_cfg[0] = {max, team};
      mc::Explorer ex;
      // Delay-bounded: every schedule that departs from the default one at no
      // more than this many of its points.
      ex.set_delay(true);
#ifdef MC_RACE
      ex.set_bound(mc::thorough() ? 3 : 1);
#else
      ex.set_bound(max <= 2 ? (mc::thorough() ? 12 : 4) : (mc::thorough() ? 4 : 2));
#endif
      Buckets got;
      std::vector<std::vector<int64_t>> ghs;
      mc::report().schedules += ex.run([&] {
        mc::run1([&] {
          auto h = mk(5, k);
          auto r = h->HashSimple<T>(absl::MakeConstSpan(in), nb);
          MC_CHECK(r.ok(), "HashSimple refused: %s", r.status().message().data());
          compare(r.ValueOrDie(), want, strf("%d of %d threads", team, max).c_str());
          MC_CHECK(hashes<T>(*h, in, nb, k) == hs, "hashes differ with %d of %d threads", team, max);
        });
      });
    }
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C11");
  uint64_t idx = 0;
#ifdef MC_RACE
  int64_t maxn = mc::thorough() ? 20 : 6;
#else
  int64_t maxn = mc::thorough() ? 40 : 20;
#endif
  for (int k = 1; k <= 5; k++)
    for (int64_t nb : {1, 2, 3, 5, 8, 64, 1000})
      for (int kind = 0; kind < 5; kind++)
        for (int64_t n = 0; n <= maxn; n++) {
          if (!mc::shard_owns(idx++) || !mc::want(strf("inputs=%ld kind=%d buckets=%ld functions=%d", (long)n, kind, (long)nb, k))) continue;
          one<int64_t>("int64", kind, n, nb, k, k == 3 && nb <= 5 && (kind == 0 || kind == 2) ? 4 : (n % 4 == 1 ? 2 : 0));
        }
  for (int64_t n : {100, 1000, 5000})
    for (int64_t nb : {1, 7, 1500}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("large inputs=%ld buckets=%ld", (long)n, (long)nb))) continue;
      one<int64_t>("int64", 3, n, nb, 3, 0);
      mc::omp_cfg[0] = {1, 1};
      for (int team : {2, 3, 5, 8}) {
        auto in = inputs_of<int64_t>(3, n);
        Buckets a, b;
        mc::omp_cfg[0] = {1, 1};
        mc::run1([&] { a = mk(9, 3)->HashSimple<int64_t>(absl::MakeConstSpan(in), nb).ValueOrDie(); });
        mc::omp_cfg[0] = {8, team};
        mc::run1([&] { b = mk(9, 3)->HashSimple<int64_t>(absl::MakeConstSpan(in), nb).ValueOrDie(); });
        compare(b, a, strf("%d threads", team).c_str());
      }
    }
  for (int kind = 0; kind < 5; kind++) for (int64_t n : {0, 1, 2, 9, 30}) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("types inputs=%ld kind=%d", (long)n, kind))) continue;
    one<uint8_t>("uint8", kind, n, 11, 3, 0);
    one<uint32_t>("uint32", kind, n, 11, 3, 0);
    one<uint64_t>("uint64", kind, n, 11, 2, 0);
    one<absl::uint128>("uint128", kind, n, 11, 3, 0);
  }
  mc::omp_cfg[0] = {1, 1};
  for (int64_t nb : {(int64_t)0, (int64_t)-1, INT64_MIN}) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("bad buckets=%ld", (long)nb))) continue;
    auto h = mk(1, 3);
    std::vector<int64_t> in{1, 2};
    MC_CHECK(!h->HashSimple<int64_t>(absl::MakeConstSpan(in), nb).ok(), "HashSimple accepts %ld buckets", (long)nb);
    MC_CHECK(!h->Hash<int64_t>(absl::MakeConstSpan(in), nb).ok(), "Hash accepts %ld buckets", (long)nb);
    MC_CHECK(!h->HashCuckoo<int64_t>(absl::MakeConstSpan(in), nb).ok(), "HashCuckoo accepts %ld buckets", (long)nb);
    mc::report().evaluations++;
  }
#ifndef MC_RACE
  histories(idx, 3, 0);
  neighbours(idx, 0);
  for (int64_t n : {65537, 70001})
    for (int64_t nb : {3, 65537, 100001}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("larger inputs=%ld buckets=%ld", (long)n, (long)nb))) continue;
      one<int64_t>("int64", 3, n, nb, 3, 0);
    }
#endif
  mc::sample("20 inputs with values repeating modulo 3, 5 buckets, 3 hash functions, 3 of 4 threads, all schedules with one preemption");
  mc::finish();
}
#endif

#if PROP == 12
// The bucket choices of an input are those Hash() reports; inputs are found for
// every tuple of choices, so that every collision pattern can be enumerated.
struct Alphabet { std::vector<std::vector<int64_t>> tuple; std::vector<int64_t> value; };
static Alphabet alphabet(CuckooHasher& h, int64_t nb, int k) {
  Alphabet a;
  size_t total = 1;
  for (int i = 0; i < k; i++) total *= nb;
  std::map<std::vector<int64_t>, int64_t> found;
  for (int64_t base = 0; found.size() < total && base < 4000000; base += 1000) {
    std::vector<int64_t> in(1000);
    for (int64_t i = 0; i < 1000; i++) in[i] = base + i;
    auto r = h.Hash<int64_t>(absl::MakeConstSpan(in), nb);
    MC_CHECK(r.ok(), "Hash refused");
    for (int64_t i = 0; i < 1000; i++) {
      auto& x = r.ValueOrDie()[i];
      found.emplace(std::vector<int64_t>(x.begin(), x.end()), base + i);
    }
  }
  MC_CHECK(found.size() == total, "only %zu of the %zu combinations of buckets ever occur with %d hash functions and %ld buckets", found.size(), total, k, (long)nb);
  for (auto& f : found) { a.tuple.push_back(f.first); a.value.push_back(f.second); }
  return a;
}
// Insertion with eviction: an evicted input moves on to its next function; each
// insertion may try as many times as there are inputs (at least 32 times, which
// lets evictions settle for few inputs).
static bool ref_insert(const std::vector<const std::vector<int64_t>*>& t, int64_t nb, int k, std::vector<int64_t>* out) {
  std::vector<int64_t> b(nb, -1);
  std::vector<int> placed(t.size(), 0);
  for (size_t i = 0; i < t.size(); i++) {
    int64_t e = i;
    int f = 0;
    bool ok = false;
    for (size_t tries = 0; tries < std::max<size_t>(t.size(), 32); tries++) {
      int64_t x = (*t[e])[f];
      int64_t old = b[x];
      b[x] = e;
      placed[e] = f;
      if (old < 0) { ok = true; break; }
      e = old;
      f = (placed[e] + 1) % k;
    }
    if (!ok) return false;
  }
  *out = b;
  return true;
}
static uint64_t n_ok, n_fail, n_ref_fail_impl_ok;
static void check_one(CuckooHasher& h, const std::vector<int64_t>& in, const std::vector<const std::vector<int64_t>*>& t, int64_t nb, int k) {
  auto r = h.HashCuckoo<int64_t>(absl::MakeConstSpan(in), nb);
  mc::report().evaluations++;
  mc::report().transitions += in.size();
  std::vector<int64_t> ref;
  bool ref_ok = ref_insert(t, nb, k, &ref);
  if (!r.ok()) {
    n_fail++;
    if (ref_ok) mc::violation("insertion fails (%s) although insertion with eviction succeeds: %s", r.status().message().data(), show(ref).c_str());
    return;
  }
  n_ok++;
  if (!ref_ok) n_ref_fail_impl_ok++;
  auto& b = r.ValueOrDie();
  MC_CHECK((int64_t)b.size() == nb, "%zu buckets instead of %ld", b.size(), (long)nb);
  std::vector<int> seen(in.size(), 0);
  for (int64_t i = 0; i < nb; i++) {
    if (b[i] == -1) continue;
    MC_CHECK(b[i] >= 0 && b[i] < (int64_t)in.size(), "bucket %ld holds %ld, which is no input", (long)i, (long)b[i]);
    MC_CHECK(!seen[b[i]]++, "input %ld is in more than one bucket", (long)b[i]);
    auto& x = *t[b[i]];
    MC_CHECK(std::find(x.begin(), x.end(), i) != x.end(), "input %ld is in bucket %ld, which none of its hash functions gives", (long)b[i], (long)i);
  }
  for (size_t i = 0; i < in.size(); i++) MC_CHECK(seen[i], "input %zu is in no bucket", i);
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C12");
  mc::omp_cfg[2] = {1, 1};
  uint64_t idx = 0;
  struct Cfg { int64_t nb; int k; int n; };
  std::vector<Cfg> cfgs;
  for (auto c : std::vector<Cfg>{{1, 2, 1}, {1, 3, 1}, {2, 2, 2}, {2, 3, 2}, {3, 2, 3}, {3, 3, 3}, {4, 2, 4}, {5, 2, 3}, {5, 3, 2}, {4, 3, 3}, {6, 2, 3}, {2, 4, 2}, {2, 5, 2}, {3, 4, 2}, {5, 2, 4}, {5, 3, 3}, {6, 3, 2}, {7, 2, 3}, {3, 3, 4}}) cfgs.push_back(c);
  if (mc::thorough()) for (auto c : std::vector<Cfg>{{6, 2, 4}, {4, 2, 5}, {6, 3, 3}, {7, 2, 4}, {4, 3, 4}, {3, 3, 5}}) cfgs.push_back(c);
  for (auto& c : cfgs)
    for (int n = 0; n <= c.n; n++) {
      auto h = mk(3, c.k);
      Alphabet a = alphabet(*h, c.nb, c.k);
      uint64_t m = a.tuple.size(), total = 1;
      for (int i = 0; i < n; i++) total *= m;
      const uint64_t block = 2000;
      for (uint64_t b = 0; b * block < total; b++) {
        if (!mc::shard_owns(idx++)) continue;
        if (!mc::want(strf("buckets=%ld functions=%d inputs=%d block=%lu", (long)c.nb, c.k, n, b))) continue;
        for (uint64_t x = b * block; x < std::min(total, (b + 1) * block); x++) {
          std::vector<int64_t> in(n);
          std::vector<const std::vector<int64_t>*> t(n);
          uint64_t y = x;
          for (int i = n - 1; i >= 0; i--) { in[i] = a.value[y % m]; t[i] = &a.tuple[y % m]; y /= m; }
          check_one(*h, in, t, c.nb, c.k);
        }
        mc::report().states += std::min(total, (b + 1) * block) - b * block;
      }
    }
  // Larger tables at every load, with seeds enumerated; compared with the
  // reference insertion.
  for (int k : {2, 3, 4})
    for (int64_t nb : {6, 8, 13, 32, 100})
      for (int64_t n = 1; n <= nb; n += (nb > 30 ? 7 : 1)) {
        if (!mc::shard_owns(idx++) || !mc::want(strf("load buckets=%ld functions=%d inputs=%ld", (long)nb, k, (long)n))) continue;
        for (int seed = 0; seed < (mc::thorough() ? 3000 : 300); seed++) {
          auto h = mk(1000 + seed, k);
          auto in = inputs_of<int64_t>(seed % 2 ? 3 : 0, n);
          auto r = h->Hash<int64_t>(absl::MakeConstSpan(in), nb);
          std::vector<std::vector<int64_t>> tt;
          for (auto& x : r.ValueOrDie()) tt.emplace_back(x.begin(), x.end());
          std::vector<const std::vector<int64_t>*> t;
          for (auto& x : tt) t.push_back(&x);
          check_one(*h, in, t, nb, k);
          mc::report().states++;
        }
      }
  mc::omp_cfg[0] = {1, 1};
  histories(idx, 3, 1);
  neighbours(idx, 1);
  // Tables with more buckets and inputs than 16 bits count, and other types.
  for (int k : {2, 3, 4})
    for (auto& nn : std::vector<std::pair<int64_t, int64_t>>{{1000, 1000}, {1000, 1100}, {1000, 1300}, {1000, 2100}, {5000, 6500}, {5000, 12000}, {65537, 90000}, {70001, 160000}}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("large inputs=%ld buckets=%ld functions=%d", (long)nn.first, (long)nn.second, k))) continue;
      for (int seed = 0; seed < (nn.first > 5000 ? 1 : mc::thorough() ? 100 : 10); seed++) {
        auto h = mk(4000 + seed, k);
        auto in = inputs_of<int64_t>(seed % 2 ? 3 : 0, nn.first);
        auto r = h->Hash<int64_t>(absl::MakeConstSpan(in), nn.second);
        std::vector<std::vector<int64_t>> tt;
        for (auto& x : r.ValueOrDie()) tt.emplace_back(x.begin(), x.end());
        std::vector<const std::vector<int64_t>*> t;
        for (auto& x : tt) t.push_back(&x);
        check_one(*h, in, t, nn.second, k);
        mc::report().states++;
      }
    }
  // Refusals.
  auto h1 = mk(1, 1), h3 = mk(1, 3);
  std::vector<int64_t> in{4, 5, 6};
  if (mc::shard_owns(idx++) && mc::want("refusals")) {
    MC_CHECK(!h1->HashCuckoo<int64_t>(absl::MakeConstSpan(in), 10).ok(), "cuckoo hashing with one hash function is accepted");
    for (int64_t nb : {(int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)2}) MC_CHECK(!h3->HashCuckoo<int64_t>(absl::MakeConstSpan(in), nb).ok(), "3 inputs in %ld buckets are accepted", (long)nb);
    for (int k : {0, -1, -5}) MC_CHECK(!CuckooHasher::Create(absl::uint128(1), k).ok(), "%d hash functions are accepted", k);
    mc::report().evaluations++;
  }
  mc::count("succeeded", n_ok);
  mc::count("failed", n_fail);
  mc::count("succeeded_beyond_reference", n_ref_fail_impl_ok);
  mc::sample("3 buckets, 3 functions: all 27^3 collision patterns of 3 inputs");
  mc::finish();
}
#endif

#if PROP == 13
static double formula3(double n, double s) {
  double L = std::log2(n);
  double a = 123.5 / 2 * (1 + std::erf((L - 6.3) / (2.3 * std::sqrt(2.0))));
  double b = -130.0 / 2 * (1 + std::erf((L - 6.45) / (2.18 * std::sqrt(2.0)))) - L;
  return (s - b) / a * n;
}
static double formula2(double n, double s) {
  double L = std::log2(n), e = 1, v = 0;
  while (v < s) { e += 1; v = 3.3 * std::log2(e) - 0.8 + L - (5 * L + 14) * std::pow(e, -2.5); }
  return e * n;
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C13");
  mc::omp_cfg[2] = {1, 1};
  uint64_t idx = 0;
  std::vector<int64_t> ns;
  for (int64_t n = 0; n <= (mc::thorough() ? 20000 : 3000); n++) ns.push_back(n);
  for (int k = 10; k <= 40; k++) for (int64_t d : {-1, 0, 1}) ns.push_back(((int64_t)1 << k) + d);
  for (double x = 3000; x < 1e11; x *= mc::thorough() ? 1.001 : 1.01) ns.push_back((int64_t)x);
  std::vector<double> secs;
  for (int s = 0; s <= 128; s += (s < 48 ? 1 : 8)) secs.push_back(s);
  secs.push_back(39.5);
  secs.push_back(40.25);
  std::sort(secs.begin(), secs.end());
  for (int64_t n : ns) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("inputs=%ld", (long)n))) continue;
    for (int k : {2, 3}) {
      int64_t prev = 0;
      for (double s : secs) {
        if (k == 2 && s > (n < 64 ? 48 : 60)) continue;
        auto h = mk(1, k, s);
        auto r = h->GetOptimalNumberOfBuckets(n);
        MC_CHECK(r.ok(), "refused for %ld inputs, %d functions, security %g", (long)n, k, s);
        int64_t b = r.ValueOrDie();
        std::string key = strf("n=%ld:k=%d:s=%g", (long)n, k, s);
        if (b <= 0 || b < n) mc::known_or_violation(key, strf("%ld buckets are recommended for %ld inputs (%d functions, security %g)", (long)b, (long)n, k, s));
        MC_CHECK(b >= prev, "raising the security to %g lowers the number of buckets from %ld to %ld (%ld inputs, %d functions)", s, (long)prev, (long)b, (long)n, k);
        prev = b;
        if (n > 0) {
          double f = k == 3 ? formula3((double)n, s) : formula2((double)n, s);
          double want = std::max(std::ceil(f), (double)n);
          MC_CHECK(std::fabs(b - want) <= 1 + 1e-9 * std::fabs(want), "%ld buckets for %ld inputs (%d functions, security %g), the formula gives %.1f", (long)b, (long)n, k, s, f);
        }
        mc::report().evaluations++;
        mc::report().transitions++;
        // Tables of that size are accepted within the 128-bit hash limit.
        double bits = s + std::log2(std::max<double>(n, 1)) + std::log2(k) + std::log2((double)b);
        if (n <= 64 && b > 0 && b < 20000 && bits < 127.9) {
          std::vector<int64_t> in = inputs_of<int64_t>(0, n);
          auto q = h->HashSimple<int64_t>(absl::MakeConstSpan(in), b);
          MC_CHECK(q.ok(), "a table of the recommended size %ld for %ld inputs is refused: %s", (long)b, (long)n, q.status().message().data());
          auto c = h->HashCuckoo<int64_t>(absl::MakeConstSpan(in), b);
          MC_CHECK(c.ok() || c.status().code() == mpc_utils::StatusCode::kInternal, "a table of the recommended size %ld for %ld inputs is refused: %s", (long)b, (long)n, c.status().message().data());
        }
      }
    }
    for (int k : {1, 4, 5, 7}) MC_CHECK(!mk(1, k)->GetOptimalNumberOfBuckets(n).ok() || n == 0, "%d hash functions are accepted", k);
    mc::report().states++;
  }
  for (int64_t n : {(int64_t)-1, (int64_t)-2, (int64_t)-1000, INT64_MIN})
    for (int k : {2, 3}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("negative inputs=%ld functions=%d", (long)n, k))) continue;
      MC_CHECK(!mk(1, k)->GetOptimalNumberOfBuckets(n).ok(), "%ld inputs are accepted", (long)n);
      mc::report().evaluations++;
    }
  // The same objects asked again and again, in turns.
  {
    std::vector<int64_t> few{0, 1, 2, 3, 10, 64, 65, 1000, 4096, 70001, (int64_t)1 << 33};
    struct O { int k; double s; };
    std::vector<O> os{{3, 40}, {2, 40}, {3, 20}, {3, 80}, {2, 0}};
    std::vector<std::vector<int64_t>> want(os.size());
    for (size_t o = 0; o < os.size(); o++) for (int64_t n : few) want[o].push_back(mk(1, os[o].k, os[o].s)->GetOptimalNumberOfBuckets(n).ValueOrDie());
    for (size_t o1 = 0; o1 < os.size(); o1++) for (size_t o2 = 0; o2 < os.size(); o2++) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("in turns %zu %zu", o1, o2))) continue;
      auto a = mk(1, os[o1].k, os[o1].s), b = mk(1, os[o2].k, os[o2].s);
      for (size_t x = 0; x < few.size(); x++) for (size_t y = 0; y < few.size(); y++) for (size_t z = 0; z < few.size(); z++) {
        int64_t ra = a->GetOptimalNumberOfBuckets(few[x]).ValueOrDie(), rb = b->GetOptimalNumberOfBuckets(few[y]).ValueOrDie();
        if (z % 4 == 3) MC_CHECK(!a->GetOptimalNumberOfBuckets(-1).ok(), "-1 inputs are accepted");
        int64_t rc = a->GetOptimalNumberOfBuckets(few[z]).ValueOrDie();
        MC_CHECK(ra == want[o1][x] && rb == want[o2][y] && rc == want[o1][z], "the numbers of buckets for %ld, %ld and %ld inputs, asked one after another, are %ld, %ld and %ld instead of %ld, %ld and %ld",
                 (long)few[x], (long)few[y], (long)few[z], (long)ra, (long)rb, (long)rc, (long)want[o1][x], (long)want[o2][y], (long)want[o1][z]);
        mc::report().states++;
      }
      mc::report().evaluations++;
    }
  }
  // Sufficient: with the recommended number at the default security, every
  // enumerated seed leaves every input a bucket of its own.
  for (int k : {2, 3})
    for (int64_t n : {8, 9, 10, 12, 16, 20, 24, 32, 40, 50, 64, 100, 128, 200, 256, 500, 1000}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("insert functions=%d inputs=%ld", k, (long)n))) continue;
      for (int seed = 0; seed < (mc::thorough() ? 1000 : 60); seed++) {
        auto h = mk(500 + seed, k);
        int64_t b = h->GetOptimalNumberOfBuckets(n).ValueOrDie();
        std::vector<int64_t> in = inputs_of<int64_t>(seed % 2 ? 3 : 0, n);
        auto c = h->HashCuckoo<int64_t>(absl::MakeConstSpan(in), b);
        MC_CHECK(c.ok(), "inserting %ld inputs into the recommended %ld buckets fails with seed %d: %s", (long)n, (long)b, seed, c.status().message().data());
        mc::report().evaluations++;
        mc::report().states++;
      }
    }
  mc::sample("n=2^20, 3 functions, security 0..128: positive, at least n, non-decreasing, equal to the formula");
  mc::finish();
}
#endif
