// C13: the multi-point sharing sizes its tables for the security it was created with.
#include "checks/ops.h"
#include "distributed_vector_ole/cuckoo_hasher.h"

int main(int argc, char** argv) {
  mc::init(argc, argv, "C13");
  uint64_t idx = 0;
  std::vector<int64_t> ns;
  for (int64_t n = 0; n <= (mc::thorough() ? 4000 : 600); n++) ns.push_back(n);
  for (int k = 10; k <= 24; k++) for (int64_t d : {-1, 0, 1}) ns.push_back(((int64_t)1 << k) + d);
  for (double x = 601; x < 2e7; x *= mc::thorough() ? 1.01 : 1.1) ns.push_back((int64_t)x);
  std::vector<double> secs{-1};  // default
  for (int s = 0; s <= 120; s += 4) secs.push_back(s);
  for (double s : {39.0, 41.0, 39.5, 40.25, 40 + std::log2(3.0), 1.0, 0.25}) secs.push_back(s);
  for (double s : secs)
    for (int first = 0; first < 2; first++) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("multi-point security %g first %d", s, first))) continue;
      Conf c;
      c.first = first;
      c.measured = idx & 1;
      Sess<a128> se(c, Mod{});
      std::vector<int64_t> got[2];
      se.both([&](int party, mpc_utils::comm_channel& ch) {
        auto r = s < 0 ? MPFSSKnownIndices::Create(&ch) : MPFSSKnownIndices::Create(&ch, s);
        if (!r.ok()) mc::violation("Create is refused: %s", r.status().message().data());
        auto o = std::move(r.ValueOrDie());
        for (int64_t n : ns) {
          auto b = o->NumBuckets((int)n);
          if (!b.ok()) mc::violation("the number of buckets for %ld indices is refused: %s", (long)n, b.status().message().data());
          got[party].push_back(b.ValueOrDie());
        }
        // Running and preparing changes nothing about it.
        o->UpdateBuckets(300, 4);
        for (int64_t n : {0, 1, 5, 64, 700}) {
          auto b = o->NumBuckets((int)n);
          size_t at = std::find(ns.begin(), ns.end(), n) - ns.begin();
          if (!b.ok() || (at < got[party].size() && b.ValueOrDie() != got[party][at]))
            mc::violation("asked again after preparing tables, the number of buckets for %ld indices is another one", (long)n);
        }
        MC_CHECK(!o->NumBuckets(-1).ok(), "the number of buckets for -1 indices is not refused");
      });
      auto h = CuckooHasher::Create(a128(1), 3, s < 0 ? 40 : s);
      MC_CHECK(h.ok(), "a hasher is refused for security %g", s);
      for (size_t i = 0; i < ns.size(); i++) {
        auto want = h.ValueOrDie()->GetOptimalNumberOfBuckets(ns[i]);
        MC_CHECK(want.ok(), "the hasher refuses %ld inputs", (long)ns[i]);
        for (int p = 0; p < 2; p++)
          if (got[p][i] < want.ValueOrDie())
            mc::violation("multi-point sharing created for security %g uses %ld buckets for %ld indices, recommended are %ld", s < 0 ? 40 : s, (long)got[p][i], (long)ns[i], (long)want.ValueOrDie());
        if (got[0][i] != got[1][i]) mc::violation("the parties use %ld and %ld buckets for %ld indices", (long)got[0][i], (long)got[1][i], (long)ns[i]);
        mc::report().evaluations++;
      }
      mc::report().states++;
    }
  mc::sample("both parties, every security, 0..600 indices: buckets at least the recommended number");
  mc::finish();
}
