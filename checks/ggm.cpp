// C09 full expansion, C10 punctured trees, against a recursive reference.
#include <cstring>
#include <memory>

#include "distributed_vector_ole/ggm_tree.h"
#include "mc/core.h"
#include "openssl/aes.h"
using distributed_vector_ole::GGMTree;
using mc::strf;
typedef GGMTree::Block Block;
typedef std::vector<std::vector<Block>> Levels;

static std::string hex(Block x) { return strf("%016lx%016lx", (unsigned long)absl::Uint128High64(x), (unsigned long)absl::Uint128Low64(x)); }
static Block prg(const Block& key, const Block& p) {
  uint8_t k[16], in[16], out[16];
  memcpy(k, &key, 16);
  memcpy(in, &p, 16);
  AES_KEY e;
  AES_set_encrypt_key(k, 128, &e);
  AES_encrypt(in, out, &e);
  for (int i = 0; i < 16; i++) out[i] ^= in[i];
  Block r;
  memcpy(&r, out, 16);
  return r;
}
static Levels reference(int arity, int64_t leaves, Block seed, const std::vector<Block>& keys) {
  std::vector<int64_t> sz{leaves};
  while (sz.back() > 1) sz.push_back((sz.back() + arity - 1) / arity);
  Levels l(sz.size());
  for (size_t i = 0; i < sz.size(); i++) l[i].resize(sz[sz.size() - 1 - i]);
  l[0][0] = seed;
  for (size_t i = 1; i < l.size(); i++)
    for (size_t n = 0; n < l[i].size(); n++) l[i][n] = prg(keys[n % arity], l[i - 1][n / arity]);
  return l;
}
static std::vector<Block> make_keys(int arity, uint64_t seed) {
  std::vector<Block> k(arity);
  mc::Rnd r(seed * 131 + arity);
  for (auto& x : k) { uint64_t h = r.next(); x = absl::MakeUint128(h, r.next()); }
  return k;
}
static std::vector<std::vector<Block>> sums_of(const Levels& l, int arity) {
  std::vector<std::vector<Block>> s(l.size() - 1, std::vector<Block>(arity, 0));
  for (size_t i = 1; i < l.size(); i++) for (size_t n = 0; n < l[i].size(); n++) s[i - 1][n % arity] ^= l[i][n];
  return s;
}
static std::vector<int64_t> leaf_counts(int arity, int64_t upto, int64_t cap) {
  std::set<int64_t> s;
  for (int64_t n = 1; n <= upto; n++) s.insert(n);
  for (__int128 p = 1; p <= cap; p *= arity)
    for (int64_t d : {-1, 0, 1, 2}) { int64_t n = (int64_t)p + d; if (n >= 1 && n <= cap) s.insert(n); if (n * 2 + 1 <= cap && n >= 1) s.insert(2 * n + 1); }
  return std::vector<int64_t>(s.begin(), s.end());
}

#if PROP == 9
static void check_tree(const GGMTree& t, int arity, int64_t leaves, const Levels& l, const std::vector<Block>& keys) {
  MC_CHECK(t.arity() == arity, "arity() is %d, expected %d", t.arity(), arity);
  MC_CHECK(t.num_leaves() == leaves, "num_leaves() is %ld, expected %ld", (long)t.num_leaves(), (long)leaves);
  MC_CHECK(t.num_levels() == (int)l.size(), "num_levels() is %d, expected %zu", t.num_levels(), l.size());
  MC_CHECK(t.keys().size() == keys.size(), "keys() has %zu entries", t.keys().size());
  MC_CHECK(t.expanded_keys().size() == keys.size(), "expanded_keys() has %zu entries", t.expanded_keys().size());
  for (int i = 0; i < arity; i++) {
    MC_CHECK(t.keys()[i] == keys[i], "key %d differs from the one given", i);
    Block in = 42, out;
    AES_encrypt((const uint8_t*)&in, (uint8_t*)&out, &t.expanded_keys()[i]);
    MC_CHECK((out ^ in) == prg(keys[i], in), "expanded key %d does not belong to key %d", i, i);
  }
  for (size_t i = 0; i < l.size(); i++) {
    MC_CHECK(t.level_size(i) == (int64_t)l[i].size(), "level %zu has %ld nodes, expected %zu", i, (long)t.level_size(i), l[i].size());
    for (size_t n = 0; n < l[i].size(); n++) {
      auto v = t.GetValueAtNode(i, n);
      MC_CHECK(v.ok(), "node %zu of level %zu is refused", n, i);
      MC_CHECK(v.ValueOrDie() == l[i][n], "node %zu of level %zu is %s, expected %s", n, i, hex(v.ValueOrDie()).c_str(), hex(l[i][n]).c_str());
    }
    for (int64_t n : {(int64_t)-1, (int64_t)l[i].size(), (int64_t)l[i].size() + 1, INT64_MIN, INT64_MAX})
      MC_CHECK(!t.GetValueAtNode(i, n).ok(), "node %ld of level %zu does not exist but is not refused", (long)n, i);
    mc::report().transitions += l[i].size();
  }
  for (int lv : {-1, (int)l.size(), (int)l.size() + 1, INT32_MIN, INT32_MAX})
    MC_CHECK(!t.GetValueAtNode(lv, 0).ok(), "level %d does not exist but is not refused", lv);
  for (int64_t n = 0; n < leaves; n++) {
    auto v = t.GetValueAtLeaf(n);
    MC_CHECK(v.ok() && v.ValueOrDie() == l.back()[n], "leaf %ld differs from the node of the last level", (long)n);
  }
  MC_CHECK(!t.GetValueAtLeaf(-1).ok() && !t.GetValueAtLeaf(leaves).ok(), "a leaf that does not exist is not refused");
  auto s = t.GetSiblingWiseXOR(), want = sums_of(l, arity);
  MC_CHECK(s.size() == want.size(), "sibling-wise sums have %zu levels, expected %zu", s.size(), want.size());
  for (size_t i = 0; i < s.size(); i++) {
    MC_CHECK((int)s[i].size() == arity, "sibling-wise sums of level %zu have %zu entries", i, s[i].size());
    for (int j = 0; j < arity; j++)
      MC_CHECK(s[i][j] == want[i][j], "sum of the %d-th children of level %zu is %s, expected %s", j, i, hex(s[i][j]).c_str(), hex(want[i][j]).c_str());
  }
  mc::report().evaluations++;
  mc::report().states++;
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C09");
  uint64_t idx = 0;
  std::vector<int> arities{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 25, 31, 32, 33, 63, 64, 65, 81, 100, 127, 128, 129, 255, 256, 257, 511, 1000, 1024};
  for (int arity : arities)
    for (int64_t leaves : leaf_counts(arity, mc::thorough() ? 4000 : 1100, mc::thorough() ? (1 << 21) : (1 << 18)))
      for (int variant = 0; variant < (leaves < 60 ? 3 : 1); variant++) {
        if (!mc::shard_owns(idx++) || !mc::want(strf("arity=%d leaves=%ld variant=%d", arity, (long)leaves, variant))) continue;
        auto keys = make_keys(arity, variant);
        if (variant == 1) keys[arity - 1] = keys[0];  // equal keys
        Block seed = variant == 2 ? Block(0) : absl::MakeUint128(0x1111 * leaves, ~(uint64_t)arity);
        auto t = GGMTree::Create(leaves, seed, keys);
        MC_CHECK(t.ok(), "refused: %s", t.status().message().data());
        Levels l = reference(arity, leaves, seed, keys);
        check_tree(*t.ValueOrDie(), arity, leaves, l, keys);
      }
  // Wide levels: more nodes and more children than 16 bits count.
  for (auto& al : std::vector<std::pair<int, int64_t>>{{2, 65536}, {2, 65537}, {2, 131072}, {2, 131079}, {3, 70001}, {3, 177149}, {5, 78126}, {16, 65553}, {16, 200003},
                                                       {255, 65026}, {256, 65537}, {257, 66050}, {32768, 32769}, {65535, 65536}, {65536, 65537}, {65537, 65536}, {65537, 131075}, {70000, 3}, {70000, 70001}}) {
    int arity = al.first;
    int64_t leaves = al.second;
    if (!mc::shard_owns(idx++) || !mc::want(strf("wide arity=%d leaves=%ld", arity, (long)leaves))) continue;
    auto keys = make_keys(arity, 7);
    auto t = GGMTree::Create(leaves, Block(77), keys);
    MC_CHECK(t.ok(), "refused: %s", t.status().message().data());
    check_tree(*t.ValueOrDie(), arity, leaves, reference(arity, leaves, Block(77), keys), keys);
  }
  // Level sizes around powers, also where logarithms round the wrong way, and
  // last nodes in every position.
  {
    std::vector<std::pair<int, int64_t>> sh;
    for (auto& ak : std::vector<std::pair<int, int>>{{3, 10}, {6, 6}, {7, 5}, {9, 5}, {17, 3}, {18, 3}, {25, 3}, {31, 3}, {34, 3}, {36, 3}, {39, 3}, {41, 3}, {47, 3}, {48, 3}, {52, 3}, {56, 3}, {66, 3}, {75, 3}, {80, 3}, {86, 3}}) {
      int64_t p = 1;
      for (int i = 0; i < ak.second; i++) p *= ak.first;
      for (int d : {-1, 0, 1}) sh.push_back({ak.first, p + d});
    }
    for (int a : {2, 3, 4, 8, 16}) for (int64_t p : {2048, 4096, 8192, 16384, 32768}) for (int d = -8; d <= 24; d++) if (d < -1 || d > 2) sh.push_back({a, p + d});
    for (auto& al : sh) {
      int arity = al.first;
      int64_t leaves = al.second;
      if (!mc::shard_owns(idx++) || !mc::want(strf("around powers arity=%d leaves=%ld", arity, (long)leaves))) continue;
      auto keys = make_keys(arity, 9);
      auto t = GGMTree::Create(leaves, Block(78), keys);
      MC_CHECK(t.ok(), "refused: %s", t.status().message().data());
      check_tree(*t.ValueOrDie(), arity, leaves, reference(arity, leaves, Block(78), keys), keys);
    }
  }
  // Trees whose seed or one of whose keys differ in one bit, made after another.
  for (int arity : {2, 3, 5}) for (int64_t leaves : {2, 7, 30}) for (int k = -1; k < arity; k++) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("neighbouring trees arity=%d leaves=%ld %s", arity, (long)leaves, k < 0 ? "seed" : strf("key %d", k).c_str()))) continue;
    for (int bit = 0; bit < 128; bit++) {
      auto keys = make_keys(arity, 11);
      Block seed = absl::MakeUint128(12345, 67890);
      auto t = GGMTree::Create(leaves, seed, keys);
      MC_CHECK(t.ok(), "refused: %s", t.status().message().data());
      auto keys2 = keys;
      Block seed2 = seed;
      (k < 0 ? seed2 : keys2[k]) ^= Block(1) << bit;
      auto t2 = GGMTree::Create(leaves, seed2, keys2);
      MC_CHECK(t2.ok(), "refused: %s", t2.status().message().data());
      check_tree(*t2.ValueOrDie(), arity, leaves, reference(arity, leaves, seed2, keys2), keys2);
      check_tree(*t.ValueOrDie(), arity, leaves, reference(arity, leaves, seed, keys), keys);
    }
  }
  // Keys drawn by the tree itself.
  for (int arity : {2, 3, 5, 16})
    for (int64_t leaves : {1, 2, 7, 64}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("own keys arity=%d leaves=%ld", arity, (long)leaves))) continue;
      auto t = GGMTree::Create(arity, leaves, Block(99));
      MC_CHECK(t.ok(), "refused");
      std::vector<Block> keys(t.ValueOrDie()->keys().begin(), t.ValueOrDie()->keys().end());
      MC_CHECK((int)keys.size() == arity, "%zu keys for arity %d", keys.size(), arity);
      for (int i = 0; i < arity; i++) for (int j = 0; j < i; j++) MC_CHECK(keys[i] != keys[j], "two of the drawn keys are equal");
      check_tree(*t.ValueOrDie(), arity, leaves, reference(arity, leaves, Block(99), keys), keys);
    }
  // Several trees at once: all ordered pairs and triples of shapes, each tree
  // asked again after the others were made.
  {
    std::vector<std::pair<int, int64_t>> sh{{2, 1}, {2, 4}, {2, 5}, {2, 13}, {3, 4}, {3, 9}, {3, 10}, {4, 4}, {4, 17}, {5, 13}, {16, 13}, {16, 17}};
    size_t m = sh.size();
    for (size_t a = 0; a < m; a++) for (size_t b = 0; b < m; b++) for (size_t c = 0; c < m; c++) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("trees of arities %d,%d,%d and leaves %ld,%ld,%ld", sh[a].first, sh[b].first, sh[c].first, (long)sh[a].second, (long)sh[b].second, (long)sh[c].second))) continue;
      size_t w[3] = {a, b, c};
      for (int same = 0; same < 2; same++) {        // the same keys and seeds, as far as they go, or others
        std::vector<std::unique_ptr<GGMTree>> t;
        std::vector<Levels> l;
        std::vector<std::vector<Block>> ks;
        for (int i = 0; i < 3; i++) {
          ks.push_back(make_keys(sh[w[i]].first, same ? 4 : 4 + i));
          Block seed = absl::MakeUint128(same ? 5 : i, 77);
          auto r = GGMTree::Create(sh[w[i]].second, seed, ks[i]);
          MC_CHECK(r.ok(), "refused: %s", r.status().message().data());
          t.push_back(std::move(r.ValueOrDie()));
          l.push_back(reference(sh[w[i]].first, sh[w[i]].second, seed, ks[i]));
          if (i == 1) check_tree(*t[1], sh[b].first, sh[b].second, l[1], ks[1]);
        }
        for (int i = 0; i < 3; i++) check_tree(*t[i], sh[w[i]].first, sh[w[i]].second, l[i], ks[i]);
        t[1].reset();
        for (int i : {2, 0}) check_tree(*t[i], sh[w[i]].first, sh[w[i]].second, l[i], ks[i]);
      }
    }
  }
  // Shapes that do not exist.
  for (int arity : {0, 1}) for (int64_t leaves : {1, 5}) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("bad arity=%d leaves=%ld", arity, (long)leaves))) continue;
    MC_CHECK(!GGMTree::Create(leaves, Block(1), std::vector<Block>(arity)).ok(), "arity %d is accepted", arity);
    MC_CHECK(!GGMTree::Create(arity, leaves, Block(1)).ok(), "arity %d is accepted", arity);
    mc::report().evaluations++;
  }
  for (int arity : {2, 3, 16}) for (int64_t leaves : {(int64_t)0, (int64_t)-1, (int64_t)-7, INT64_MIN}) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("bad arity=%d leaves=%ld", arity, (long)leaves))) continue;
    MC_CHECK(!GGMTree::Create(leaves, Block(1), std::vector<Block>(arity)).ok(), "%ld leaves are accepted", (long)leaves);
    MC_CHECK(!GGMTree::Create(arity, leaves, Block(1)).ok(), "%ld leaves are accepted", (long)leaves);
    mc::report().evaluations++;
  }
  mc::sample("arity 5, 125 leaves: levels 1,5,25,125, every node against the recursive reference");
  mc::finish();
}
#endif

#if PROP == 10
static void check_punctured(int arity, int64_t leaves, int64_t miss, const Levels& l, const std::vector<Block>& keys, int garbage) {
  auto s = sums_of(l, arity);
  std::vector<int64_t> path(l.size());
  path.back() = miss;
  for (int i = (int)l.size() - 2; i >= 0; i--) path[i] = path[i + 1] / arity;
  // On-path entries, as the protocol's receiver would have them: unknown.
  mc::Rnd r(garbage * 7919 + miss);
  for (size_t i = 0; i < s.size(); i++) {
    Block& e = s[i][path[i + 1] % arity];
    if (garbage == 1) e = 0;
    if (garbage == 2) e = absl::MakeUint128(r.next(), r.next());
    if (garbage == 3) e = ~e;
  }
  auto t0 = GGMTree::CreateFromSiblingWiseXOR(arity, leaves, miss, s, keys);
  MC_CHECK(t0.ok(), "refused: %s", t0.status().message().data());
  const GGMTree& t = *t0.ValueOrDie();
  MC_CHECK(t.num_leaves() == leaves && t.arity() == arity, "rebuilt tree has %ld leaves and arity %d", (long)t.num_leaves(), t.arity());
  MC_CHECK((int)t.num_levels() == (int)l.size(), "rebuilt tree has %d levels, expected %zu", t.num_levels(), l.size());
  MC_CHECK((int)t.keys().size() == arity, "rebuilt tree reports %zu keys", t.keys().size());
  for (int i = 0; i < arity; i++) MC_CHECK(t.keys()[i] == keys[i], "rebuilt tree reports another key %d", i);
  for (int64_t n = 0; n < leaves; n++) {
    auto v = t.GetValueAtLeaf(n);
    MC_CHECK(v.ok(), "leaf %ld is refused", (long)n);
    if (n == miss) continue;
    MC_CHECK(v.ValueOrDie() == l.back()[n], "missing leaf %ld: leaf %ld is %s, expected %s (garbage %d)", (long)miss, (long)n,
             hex(v.ValueOrDie()).c_str(), hex(l.back()[n]).c_str(), garbage);
  }
  // Inner nodes off the path are known too, those on the path are not.
  for (size_t i = 0; i < l.size(); i++) {
    for (size_t n = 0; n < l[i].size(); n++) {
      auto v = t.GetValueAtNode(i, n);
      MC_CHECK(v.ok(), "node %zu of level %zu is refused", n, i);
      if ((int64_t)n == path[i]) {
        if (l[i][n] != 0)
          MC_CHECK(v.ValueOrDie() != l[i][n], "node %zu of level %zu on the path to missing leaf %ld appears in the rebuilt tree", n, i, (long)miss);
      } else {
        MC_CHECK(v.ValueOrDie() == l[i][n], "missing leaf %ld: node %zu of level %zu differs", (long)miss, n, i);
      }
    }
    mc::report().transitions += l[i].size();
  }
  mc::report().evaluations++;
}
static void expect_refused(const std::string& id, int arity, int64_t leaves, int64_t miss, const std::vector<std::vector<Block>>& s,
                           const std::vector<Block>& keys) {
  if (!mc::want("bad " + id)) return;
  std::string note;
  int rc = mc::probe([&] { return !GGMTree::CreateFromSiblingWiseXOR(arity, leaves, miss, s, keys).ok(); }, 30, &note);
  mc::report().evaluations++;
  mc::report().states++;
  if (rc == 1) mc::violation("arguments that do not describe a tree are accepted: %s", id.c_str());
  if (rc == 2) mc::violation("arguments that do not describe a tree crash the call: %s", id.c_str());
  if (rc == 3) mc::violation("arguments that do not describe a tree hang the call: %s", id.c_str());
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C10");
  uint64_t idx = 0;
  for (int arity : {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17, 27, 32, 64, 100})
    for (int64_t leaves : leaf_counts(arity, arity <= 3 ? (mc::thorough() ? 300 : 130) : (mc::thorough() ? 260 : 80), mc::thorough() ? 100000 : 20000)) {
      if (!mc::shard_owns(idx++)) continue;
      auto keys = make_keys(arity, 3);
      Levels l = reference(arity, leaves, absl::MakeUint128(leaves, arity), keys);
      std::set<int64_t> idxs;
      if (leaves <= 130) for (int64_t m = 0; m < leaves; m++) idxs.insert(m);
      for (int64_t m : {(int64_t)0, (int64_t)1, leaves / 3, leaves / 2, leaves - 2, leaves - 1}) if (m >= 0 && m < leaves) idxs.insert(m);
      for (int64_t m : idxs)
        for (int g = 0; g < 4; g++) {
          if (!mc::want(strf("arity=%d leaves=%ld missing=%ld garbage=%d", arity, (long)leaves, (long)m, g))) continue;
          check_punctured(arity, leaves, m, l, keys, g);
          mc::report().states++;
        }
    }
  for (auto& al : std::vector<std::pair<int, int64_t>>{{2, 65537}, {2, 131079}, {3, 70001}, {16, 65553}, {16, 140001}, {257, 66050}, {65537, 65536}, {65537, 131075}}) {
    int arity = al.first;
    int64_t leaves = al.second;
    if (!mc::shard_owns(idx++)) continue;
    auto keys = make_keys(arity, 7);
    Levels l = reference(arity, leaves, Block(77), keys);
    for (int64_t m : {(int64_t)0, (int64_t)32767, leaves / 2, (int64_t)65535, leaves - 1})
      if (mc::want(strf("wide arity=%d leaves=%ld missing=%ld", arity, (long)leaves, (long)m))) { check_punctured(arity, leaves, m, l, keys, 2); mc::report().states++; }
  }
  // Rebuilt with keys that differ from those of the tree before in one bit.
  for (int arity : {2, 3, 5}) for (int64_t leaves : {2, 7, 13}) for (int k = 0; k < arity; k++) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("neighbouring trees arity=%d leaves=%ld key %d", arity, (long)leaves, k))) continue;
    for (int bit = 0; bit < 128; bit++) {
      auto keys = make_keys(arity, 11), keys2 = keys;
      keys2[k] ^= Block(1) << bit;
      check_punctured(arity, leaves, bit % leaves, reference(arity, leaves, Block(bit), keys), keys, bit % 4);
      check_punctured(arity, leaves, bit % leaves, reference(arity, leaves, Block(bit), keys2), keys2, bit % 4);
      mc::report().states++;
    }
  }
  // Around powers, and last nodes in every position.
  for (int arity : {2, 3, 4, 6, 8, 9, 16, 17, 18, 25, 31}) for (int64_t p = 1; p <= (1 << 15); p *= arity) for (int d = -5; d <= 17; d++) {
    int64_t leaves = p + d;
    if (leaves < 200 || !mc::shard_owns(idx++)) continue;
    auto keys = make_keys(arity, 5);
    Levels l = reference(arity, leaves, Block(79), keys);
    for (int64_t m : {leaves / 2 - 1, leaves - 1 - (d & 3), (int64_t)(d + 5)})
      if (mc::want(strf("around powers arity=%d leaves=%ld missing=%ld", arity, (long)leaves, (long)m))) { check_punctured(arity, leaves, m, l, keys, 2); mc::report().states++; }
  }
  // Rebuilt trees one after another and side by side.
  {
    std::vector<std::pair<int, int64_t>> sh{{2, 4}, {2, 5}, {3, 5}, {3, 9}, {4, 4}, {5, 13}};
    for (size_t a = 0; a < sh.size(); a++) for (size_t b = 0; b < sh.size(); b++) {
      if (!mc::shard_owns(idx++)) continue;
      for (int64_t ma = 0; ma < sh[a].second; ma++) for (int64_t mb = 0; mb < sh[b].second; mb++) for (int same = 0; same < 2; same++) {
        if (!mc::want(strf("arities %d,%d leaves %ld,%ld missing %ld,%ld keys %s", sh[a].first, sh[b].first, (long)sh[a].second, (long)sh[b].second, (long)ma, (long)mb, same ? "equal" : "different"))) continue;
        auto ka = make_keys(sh[a].first, 3), kb = make_keys(sh[b].first, same ? 3 : 4);
        Levels la = reference(sh[a].first, sh[a].second, Block(5), ka), lb = reference(sh[b].first, sh[b].second, Block(same ? 5 : 6), kb);
        auto full = GGMTree::Create(sh[a].second, Block(5), ka);
        MC_CHECK(full.ok(), "refused");
        auto sa = sums_of(la, sh[a].first);
        MC_CHECK(full.ValueOrDie()->GetSiblingWiseXOR() == sa, "sibling-wise sums differ");
        auto ta = GGMTree::CreateFromSiblingWiseXOR(sh[a].first, sh[a].second, ma, sa, ka);
        MC_CHECK(ta.ok(), "refused: %s", ta.status().message().data());
        check_punctured(sh[b].first, sh[b].second, mb, lb, kb, (int)((ma + mb) % 4));
        for (int64_t n = 0; n < sh[a].second; n++)
          if (n != ma) MC_CHECK(ta.ValueOrDie()->GetValueAtLeaf(n).ValueOrDie() == la.back()[n], "leaf %ld of the first tree differs after the second was rebuilt", (long)n);
        check_punctured(sh[a].first, sh[a].second, ma, la, ka, 2);
        mc::report().states++;
      }
    }
  }
  for (int arity : {2, 3, 5})
    for (int64_t leaves : {1, 2, 3, 5, 9, 25, 125}) {
      if (!mc::shard_owns(idx++)) continue;
      auto keys = make_keys(arity, 3);
      Levels l = reference(arity, leaves, Block(5), keys);
      auto s = sums_of(l, arity);
      std::string b = strf("arity=%d leaves=%ld ", arity, (long)leaves);
      for (int64_t m : {(int64_t)-1, (int64_t)-2, -leaves, leaves, leaves + 1, INT64_MIN, INT64_MAX})
        if (m < 0 || m >= leaves) expect_refused(b + strf("missing=%ld", (long)m), arity, leaves, m, s, keys);
      for (int64_t n : {(int64_t)0, (int64_t)-1, INT64_MIN}) expect_refused(b + strf("num_leaves=%ld", (long)n), arity, n, 0, s, keys);
      for (int a : {1, 0, -1, arity + 1}) { expect_refused(b + strf("arity argument=%d", a), a, leaves, 0, s.empty() ? std::vector<std::vector<Block>>{std::vector<Block>(arity)} : s, keys); }
      for (int k = 0; k < arity; k++) expect_refused(b + strf("%d keys", k), arity, leaves, 0, s, std::vector<Block>(keys.begin(), keys.begin() + k));
      { auto k2 = keys; k2.push_back(Block(1)); expect_refused(b + "one key too many", arity, leaves, 0, s, k2); }
      if (!s.empty()) { auto s2 = s; s2.pop_back(); expect_refused(b + "one level of sums too few", arity, leaves, 0, s2, keys); }
      { auto s2 = s; s2.push_back(std::vector<Block>(arity)); expect_refused(b + "one level of sums too many", arity, leaves, 0, s2, keys); s2.push_back(std::vector<Block>(arity)); expect_refused(b + "two levels of sums too many", arity, leaves, 0, s2, keys); }
      for (size_t i = 0; i < s.size(); i++) {
        auto s2 = s;
        s2[i].pop_back();
        expect_refused(b + strf("sums of level %zu too short", i), arity, leaves, 0, s2, keys);
        s2 = s;
        s2[i].push_back(Block(0));
        expect_refused(b + strf("sums of level %zu too long", i), arity, leaves, 0, s2, keys);
        s2[i].clear();
        expect_refused(b + strf("sums of level %zu empty", i), arity, leaves, 0, s2, keys);
      }
    }
  mc::sample("arity 3, 27 leaves, missing leaf 13, random on-path sums: 26 leaves equal the original");
  mc::finish();
}
#endif
