// C15 all-but-one transfer hides index and missing value; C22 secrets leave a
// party only under a fresh uniform mask.
//
// Both are statements about pairs of executions. What a party sees is recorded
// (messages, selected transfer messages), and the hidden randomness of the other
// party is changed consistently: tree seeds are replaced where RAND_bytes
// delivers them, and AES answers on the hidden path are re-programmed so that
// everything off the path stays as it was.
#include "boost/archive/binary_iarchive.hpp"
#include "checks/ops.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/distributed_vector_ole.h"
#include "openssl/aes.h"

static uint64_t g_idx = 0;
static bool take(const std::string& id) { return mc::shard_owns(g_idx++) && mc::want(id); }

// ------------------------------------------------------------------ recording
struct View {                     // what `party` sees of its peer
  std::vector<std::string> msgs;  // outside of oblivious transfers
  std::vector<std::string> shape; // all events, without contents of transfers
  std::vector<u128> got;          // transfer messages selected by the party
};
static View view_of(const mc::Link& l, int party) {
  View v;
  for (auto& m : l.log) {
    if (m.from == party) continue;
    if (!m.ot) v.msgs.push_back(m.data);
    v.shape.push_back(m.ot ? strf("transfer data %zu", m.data.size()) : "message " + std::to_string(m.conn) + (m.typed ? "t" : "r") + m.data);
  }
  for (auto& o : l.ots) {
    v.shape.push_back(strf("transfer %c of %zu as %s", o.kind, o.choices.size(), o.sender == party ? "sender" : "receiver"));
    if (o.sender != party) v.got.insert(v.got.end(), o.got.begin(), o.got.end());
  }
  return v;
}
static std::string first_difference(const View& a, const View& b) {
  if (a.shape.size() != b.shape.size()) return strf("%zu events instead of %zu", b.shape.size(), a.shape.size());
  for (size_t i = 0; i < a.shape.size(); i++)
    if (a.shape[i] != b.shape[i]) {
      size_t k = 0;
      while (k < a.shape[i].size() && k < b.shape[i].size() && a.shape[i][k] == b.shape[i][k]) k++;
      return strf("event %zu differs (sizes %zu and %zu, from byte %zu on)", i, a.shape[i].size(), b.shape[i].size(), k);
    }
  for (size_t i = 0; i < a.got.size(); i++)
    if (i >= b.got.size() || a.got[i] != b.got[i]) return strf("selected transfer message %zu differs", i);
  return "";
}
template <typename V> static bool decode_as(const std::string& d, V* v) {
  try {
    std::istringstream is(d);
    boost::archive::binary_iarchive ar(is, boost::archive::no_header);
    ar >> *v;
    return is.peek() == std::char_traits<char>::eof();
  } catch (const std::exception&) { return false; }
}
// A typed message that holds a vector of n scalars.
template <typename T> static bool decode(const mc::Msg& m, size_t n, std::vector<T>* out) {
  if (m.type == std::string(typeid(std::vector<T>).name())) {
    std::vector<T> s;
    if (!decode_as(m.data, &s) || s.size() != n) return false;
    *out = s;
    return true;
  }
  Vector<T> e;
  if (m.type == std::string(typeid(Vector<T>).name()) && decode_as(m.data, &e) && (size_t)e.size() == n) {
    out->assign(e.data(), e.data() + n);
    return true;
  }
  return false;
}
template <typename T> static bool decode_first(const mc::Link& l, int party, size_t n, std::vector<T>* out) {
  for (auto& m : l.log) if (m.from != party && !m.ot && decode(m, n, out)) return true;
  return false;
}

// --------------------------------------------------------- reference for trees
struct Key { unsigned char raw[16]; AES_KEY k; };
static Key key_of(u128 x) {
  Key k;
  memcpy(k.raw, &x, 16);
  AES_set_encrypt_key(k.raw, 128, &k.k);
  return k;
}
static u128 prg(const Key& k, u128 p) {
  u128 o;
  AES_encrypt((const uint8_t*)&p, (uint8_t*)&o, &k.k);
  return o ^ p;
}
struct Tree {
  int64_t leaves = 0, index = 0;
  u128 seed = 0;
  std::vector<std::vector<u128>> lv;
  void expand(const Key k[2]) {
    std::vector<int64_t> sz{leaves};
    while (sz.back() > 1) sz.push_back((sz.back() + 1) / 2);
    std::reverse(sz.begin(), sz.end());
    lv.assign(1, {seed});
    for (size_t l = 1; l < sz.size(); l++) {
      std::vector<u128> v;
      for (int64_t i = 0; i < sz[l]; i++) v.push_back(prg(k[i & 1], lv[l - 1][i / 2]));
      lv.push_back(v);
    }
  }
  u128 leaf(int64_t i) const { return lv.back()[i]; }
};
// The hidden path of one tree and its replacement.
struct Swap {
  std::vector<u128> old_path, new_path;
  std::vector<std::array<u128, 2>> children;      // of the new path's nodes
};
static Swap make_swap(const Tree& t, const Key k[2], u128 new_leaf, uint64_t salt) {
  Swap s;
  size_t d = t.lv.size();
  mc::Rnd r(salt);
  for (size_t l = 0; l < d; l++) {
    s.old_path.push_back(t.lv[l][t.index >> (d - 1 - l)]);
    u128 h = r.next();
    s.new_path.push_back(l + 1 == d ? new_leaf : (h << 64) | r.next());
  }
  for (size_t l = 0; l + 1 < d; l++) {
    std::array<u128, 2> c{prg(k[0], s.old_path[l]), prg(k[1], s.old_path[l])};
    c[(t.index >> (d - 2 - l)) & 1] = s.new_path[l + 1];
    s.children.push_back(c);
  }
  return s;
}
// Draws of both parties, to be replayed with replaced seeds.
typedef std::vector<std::string> Draws;
struct Recorded { Draws d[2]; };
static std::vector<mc::Draw> g_draws;
static Recorded g_rec;
static size_t g_pos[2];
static uint64_t g_aes_calls = 0;
static std::vector<Key> g_keys[2];  // distinct keys each party encrypted with
static bool key_is(const void* k, const Key& want) { return memcmp(k, want.k.rd_key, 11 * 16) == 0; }
static void saw_key(int party, const void* k) {
  auto& v = g_keys[party];
  for (size_t i = v.size(); i-- > 0;) if (key_is(k, v[i])) return;
  if (v.size() >= 6) return;
  Key n;
  memset(n.raw, 0, 16);
  memcpy(&n.k, k, sizeof(AES_KEY));
  v.push_back(n);
}
static void start_recording() {
  g_draws.clear();
  g_aes_calls = 0;
  g_keys[0].clear();
  g_keys[1].clear();
  mc::rng_log = &g_draws;
  mc::rng_hook = nullptr;
  mc::aes_hook = [](const uint8_t*, uint8_t*, const void* k) {
    g_aes_calls++;
    if (mc::self_party() >= 0) saw_key(mc::self_party(), k);
    return false;
  };
}
static void stop() {
  if (mc::rng_log) {
    g_rec = Recorded();
    for (auto& d : g_draws) if (d.party >= 0) g_rec.d[d.party].push_back(d.bytes);
  }
  mc::rng_log = nullptr;
  mc::rng_hook = nullptr;
  mc::aes_hook = nullptr;
}
static std::vector<u128> chunks(int party) {
  std::vector<u128> v;
  for (auto& s : g_rec.d[party])
    for (size_t i = 0; i + 16 <= s.size(); i += 16) { u128 x; memcpy(&x, s.data() + i, 16); v.push_back(x); }
  return v;
}
// Replays the recorded draws with the swaps applied to `party`'s.
static void start_replay(int party, const Key k[2], const std::vector<Swap>& sw) {
  static Recorded rec;
  rec = g_rec;
  g_pos[0] = g_pos[1] = 0;
  for (auto& s : rec.d[party])
    for (size_t i = 0; i + 16 <= s.size(); i += 16)
      for (auto& w : sw)
        if (memcmp(s.data() + i, &w.old_path[0], 16) == 0) memcpy(&s[i], &w.new_path[0], 16);
  mc::rng_hook = [](unsigned char* p, size_t n) {
    int me = mc::self_party();
    if (me < 0 || g_pos[me] >= rec.d[me].size() || rec.d[me][g_pos[me]].size() != n)
      mc::violation("the amount of randomness that is drawn depends on hidden values");
    memcpy(p, rec.d[me][g_pos[me]++].data(), n);
    return true;
  };
  static std::map<std::pair<int, u128>, u128> table;
  table.clear();
  for (auto& w : sw)
    for (size_t l = 0; l < w.children.size(); l++)
      for (int b = 0; b < 2; b++) table[{b, w.new_path[l]}] = w.children[l][b] ^ w.new_path[l];
  static Key kk[2];
  kk[0] = k[0];
  kk[1] = k[1];
  mc::aes_hook = [](const uint8_t* in, uint8_t* out, const void* key) {
    u128 x;
    memcpy(&x, in, 16);
    for (int b = 0; b < 2; b++)
      if (key_is(key, kk[b])) {
        auto it = table.find({b, x});
        if (it != table.end()) { memcpy(out, &it->second, 16); return true; }
      }
    return false;
  };
}
// The two keys: the sender's raw bytes outside of transfers.
static bool find_keys(const mc::Link& l, int sender, Key k[2]) {
  std::string all;
  for (auto& m : l.log) if (m.from == sender && !m.ot && !m.typed) all += m.data;
  if (all.size() != 32) return false;
  for (int i = 0; i < 2; i++) { u128 x; memcpy(&x, all.data() + 16 * i, 16); k[i] = key_of(x); }
  return true;
}
// The pairs of keys the sender's trees may have been expanded with: those it
// sent, and those it was seen to encrypt with. Trees of a single leaf need none.
typedef std::array<Key, 2> KeyPair;
static std::vector<KeyPair> key_pairs(const mc::Link& l, int sender, const std::vector<int64_t>& len) {
  std::vector<KeyPair> v;
  int64_t top = 0;
  for (int64_t n : len) top = std::max(top, n);
  if (top <= 1) return {KeyPair{key_of(1), key_of(2)}};
  if (g_aes_calls == 0) return v;
  KeyPair k;
  if (find_keys(l, sender, k.data())) v.push_back(k);
  for (auto& a : g_keys[sender]) for (auto& b : g_keys[sender]) if (&a != &b) v.push_back(KeyPair{a, b});
  return v;
}
static u128 random128(uint64_t salt) { mc::Rnd r(salt); u128 h = r.next(); return (h << 64) | r.next(); }

// One operation in a fresh session; the log of object creation is kept apart.
template <typename P, typename T>
static void exec(Sess<T>& s, const Conf& c, const typename P::Op& op, typename P::Out out[2], bool keep_creation = false) {
  mc::rng_reset(77);
  s.both([&](int party, mpc_utils::comm_channel& ch) {
    auto o = create<typename P::Obj>(ch);
    ch.sync();
    if (party == 0 && !keep_creation) s.link.reset_log();
    ch.sync();
    int role = role_of(party, c.first, op.dir);
    P::run(*o, op, s.mod, role, out[role]);
  });
  mc::report().evaluations++;
}

static uint64_t n_swapped, n_skipped, n_other_draws, n_bits;
[[maybe_unused]] static int g_snd;

#if PROP == 15
template <typename T>
static void index_hidden(const Conf& c, const Mod& m, const std::vector<int64_t>& len, const std::vector<std::vector<int64_t>>& tuples) {
  View ref;
  bool have = false;
  std::vector<int64_t> first;
  for (auto& ix : tuples) {
    Sess<T> s(c, m);
    RotOp op;
    op.len = len;
    op.idx = ix;
    typename Rot<T>::Out out[2];
    exec<Rot<T>, T>(s, c, op, out);
    View v = view_of(s.link, c.first);
    mc::report().states++;
    if (!have) { ref = v; have = true; first = ix; continue; }
    std::string d = first_difference(ref, v);
    if (!d.empty()) mc::violation("lengths %s: the sender's view for indices %s differs from the one for %s: %s", show(len).c_str(), show(ix).c_str(), show(first).c_str(), d.c_str());
  }
}
static void value_hidden(const Conf& c, const std::vector<int64_t>& len, const std::vector<int64_t>& idx, uint64_t salt) {
  typedef a128 T;
  Mod m;
  RotOp op;
  op.len = len;
  op.idx = idx;
  int snd = c.first, rcv = 1 - c.first;
  Rot<T>::Out out[2], out2[2];
  Sess<T> s(c, m);
  start_recording();
  exec<Rot<T>, T>(s, c, op, out);
  stop();
  View v1 = view_of(s.link, rcv);
  mc::report().states++;
  // Whatever the implementation: a hidden value never appears in the view.
  auto seen = [&](const View& v, u128 x) {
    for (u128 g : v.got) if (g == x) return true;
    std::string b((const char*)&x, 16);
    for (auto& t : v.msgs) if (t.find(b) != std::string::npos) return true;
    return false;
  };
  for (size_t i = 0; i < len.size(); i++)
    if (len[i] > 0 && seen(v1, val(out[0][i][idx[i]])))
      mc::violation("lengths %s, indices %s: the receiver is sent the sender's value at index %ld of vector %zu", show(len).c_str(), show(idx).c_str(), (long)idx[i], i);
  Key k[2];
  std::vector<Tree> trees(len.size());
  bool ok = false;
  auto cand = chunks(snd);
  for (auto& kp : key_pairs(s.link, snd, len)) {
    k[0] = kp[0];
    k[1] = kp[1];
    ok = true;
    for (size_t i = 0; ok && i < len.size(); i++) {
      if (len[i] == 0) continue;
      bool found = false;
      for (u128 x : cand) {
        Tree t;
        t.leaves = len[i];
        t.index = idx[i];
        t.seed = x;
        t.expand(k);
        bool same = true;
        for (int64_t j = 0; same && j < len[i]; j++) same = t.leaf(j) == val(out[0][i][j]);
        if (same) { trees[i] = t; found = true; break; }
      }
      ok = found;
    }
    if (ok) break;
  }
  if (!ok) { n_skipped++; return; }
  for (size_t i = 0; i < len.size(); i++)
    if (len[i] > 0)
      for (size_t l = 0; l < trees[i].lv.size(); l++)
        if (seen(v1, trees[i].lv[l][idx[i] >> (trees[i].lv.size() - 1 - l)]))
          mc::violation("lengths %s, indices %s: the receiver is sent the node of level %zu on the path to its index in vector %zu", show(len).c_str(), show(idx).c_str(), l, i);
  // Change the hidden paths of every single tree, and of all of them.
  for (size_t which = 0; which <= len.size(); which++) {
    if (len.size() > 20 && which > 1 && which + 1 < len.size() && which != len.size() / 2) continue;
    std::vector<Swap> sw;
    for (size_t i = 0; i < len.size(); i++)
      if (len[i] > 0 && (which == i || which == len.size())) sw.push_back(make_swap(trees[i], k, random128(salt + i * 31 + which), salt * 7 + i));
    if (sw.empty()) continue;
    Sess<T> s2(c, m);
    start_replay(snd, k, sw);
    exec<Rot<T>, T>(s2, c, op, out2);
    stop();
    n_swapped++;
    View v2 = view_of(s2.link, rcv);
    std::string d = first_difference(v1, v2);
    if (!d.empty())
      mc::violation("lengths %s, indices %s: the receiver's view depends on the hidden path of %s: %s", show(len).c_str(), show(idx).c_str(), which == len.size() ? "the trees" : strf("tree %zu", which).c_str(), d.c_str());
    for (size_t i = 0; i < len.size(); i++)
      for (int64_t j = 0; j < len[i]; j++)
        if (j != idx[i] && val(out2[0][i][j]) != val(out[0][i][j])) mc::violation("internal: the replacement of the hidden path changed leaf %ld of tree %zu", (long)j, i);
    mc::report().states++;
  }
}
// What the receiver sees must not determine the missing values: they change
// with the sender's draws of which the receiver is told nothing, with every
// single bit of enough of them. And none of them is found elsewhere.
static void value_from_hidden(const Conf& c, const std::vector<int64_t>& len, const std::vector<int64_t>& idx, int bits) {  // bits: 0 all at once only, 1 each bit, 2 a bit of each byte
  typedef a128 T;
  Mod m;
  RotOp op;
  op.len = len;
  op.idx = idx;
  int snd = c.first, rcv = 1 - c.first;
  Rot<T>::Out out[2], out2[2];
  Sess<T> s(c, m);
  start_recording();
  exec<Rot<T>, T>(s, c, op, out, true);
  stop();
  View v = view_of(s.link, rcv);
  mc::report().states++;
  for (size_t i = 0; i < len.size(); i++) {
    if (len[i] == 0) continue;
    u128 miss = val(out[0][i][idx[i]]);
    for (size_t t = 0; t < len.size(); t++)
      for (int64_t j = 0; j < len[t]; j++)
        if ((t != i || j != idx[i]) && val(out[0][t][j]) == miss && (j != idx[t] || t != i))
          mc::violation("lengths %s, indices %s: the value missing in vector %zu is also the one at position %ld of vector %zu", show(len).c_str(), show(idx).c_str(), i, (long)j, t);
  }
  // The 16-byte pieces of the sender's draws that the receiver is told.
  std::string told;
  for (auto& t : v.msgs) told += t, told += '|';
  static Draws draws;
  static std::vector<std::pair<size_t, size_t>> hidden;   // of draw and offset
  draws = g_rec.d[snd];
  hidden.clear();
  for (size_t d = 0; d < draws.size(); d++)
    for (size_t o = 0; o < draws[d].size(); o += 16) {
      std::string piece = draws[d].substr(o, 16);
      bool seen = told.find(piece) != std::string::npos;
      for (u128 g : v.got) seen = seen || (piece.size() == 16 && memcmp(piece.data(), &g, 16) == 0);
      if (!seen) hidden.push_back({d, o});
    }
  static size_t pos;
  static bool same_draws;
  auto again = [&](const std::function<void(Draws&)>& change) {
    static Draws changed;
    changed = draws;
    change(changed);
    pos = 0;
    same_draws = true;
    mc::rng_hook = [](unsigned char* p, size_t n) {
      int me = mc::self_party();
      if (me != g_snd) return false;
      if (pos >= changed.size() || changed[pos].size() != n) { same_draws = false; return false; }
      memcpy(p, changed[pos++].data(), n);
      return true;
    };
    Sess<T> s2(c, m);
    exec<Rot<T>, T>(s2, c, op, out2, true);
    mc::rng_hook = nullptr;
    mc::report().states++;
  };
  g_snd = snd;
  again([&](Draws& d) { for (auto& h : hidden) for (size_t o = h.second; o < std::min(h.second + 16, d[h.first].size()); o++) d[h.first][o] ^= (char)(0x5b + o * 7); });
  if (!same_draws) { n_other_draws++; return; }
  for (size_t i = 0; i < len.size(); i++)
    if (len[i] > 0 && val(out2[0][i][idx[i]]) == val(out[0][i][idx[i]]))
      mc::violation("lengths %s, indices %s: the value missing in vector %zu stays the same whatever the sender draws without telling the receiver", show(len).c_str(), show(idx).c_str(), i);
  if (!bits) return;
  std::vector<uint64_t> influence(len.size(), 0);
  for (auto& h : hidden)
    for (size_t b = bits == 2 ? h.second / 16 % 8 : 0; b < 8 * std::min<size_t>(16, draws[h.first].size() - h.second); b += bits == 2 ? 8 : 1) {
      again([&](Draws& d) { d[h.first][h.second + b / 8] ^= (char)(1 << b % 8); });
      if (!same_draws) { n_other_draws++; return; }
      for (size_t i = 0; i < len.size(); i++)
        if (len[i] > 0 && val(out2[0][i][idx[i]]) != val(out[0][i][idx[i]])) influence[i]++;
    }
  for (size_t i = 0; i < len.size(); i++)
    if (len[i] > 0 && influence[i] < (bits == 2 ? 16 : 128))
      mc::violation("lengths %s, indices %s: the value missing in vector %zu depends on %lu of the %s the sender draws without telling the receiver, not on %d", show(len).c_str(), show(idx).c_str(), i, (unsigned long)influence[i], bits == 2 ? "bytes" : "bits", bits == 2 ? 16 : 128);
  n_bits++;
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C15");
  auto confs = all_confs();
  int64_t L = mc::thorough() ? 80 : 36;
  auto all_of = [](const std::vector<int64_t>& len) {
    std::vector<std::vector<int64_t>> cur{{}};
    for (int64_t l : len) {
      std::vector<std::vector<int64_t>> next;
      for (auto& b : cur) for (int64_t i = 0; i < std::max<int64_t>(l, 1); i++) { auto x = b; x.push_back(i); next.push_back(x); }
      cur = next;
    }
    return cur;
  };
  std::vector<std::vector<int64_t>> batch;
  std::vector<int64_t> ls{0, 1, 2, 3, 5};
  for (int64_t a : ls) for (int64_t b : ls) { batch.push_back({a, b}); for (int64_t d : ls) batch.push_back({a, b, d}); }
  for (size_t ci = 0; ci < confs.size(); ci += (mc::thorough() ? 1 : 3)) {
    auto& c = confs[ci];
    for (int64_t n = 1; n <= L; n++) {
      if (take(strf("%s index length %ld", conf_name(c).c_str(), (long)n))) {
        index_hidden<a128>(c, Mod{}, {n}, all_of({n}));
        index_hidden<uint8_t>(c, Mod{}, {n}, all_of({n}));
        index_hidden<NTL::ZZ_p>(c, Mod{61, -1}, {n}, all_of({n}));
      }
      if (take(strf("%s value length %ld", conf_name(c).c_str(), (long)n)))
        for (int64_t i = 0; i < n; i++) value_hidden(c, {n}, {i}, n * 1000 + i);
    }
    for (auto& b : batch) {
      if (take(strf("%s index batch %s", conf_name(c).c_str(), show(b).c_str()))) index_hidden<a128>(c, Mod{}, b, all_of(b));
      if (take(strf("%s value batch %s", conf_name(c).c_str(), show(b).c_str()))) for (auto& ix : all_of(b)) value_hidden(c, b, ix, 5);
    }
  }
  for (int64_t n : {63, 64, 65, 127, 128, 129, 1000, 1024, 1025}) {
    std::vector<std::vector<int64_t>> t;
    for (int64_t i : std::set<int64_t>{0, 1, n / 2, n - 2, n - 1}) t.push_back({i});
    if (take(strf("index length %ld", (long)n))) index_hidden<a128>(confs[3], Mod{}, {n}, t);
    if (take(strf("value length %ld", (long)n))) for (auto& i : t) value_hidden(confs[3], {n}, i, n);
  }
  for (int64_t n : {65536, 65537, 70001}) {
    std::vector<std::vector<int64_t>> t;
    for (int64_t i : std::set<int64_t>{0, 32768, n / 2, 65535, n - 1}) t.push_back({i});
    if (take(strf("index length %ld", (long)n))) index_hidden<uint8_t>(confs[1], Mod{}, {n}, t);
    if (take(strf("value length %ld", (long)n))) for (auto& i : t) value_hidden(confs[1], {n}, i, n);
  }
  for (auto& c : {confs[0], confs[1]}) {
    for (int64_t n : {1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 65, 100, 128, 129, 257, 1000})
      if (take(strf("%s value from hidden draws, length %ld", conf_name(c).c_str(), (long)n)))
        for (int64_t i : std::set<int64_t>{0, n / 2, n - 1}) value_from_hidden(c, {n}, {i}, i == n / 2);
    for (auto& b : batch)
      if (take(strf("%s value from hidden draws, batch %s", conf_name(c).c_str(), show(b).c_str())))
        for (auto& ix : all_of(b)) value_from_hidden(c, b, ix, ix == all_of(b).back() && (b.size() == 2 || mc::thorough()));
  }
  // Many vectors at once.
  for (size_t n : {8, 9, 16, 17, 31, 33, 64, 65, 70, 129, 150, 257, 300})
    for (int kind = 0; kind < 2; kind++) {
      std::vector<int64_t> b;
      for (size_t i = 0; i < n; i++) b.push_back(kind ? 2 + i % 3 : i % 5);
      std::vector<std::vector<int64_t>> t(4);
      for (size_t q = 0; q < t.size(); q++) for (size_t i = 0; i < n; i++) t[q].push_back(b[i] ? (i * q + q) % b[i] : 0);
      auto& c = confs[n % confs.size()];
      if (take(strf("%s index, %zu vectors, kind %d", conf_name(c).c_str(), n, kind))) index_hidden<a128>(c, Mod{}, b, t);
      if (take(strf("%s value, %zu vectors, kind %d", conf_name(c).c_str(), n, kind))) value_hidden(c, b, t[1 + kind], n * 5 + kind);
      if (take(strf("%s value from hidden draws, %zu vectors, kind %d", conf_name(c).c_str(), n, kind))) value_from_hidden(c, b, t[2 + kind], 0);
    }
  for (int64_t n : {255, 256, 300, 511, 513, 1025, 2049, 4096, 4097, 10000, 20000, 32769, 65536, 70001})
    if (take(strf("value from hidden draws, length %ld", (long)n))) value_from_hidden(confs[n % 2], {n}, {n / 3}, n > 5000 && !mc::thorough() ? 2 : 1);
  for (auto& b : std::vector<std::vector<int64_t>>{{5, 300}, {300, 5}, {1000, 257, 64}, {0, 513, 1}, {4097, 20}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3}})
    if (take(strf("value from hidden draws, batch %s", show(b).c_str()))) {
      std::vector<int64_t> ix;
      for (int64_t l : b) ix.push_back(l / 3);
      value_from_hidden(confs[b.size() % 2], b, ix, 1);
    }
  mc::count("pairs_with_replaced_hidden_path", n_swapped);
  mc::count("pairs_not_applicable", n_skipped);
  mc::count("bitwise_dependence_measured", n_bits);
  mc::count("pairs_with_other_draws", n_other_draws);
  mc::sample("length 5, index 3: nodes of levels 0..3 on the path replaced, receiver's view unchanged");
  mc::finish(n_skipped == 0);
}
#endif

#if PROP == 22
// Identifies the tree seeds from the message of masked sums, then replaces the
// hidden leaves so that they absorb a change of the value shares.
template <typename T, typename P>
struct Masked {
  Conf c;
  Mod m;
  typename P::Op op1, op2;       // op2: same public inputs, other secrets of role 0
  std::vector<int64_t> len, idx; // of the trees
  std::vector<T> s1, s2;         // value shares of role 0 in op1 and op2
  const char* what;
  void go(uint64_t salt) {
    int snd = role_of(0, c.first, op1.dir) == 0 ? 0 : 1, rcv = 1 - snd;
    typename P::Out o1[2], o2[2];
    Sess<T> a(c, m);
    start_recording();
    exec<P, T>(a, c, op1, o1);
    stop();
    Recorded rec = g_rec;
    View v1 = view_of(a.link, rcv);
    Key k[2];
    std::vector<KeyPair> pairs = key_pairs(a.link, snd, len);
    std::vector<T> sums;
    bool have = decode_first(a.link, rcv, len.size(), &sums);
    if (!have || pairs.empty()) { n_skipped++; return; }
    std::vector<u128> cand = chunks(snd);
    std::vector<Swap> sw;
    size_t bad = len.size(), furthest = 0;
    for (auto& kp : pairs) {
      k[0] = kp[0];
      k[1] = kp[1];
      sw.clear();
      bad = len.size();
      for (size_t j = 0; j < len.size() && bad == len.size(); j++) {
        if (len[j] == 0) continue;
        bool found = false;
        for (u128 x : cand) {
          Tree t;
          t.leaves = len[j];
          t.index = idx[j];
          t.seed = x;
          t.expand(k);
          T sum = s1[j];
          for (int64_t i = 0; i < len[j]; i++) sum = add(sum, mk<T>(t.leaf(i)));
          if (val(sum) != val(sums[j])) continue;
          // The hidden leaf takes up the difference of the shares.
          T leaf = sub(add(mk<T>(t.leaf(idx[j])), s1[j]), s2[j]);
          sw.push_back(make_swap(t, k, val(leaf), salt + j));
          found = true;
          break;
        }
        if (!found) bad = j;
      }
      if (bad == len.size()) break;
      furthest = std::max(furthest, bad);
    }
    if (bad != len.size())
      mc::violation("%s, lengths %s: the message for vector %zu is not the value share masked with the sum of all values of the vector", what, show(len).c_str(), furthest);
    Sess<T> b(c, m);
    g_rec = rec;
    start_replay(snd, k, sw);
    exec<P, T>(b, c, op2, o2);
    stop();
    n_swapped++;
    mc::report().states += 2;
    View v2 = view_of(b.link, rcv);
    std::string d = first_difference(v1, v2);
    if (!d.empty())
      mc::violation("%s, lengths %s, indices %s: changing the value shares and the hidden masks accordingly changes the index provider's view: %s", what, show(len).c_str(), show(idx).c_str(), d.c_str());
  }
};
// Operations with fixed shares instead of the patterns of ops.h.
template <typename T> struct SpfssIn { static std::vector<T> share[2]; };
template <typename T> std::vector<T> SpfssIn<T>::share[2];
template <typename T>
struct SpfssX : Spfss<T> {
  static void run(SPFSSKnownIndex& o, const SpfssOp& op, const Mod&, int role, Vecs<T>& out) {
    out = garbage<T>(op.len);
    auto s = spans(out);
    std::vector<T> sh = SpfssIn<T>::share[role];
    if (role == 0 && op.k) for (auto& x : sh) x = add(x, mk<T>(op.k));
    if (op.api && op.len.size() == 1)
      need_ok(role == 0 ? o.RunValueProvider<T>(sh[0], s[0]) : o.RunIndexProvider<T>(sh[0], op.idx[0], s[0]), "single-point sharing");
    else
      need_ok(role == 0 ? o.RunValueProviderBatched<T>(sh, absl::MakeSpan(s)) : o.RunIndexProviderBatched<T>(sh, op.idx, absl::MakeSpan(s)), "single-point sharing");
  }
};
template <typename T> static void spfss(const Mod& m) {
  install<T>(m);
  std::string ty = full_name<T>(m);
  auto confs = all_confs();
  std::vector<std::vector<int64_t>> shapes;
  for (int64_t n = 0; n <= (mc::thorough() ? 40 : 20); n++) shapes.push_back({n});
  std::vector<int64_t> ls{0, 1, 2, 3};
  for (int64_t a : ls) for (int64_t b : ls) { shapes.push_back({a, b}); for (int64_t d : ls) shapes.push_back({a, b, d}); }
  shapes.push_back({64});
  shapes.push_back({100, 0, 33});
  const size_t small = shapes.size();  // the shapes after these are sampled at a few indices
  for (int64_t n : {127, 129, 255, 257, 1025, 5000}) shapes.push_back({n});
  shapes.push_back({600, 1, 0, 260});
  for (size_t n : {16, 17, 33, 65, 130, 300}) {
    shapes.push_back({});
    for (size_t i = 0; i < n; i++) shapes.back().push_back(n % 2 ? 1 + i % 3 : i % 4);
  }
  for (size_t si = 0; si < shapes.size(); si++) {
    auto& len = shapes[si];
    if (!take(strf("%s single-point %s", ty.c_str(), show(len).c_str()))) continue;
    install<T>(m);
    int64_t reach = 1;
    for (int64_t l : len) reach = std::max(reach, l);
    std::set<int64_t> at;
    for (int64_t i = 0; i < reach; i++) if (si < small || i == 0 || i == 1 || i == reach / 2 || i == reach - 1) at.insert(i);
    for (int64_t i : at)
      for (uint64_t delta : {1, 255, 12345}) {
        if (si >= small && delta != 255) continue;
        Masked<T, SpfssX<T>> w;
        w.c = confs[(i + delta) % confs.size()];
        w.m = m;
        w.what = "single-point sharing";
        w.op1.len = len;
        for (int64_t l : len) w.op1.idx.push_back(l ? (i * (int64_t)(w.op1.idx.size() + 1)) % l : 0);
        w.op1.k = 0;
        w.op1.api = i & 1;
        w.op2 = w.op1;
        w.op2.k = delta;
        w.len = len;
        w.idx = w.op1.idx;
        SpfssIn<T>::share[0] = patterns<T>(m, len.size(), i * 5);
        SpfssIn<T>::share[1] = patterns<T>(m, len.size(), i * 3 + 1);
        w.s1 = SpfssIn<T>::share[0];
        w.s2 = w.s1;
        for (auto& x : w.s2) x = add(x, mk<T>(delta));
        w.go(i * 100 + delta);
      }
    // The value provider's view depends on neither index nor share of the peer.
    View ref;
    bool have = false;
    for (int64_t i : at) {
      Conf c = confs[reach % confs.size()];
      Sess<T> s(c, m);
      SpfssOp op;
      op.len = len;
      for (int64_t l : len) op.idx.push_back(l ? i % l : 0);
      SpfssIn<T>::share[1] = patterns<T>(m, len.size(), i + 3);
      Vecs<T> out[2];
      exec<SpfssX<T>, T>(s, c, op, out);
      View v = view_of(s.link, c.first);
      if (have) {
        std::string d = first_difference(ref, v);
        if (!d.empty()) mc::violation("single-point sharing, lengths %s: the value provider's view depends on the index provider's secrets: %s", show(len).c_str(), d.c_str());
      }
      ref = v;
      have = true;
    }
  }
}
// ----------------------------------------------------------------- multi-point
template <typename T> struct MpfssIn { static std::vector<T> y, u, v, w; static T x; };
template <typename T> std::vector<T> MpfssIn<T>::y;
template <typename T> std::vector<T> MpfssIn<T>::u;
template <typename T> std::vector<T> MpfssIn<T>::v;
template <typename T> std::vector<T> MpfssIn<T>::w;
template <typename T> T MpfssIn<T>::x;
template <typename T>
struct MpfssX : Mpfss<T> {
  static void run(MPFSSKnownIndices& o, const MpfssOp& op, const Mod&, int role, std::vector<T>& out) {
    typedef MpfssIn<T> I;
    out.assign(op.len, mk<T>(0));
    if (op.k && role == 0) {
      I::x = add(I::x, mk<T>(op.k));
      for (size_t i = 0; i < I::w.size(); i++) I::w[i] = add(mul(I::u[i], I::x), I::v[i]);
    }
    need_ok(role == 0 ? o.RunValueProviderVectorOLE<T>(I::x, (int)op.idx.size(), I::w, absl::MakeSpan(out)) : o.RunIndexProviderVectorOLE<T>(I::y, op.idx, I::u, I::v, absl::MakeSpan(out)), "multi-point sharing");
  }
};
template <typename T> static int64_t buckets_for(int t) {
  Conf c;
  Sess<T> s(c, Mod{61, -1});
  int64_t n[2] = {0, 0};
  s.both([&](int p, mpc_utils::comm_channel& ch) {
    auto o = create<MPFSSKnownIndices>(ch);
    auto r = o->NumBuckets(t);
    need_ok(r.ok() ? mpc_utils::OkStatus() : r.status(), "NumBuckets");
    n[p] = r.ValueOrDie();
  });
  return n[0];
}
template <typename T> static void mpfss(const Mod& m) {
  install<T>(m);
  std::string ty = full_name<T>(m);
  auto confs = all_confs();
  std::vector<std::vector<int64_t>> base{{0}, {1, 0}, {0, 1, 2}, {2, 0, 3, 1}};
  for (int n : {10, 33, 100, 300}) {  // the larger ones only in outputs of their own length
    base.push_back({});
    for (int i = 0; i < n; i++) base.back().push_back((i * 11 + 3) % (3 * n + 1));
  }
  for (int64_t N : {1, 2, 4, 9, 40, 100, 301, 901, 2000})
    for (auto& idx : base) {
      if (N > 40 && N != 3 * (int64_t)idx.size() + 1 && idx.size() != 2 && (N != 2000 || idx.size() != 33)) continue;
      if (N <= 40 && idx.size() > 10) continue;
      if ((int64_t)idx.size() > N || *std::max_element(idx.begin(), idx.end()) >= N) continue;
      for (int f = 0; f < 2; f++) {
        if (!take(strf("%s multi-point length %ld indices %s first %d", ty.c_str(), (long)N, show(idx).c_str(), f))) continue;
        install<T>(m);
        typedef MpfssIn<T> I;
        int t = (int)idx.size();
        int64_t nb = buckets_for<T>(t);
        install<T>(m);
        auto setup = [&](uint64_t k) {
          I::x = pattern<T>(m, k + 7);
          I::y = patterns<T>(m, t, k + 20);
          I::u = patterns<T>(m, nb, k + 40);
          I::v = patterns<T>(m, nb, k + 300);
          I::w.resize(nb);
          for (int64_t i = 0; i < nb; i++) I::w[i] = add(mul(I::u[i], I::x), I::v[i]);
        };
        Conf c;
        c.first = f;
        c.measured = N & 1;
        // (1) The index provider's y and indices are hidden behind u.
        MpfssOp op;
        op.len = N;
        op.idx = idx;
        setup(1);
        auto u0 = I::u, y0 = I::y;
        auto run1 = [&](std::vector<T>* masked) {
          Sess<T> s(c, m);
          std::vector<T> out[2];
          exec<MpfssX<T>, T>(s, c, op, out);
          View v = view_of(s.link, c.first);
          if (!decode_first(s.link, c.first, (size_t)nb, masked)) n_skipped++;
          mc::report().states++;
          return v;
        };
        std::vector<T> m1;
        View v1 = run1(&m1);
        if ((int64_t)m1.size() == nb) {
          // Without y, the message is the mask itself.
          I::y.assign(t, mk<T>(0));
          std::vector<T> m0;
          run1(&m0);
          for (int64_t i = 0; i < nb; i++) MC_CHECK(val(m0[i]) == val(u0[i]), "multi-point sharing: bucket %ld is not masked with its own entry of u", (long)i);
          for (int k = 0; k < 6; k++) {
            if (N > 40 && k != 1 && k != 4) continue;
            // Other values and other indices of the same number.
            I::y = patterns<T>(m, t, k * 13 + 1);
            op.idx = idx;
            std::rotate(op.idx.begin(), op.idx.begin() + k % t, op.idx.end());
            if (k >= 3) for (auto& i : op.idx) i = N - 1 - i;
            I::u = u0;
            std::vector<T> m2, m3;
            run1(&m2);
            for (int64_t i = 0; i < nb; i++) I::u[i] = sub(add(u0[i], m1[i]), m2[i]);
            View v3 = run1(&m3);
            n_swapped++;
            std::string d = first_difference(v1, v3);
            if (!d.empty()) mc::violation("multi-point sharing, length %ld: with other points and the mask adjusted the value provider's view differs: %s", (long)N, d.c_str());
          }
          op.idx = idx;
        }
        // (2) The value provider's scalar is hidden behind the trees.
        for (uint64_t delta : {1, 77}) {
          setup(delta);
          Masked<T, MpfssX<T>> w;
          w.c = c;
          w.m = m;
          w.what = "multi-point sharing";
          w.op1 = op;
          w.op2 = op;
          w.op2.k = delta;
          // The layout, from the hash seed on the channel.
          Sess<T> s(c, m);
          std::vector<T> out[2];
          exec<MpfssX<T>, T>(s, c, op, out, true);
          a128 seed;
          bool found = false;
          for (auto& msg : s.link.log) if (!found && msg.type == std::string(typeid(a128).name())) found = decode_as(msg.data, &seed);
          auto h = CuckooHasher::Create(seed, 3, 41);
          std::vector<int64_t> all(N);
          std::iota(all.begin(), all.end(), 0);
          if (!found || !h.ok()) { n_skipped++; continue; }
          auto simple = h.ValueOrDie()->HashSimple<int64_t>(absl::MakeConstSpan(all), nb);
          auto cuckoo = h.ValueOrDie()->HashCuckoo<int64_t>(absl::MakeConstSpan(idx), nb);
          if (!simple.ok() || !cuckoo.ok()) { n_skipped++; continue; }
          T x2 = add(I::x, mk<T>(delta));
          for (int64_t b = 0; b < nb; b++) {
            auto& bk = simple.ValueOrDie()[b];
            int64_t e = cuckoo.ValueOrDie()[b];
            w.len.push_back(bk.size());
            w.idx.push_back(e < 0 ? 0 : std::lower_bound(bk.begin(), bk.end(), idx[e]) - bk.begin());
            T yb = e < 0 ? mk<T>(0) : I::y[e];
            w.s1.push_back(sub(mul(yb, I::x), I::v[b]));
            w.s2.push_back(sub(mul(yb, x2), I::v[b]));
          }
          w.go(delta);
        }
      }
    }
}
// ------------------------------------------------------------- scalar product
static Draws* g_ot_draws;
template <typename T> static void gilboa(const Mod& m, double security) {
  install<T>(m);
  typedef Gilboa<T> P;
  std::string ty = full_name<T>(m);
  int size = is_mod<T>::value ? (int)ScalarHelper<T>::SizeOf() : (int)sizeof(T);
  int bits = 8 * size, stride = 16 / size;
  std::vector<int> lens{0, 1, 2, 3, 7};
  for (int d : {-1, 0, 1}) for (int k : {1, 2}) lens.push_back(stride * k + d);
  // Long products, with one scalar: up to 20,000 transfers or so.
  for (int n : {20, 33, 65, 130, 260, 300, 1000, 5000}) if ((int64_t)n * bits / stride <= (mc::thorough() ? 80000 : 20000)) lens.push_back(n);
  for (int n : std::set<int>(lens.begin(), lens.end()))
    for (int xk = 0; xk < 7; xk++) {
      if (n > 2 * stride + 1 && n > 7 && xk != n % 2) continue;
      if (n < 0 || !take(strf("%s product length %d scalar %d security %g", ty.c_str(), n, xk, security))) continue;
      install<T>(m);
      Conf c;
      c.first = xk & 1;
      c.measured = n & 1;
      int vec = c.first, valp = 1 - vec;
      auto unpack = [&](u128 b) {
        std::vector<u128> v(stride);
        for (int i = 0; i < stride; i++) v[i] = bits == 128 ? b : (b >> (i * bits)) & (((u128)1 << bits) - 1);
        return v;
      };
      auto run = [&](u128 x, const std::vector<T>& y, std::vector<T> out[2], Sess<T>& s, uint64_t rs = 5) {
        GilboaOp op;
        op.x = x;
        for (auto& e : y) op.y.push_back(val(e));
        mc::rng_reset(rs);
        s.both([&](int party, mpc_utils::comm_channel& ch) {
          auto o = create<ScalarVectorGilboaProduct>(ch, security);
          int role = role_of(party, c.first, 0);
          P::run(*o, op, m, role, out[role]);
        });
        mc::report().evaluations++;
        mc::report().states++;
      };
      u128 x = val(pattern<T>(m, xk));
      auto y1 = patterns<T>(m, n, xk * 3), y2 = patterns<T>(m, n, xk * 3 + 50);
      std::vector<T> o1[2], o2[2], o3[2];
      Sess<T> s1(c, m), s2(c, m), s3(c, m);
      run(x, y1, o1, s1);
      // The vector provider sees nothing of the scalar.
      run(val(pattern<T>(m, xk + 1)), y1, o2, s2);
      std::string d = first_difference(view_of(s1.link, vec), view_of(s2.link, vec));
      if (!d.empty()) mc::violation("product of length %d: the vector provider's view depends on the scalar: %s", n, d.c_str());
      // Outside of transfers the vector provider sends nothing that depends on y.
      run(x, y2, o3, s3);
      View a = view_of(s1.link, valp), b = view_of(s3.link, valp);
      View a0 = a, b0 = b;
      a0.got.clear();
      b0.got.clear();
      d = first_difference(a0, b0);
      if (!d.empty()) mc::violation("product of length %d: messages outside of the transfers depend on the vector: %s", n, d.c_str());
      size_t total = 0;
      MC_CHECK(s1.link.ots.size() == s3.link.ots.size(), "the number of transfers depends on the vector");
      for (size_t q = 0; q < s1.link.ots.size(); q++) {
        auto &p = s1.link.ots[q], &r = s3.link.ots[q];
        if (p.sender != vec) continue;
        for (size_t i = 0; i < p.m0.size(); i++) {
          total++;
          MC_CHECK(p.m0[i] == r.m0[i], "product of length %d: the first message of transfer %zu depends on the vector", n, i);
          auto u0 = unpack(p.m0[i]), u1 = unpack(p.m1[i]), w0 = unpack(r.m0[i]), w1 = unpack(r.m1[i]);
          for (int e = 0; e < stride; e++) {
            if (!p.correlated)
              MC_CHECK(val(mk<T>(u0[e])) == u0[e], "product of length %d: the first message of transfer %zu holds %s, which is no canonical value of the type", n, i, hex(u0[e]).c_str());
            MC_CHECK(val(mk<T>(u1[e])) == u1[e], "product of length %d: the second message of transfer %zu holds %s, which is no canonical value of the type", n, i, hex(u1[e]).c_str());
            // The second message is the first plus a multiple of the entry.
            MC_CHECK(val(mk<T>(w1[e])) == w1[e], "non-canonical second message");
          }
        }
      }
      // Masks are used once and vary in all bits: under several random sources,
      // no two transferred entries may always have the same mask.
      if (total && xk < 2) {
        u128 top = order_minus_1<T>(m);
        double per = 0;
        for (u128 t = top; t; t >>= 1) per++;
        if (top < 4) per = 1;
        int runs = std::max(2, (int)std::ceil(90 / std::max(1.0, per - 1)));
        std::vector<std::pair<std::vector<u128>, std::pair<size_t, int>>> sig;
        u128 any = 0, all = ~(u128)0;
        for (int r = 0; r < runs; r++) {
          Sess<T> sr(c, m);
          std::vector<T> orr[2];
          run(x, y1, orr, sr, 100 + r);
          size_t at = 0;
          for (auto& q : sr.link.ots) {
            if (q.sender != vec) continue;
            for (size_t i = 0; i < q.m0.size(); i++) {
              auto u0 = unpack(q.m0[i]);
              for (int e = 0; e < stride; e++) {
                if ((int64_t)(i / bits) * stride + e >= n) continue;
                u128 v = val(mk<T>(u0[e]));
                any |= v;
                all &= v;
                if (at == sig.size()) sig.push_back({{}, {i, e}});
                sig[at++].first.push_back(v);
              }
            }
          }
        }
        std::sort(sig.begin(), sig.end());
        for (size_t i = 0; i + 1 < sig.size(); i++)
          MC_CHECK(sig[i].first != sig[i + 1].first, "product of length %d: entry %d of transfer %zu and entry %d of transfer %zu have the same mask", n, sig[i].second.second,
                   sig[i].second.first, sig[i + 1].second.second, sig[i + 1].second.first);
        u128 low = 1;  // bits below the highest bit of the order
        while (low <= top / 2) low <<= 1;
        if (runs * sig.size() > 100) MC_CHECK((any & (low - 1)) == low - 1 && (all & (low - 1)) == 0, "product of length %d: the bits %s of the masks never vary", n, hex((low - 1) & ~(any & ~all)).c_str());
      }
      // Replaying with masks that absorb the change of the vector leaves the view
      // of the value provider as it was (where masks come from the transfer).
      bool corr = !s1.link.ots.empty() && s1.link.ots[0].correlated;
      bool exact = true;  // every string of the size is a value of the type
      if (is_mod<T>::value) exact = order_minus_1<T>(m) == (bits == 128 ? ~(u128)0 : ((u128)1 << bits) - 1);
      if (corr && exact && s1.link.ots.size() == 1) {
        auto &p = s1.link.ots[0], &r = s3.link.ots[0];
        std::vector<u128> adj(p.m0.size());
        for (size_t i = 0; i < adj.size(); i++) {
          if (!p.choices[i]) { adj[i] = p.m0[i]; continue; }
          auto p1 = unpack(p.m1[i]), r1 = unpack(r.m1[i]), z = unpack(p.m0[i]);
          u128 out = 0;
          for (int e = stride - 1; e >= 0; e--) {
            u128 v = val(sub(add(mk<T>(z[e]), mk<T>(p1[e])), mk<T>(r1[e])));
            out = bits == 128 ? v : (out << bits) | v;
          }
          adj[i] = out;
        }
        size_t pos = 0;
        mc::ot_rng_hook = [&](unsigned char* q, size_t len) {
          if (pos * 16 + len > adj.size() * 16) mc::violation("the amount of transfer randomness depends on the vector");
          memcpy(q, adj.data() + pos, len);
          pos += len / 16;
          return true;
        };
        Sess<T> s4(c, m);
        std::vector<T> o4[2];
        run(x, y2, o4, s4);
        mc::ot_rng_hook = nullptr;
        d = first_difference(a, view_of(s4.link, valp));
        if (!d.empty()) mc::violation("product of length %d: with another vector and masks adjusted the value provider's view differs: %s", n, d.c_str());
        n_swapped++;
      } else if (!corr && total) {
        // Uncorrelated transfers: the view is made of first messages (drawn
        // uniformly, see C06) and of second messages, which must be a first
        // message plus something that the mask does not determine.
        for (size_t q = 0; q < s1.link.ots.size(); q++) {
          auto &p = s1.link.ots[q], &r = s3.link.ots[q];
          for (size_t i = 0; i < p.m0.size(); i++) {
            if (i % bits && !(order_minus_1<T>(m) >> (i % bits))) continue;  // no scalar has this bit
            auto u0 = unpack(p.m0[i]), u1 = unpack(p.m1[i]), w1 = unpack(r.m1[i]);
            for (int e = 0; e < stride; e++) {
              int64_t at = (int64_t)(i / bits) * stride + e;
              if (at >= n) continue;
              T w = mul(mk<T>((u128)1 << (i % bits)), sub(y1[at], y2[at]));
              MC_CHECK(val(sub(mk<T>(u1[e]), mk<T>(w1[e]))) == val(w), "product of length %d: transfer %zu does not carry its entry of the vector under the mask of the first message", n, i);
            }
          }
        }
        n_swapped++;
      }
    }
}
// All outcomes of the mask for a small modulus with uncorrelated transfers are
// Where the masks are the transfer's own hash values, reduced modulo p, they are
// only almost uniform: over all masks of a call, their distances from uniform
// must not add up to more than 2^-s for the security s that was asked for.
static uint64_t n_reduced, n_drawn;
template <typename T, typename F>
static void reduced_masks(const char* what, int64_t n, double s, int maxk, F f) {
  for (int k : {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16})
    for (int e = -3; e <= 12; e++) {
      if (k > maxk) continue;
      int bits = 8 * k, stride = 16 / k;
      // 2^bits - c, where n * bits * c / 2^bits is about 2^-s.
      double lc = bits - s - std::log2((double)n * bits) + e * 0.75;
      if (lc < 0 || lc > 61 || lc > bits - 1.5) continue;
      Mod m{bits, -(long)std::exp2(lc)};
      if (m.add % 2 == 0) m.add++;
      if (!is_mod<T>::value || (std::is_same<T, NTL::zz_p>::value && mod_zz(m) >= NTL_SP_BOUND)) continue;
      std::string id = strf("%s %s length %ld security %g", full_name<T>(m).c_str(), what, (long)n, s);
      if (!take(id)) continue;
      Conf c;
      c.first = e & 1;
      c.measured = k & 1;
      Sess<T> se(c, m);
      mc::rng_reset(7);
      f(se, c, m);
      install<T>(m);
      int64_t masks = 0;
      bool corr = false;
      for (auto& o : se.link.ots) {
        if (o.kind != 'C') continue;
        corr = true;
        // Elements of the vector, at least: all but the last block are full.
        int64_t blocks = (int64_t)o.choices.size() / bits;
        masks += bits * ((blocks - 1) * stride + 1);
      }
      (corr ? n_reduced : n_drawn)++;
      double r = (double)-m.add, H = std::exp2(bits), dist = r / H * ((H - 2 * r) / (H - r)) * (double)masks * std::exp2(s);
      if (corr && dist > 1.02)
        mc::violation("%s: masks are hash values reduced modulo the modulus, but their distances from uniform add up to %g times 2^-%g", id.c_str(), dist, s);
      mc::report().evaluations++;
      mc::report().states++;
    }
}
template <typename T> static void reduced_masks_all() {
  for (int64_t n : {1, 2, 5, 16, 17, 100, 700, 4000})
    for (double s : {0.0, 1.0, 4.0, 10.0, 20.0, 40.0, 47.5, 60.0, 80.0}) {
      if (n > 100 && s > 20) continue;
      if (n > 1000 && s != 4) continue;
      // As the only product of an object, and after others.
      for (int v = 0; v < (n > 17 ? 1 : 4); v++)
        reduced_masks<T>(v == 0 ? "product" : v == 1 ? "product after a single one" : v == 2 ? "product after one of another type" : "product after a longer one", n, s, n > 1000 ? 4 : 16, [&](Sess<T>& se, const Conf& c, const Mod& m) {
          GilboaOp op;
          op.x = val(pattern<T>(m, n));
          for (auto& e : patterns<T>(m, n, n * 3)) op.y.push_back(val(e));
          std::vector<T> out[2];
          se.both([&](int party, mpc_utils::comm_channel& ch) {
            auto o = create<ScalarVectorGilboaProduct>(ch, s);
            int role = role_of(party, c.first, 0);
            if (v == 1 || v == 3) {
              GilboaOp before;
              before.x = 1;
              before.y.assign(v == 1 ? 1 : 2 * n + 40, 1);
              std::vector<T> o0;
              Gilboa<T>::run(*o, before, m, role, o0);
            } else if (v == 2) {
              GilboaOp before;
              before.x = 1;
              before.y = {1, 2};
              std::vector<uint8_t> o0;
              Gilboa<uint8_t>::run(*o, before, Mod{}, role, o0);
            }
            ch.sync();
            if (party == 0) se.link.ots.clear();
            ch.sync();
            Gilboa<T>::run(*o, op, m, role, out[role]);
          });
          Gilboa<T>::check(op, m, out);
        });
    }
}
// covered by C06 (the masks are drawn as random scalars).
int main(int argc, char** argv) {
  mc::init(argc, argv, "C22");
  spfss<a128>(Mod{});
  spfss<gf128>(Mod{});
  spfss<NTL::ZZ_p>(Mod{127, -1});
  if (mc::thorough()) spfss<NTL::ZZ_p>(Mod{61, -1});
  mpfss<a128>(Mod{});
  mpfss<gf128>(Mod{});
  mpfss<NTL::ZZ_p>(Mod{127, -1});
  for (double s : {0.0, 40.0}) {
    gilboa<uint8_t>(Mod{}, s);
    gilboa<uint16_t>(Mod{}, s);
    gilboa<uint32_t>(Mod{}, s);
    gilboa<uint64_t>(Mod{}, s);
    gilboa<a128>(Mod{}, s);
    gilboa<gf128>(Mod{}, s);
    for (Mod m : {Mod{128, 0}, Mod{8, 0}, Mod{8, 1}, Mod{1, 1}, Mod{16, 1}, Mod{61, -1}, Mod{64, 13}, Mod{127, -1}, Mod{128, -159}, Mod{80, -65}, Mod{24, 43}, Mod{17, -1}, Mod{24, -3}, Mod{40, 15}, Mod{48, -59}, Mod{56, -5}, Mod{72, -93}, Mod{96, -17}, Mod{100, 277}, Mod{112, -75}, Mod{127, 29}}) gilboa<NTL::ZZ_p>(m, s);
    for (Mod m : {Mod{8, 0}, Mod{16, 0}, Mod{1, 1}, Mod{30, -35}, Mod{59, -55}, Mod{8, 1}, Mod{16, 1}, Mod{24, -3}, Mod{32, 15}, Mod{50, -27}}) gilboa<NTL::zz_p>(m, s);
  }
  reduced_masks_all<NTL::ZZ_p>();
  reduced_masks_all<NTL::zz_p>();
  mc::count("reduced_masks", n_reduced);
  mc::count("drawn_masks", n_drawn);
  mc::count("adjusted_pairs", n_swapped);
  mc::count("pairs_not_applicable", n_skipped);
  mc::sample("lengths [1,0,3]: shares of all vectors changed, hidden leaves adjusted, view unchanged");
  mc::finish(n_skipped == 0);
}
#endif
