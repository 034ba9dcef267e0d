// C01 arithmetic, C02 inversion/generator, C03 representation of GF(2^128).
// Reference model: polynomials over GF(2) as 128-bit integers, one bit at a time.
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include "absl/hash/hash.h"
#include "boost/archive/binary_iarchive.hpp"
#include "boost/archive/binary_oarchive.hpp"
#include "boost/archive/text_iarchive.hpp"
#include "boost/archive/text_oarchive.hpp"
#include "distributed_vector_ole/gf128.h"
#include "mc/core.h"
using distributed_vector_ole::gf128;
typedef unsigned __int128 u128;

static u128 xtime(u128 a) { return (a << 1) ^ ((a >> 127) ? (u128)0x87 : 0); }
static u128 ref_mul(u128 a, u128 b) {
  u128 r = 0;
  for (int i = 127; i >= 0; i--) {
    r = xtime(r);
    r ^= (u128)(-(__int128)((b >> i) & 1)) & a;
  }
  return r;
}
static u128 ref_pow(u128 a, u128 e) {
  u128 r = 1;
  for (int i = 127; i >= 0; i--) {
    r = ref_mul(r, r);
    if ((e >> i) & 1) r = ref_mul(r, a);
  }
  return r;
}
static gf128 G(u128 x) { return gf128((uint64_t)(x >> 64), (uint64_t)x); }
static u128 U(const gf128& g) {
  absl::uint128 v = static_cast<absl::uint128>(g);
  return ((u128)absl::Uint128High64(v) << 64) | absl::Uint128Low64(v);
}
static std::string hex(u128 x) {
  return mc::strf("%016lx%016lx", (unsigned long)(x >> 64), (unsigned long)x);
}

static std::vector<u128> weight2() {
  std::vector<u128> v{0};
  for (int i = 0; i < 128; i++) v.push_back((u128)1 << i);
  for (int i = 0; i < 128; i++)
    for (int j = 0; j < i; j++) v.push_back(((u128)1 << i) | ((u128)1 << j));
  return v;
}
static std::vector<u128> intervals() {
  std::vector<u128> v;
  for (int i = 0; i < 128; i++)
    for (int j = i; j < 128; j++) {
      u128 hi = j == 127 ? ~(u128)0 : (((u128)1 << (j + 1)) - 1);
      v.push_back(hi ^ (((u128)1 << i) - 1));
    }
  return v;
}
static std::vector<u128> onebyte() {
  std::vector<u128> v;
  for (int p = 0; p < 16; p++)
    for (int b = 1; b < 256; b++) v.push_back((u128)b << (8 * p));
  return v;
}
static std::vector<uint64_t> limbs() {
  std::vector<uint64_t> l{0, 1, 2, 3, 0x86, 0x87, 0x43, 0xe1, 0x7f, 0x80, 0xff, 0x100, ~0ull, ~0ull - 1, ~0ull >> 1,
                          1ull << 63, 3ull << 62, 0xe1ull << 56, 0xfeull << 56, 0x7full << 57, 0x87ull << 56,
                          0xffffffffull, 0xffffffff00000000ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull,
                          0x0123456789abcdefull, 0xfedcba9876543210ull, 1ull << 32, 1ull << 31, 0x8000000000000001ull};
  mc::Rnd r(42);
  while (l.size() < 40) l.push_back(r.next());
  return l;
}
static std::vector<u128> limbpairs() {
  std::vector<u128> v;
  for (uint64_t h : limbs()) for (uint64_t l : limbs()) v.push_back(((u128)h << 64) | l);
  return v;
}
static std::vector<u128> dense(size_t n) {
  std::vector<u128> v;
  mc::Rnd r(mc::report().seed * 977 + 5);
  for (size_t i = 0; i < n; i++) { u128 h = r.next(); v.push_back((h << 64) | r.next()); }
  return v;
}

#if PROP == 1
static void pair_check(const char* fam, u128 a, u128 b) {
  u128 want = ref_mul(a, b);
  gf128 x = G(a), y = G(b);
  gf128 z = x * y;
  if (__builtin_expect(U(z) != want, 0)) {
    mc::set_case(std::string("pair ") + fam + " " + hex(a) + " " + hex(b));
    mc::violation("%s * %s = %s, expected %s", hex(a).c_str(), hex(b).c_str(), hex(U(z)).c_str(), hex(want).c_str());
  }
}
static void full_check(const char* fam, u128 a, u128 b) {
  std::string id = std::string("ops ") + fam + " " + hex(a) + " " + hex(b);
  auto bad = [&](const char* op, u128 got, u128 exp) {
    mc::set_case(id);
    mc::violation("%s of %s and %s gives %s, expected %s", op, hex(a).c_str(), hex(b).c_str(), hex(got).c_str(),
                  hex(exp).c_str());
  };
  u128 p = ref_mul(a, b), s = a ^ b;
  gf128 x = G(a), y = G(b);
#define EXPECT(op, expr, exp) do { u128 g_ = U(expr); if (g_ != (exp)) bad(op, g_, exp); } while (0)
  EXPECT("x*y", x * y, p);
  EXPECT("x+y", x + y, s);
  EXPECT("x-y", x - y, s);
  EXPECT("-x", -x, a);
  EXPECT("x+(-x)", x + (-x), 0);
  EXPECT("x.squared()", x.squared(), ref_mul(a, a));
  EXPECT("operand x afterwards", x, a);
  EXPECT("operand y afterwards", y, b);
  { gf128 t = x; gf128& r = (t *= y); if (&r != &t) bad("address of (x*=y)", 0, 1); EXPECT("x*=y", t, p); EXPECT("y after x*=y", y, b); }
  { gf128 t = x; gf128& r = (t += y); if (&r != &t) bad("address of (x+=y)", 0, 1); EXPECT("x+=y", t, s); }
  { gf128 t = x; gf128& r = (t -= y); if (&r != &t) bad("address of (x-=y)", 0, 1); EXPECT("x-=y", t, s); }
  { gf128 t = x; t *= t; EXPECT("x*=x", t, ref_mul(a, a)); }
  { gf128 t = x; t.square(); EXPECT("x.square()", t, ref_mul(a, a)); }
  { gf128 t = x; t += t; EXPECT("x+=x", t, 0); }
  { gf128 t = x; t -= t; EXPECT("x-=x", t, 0); }
  { gf128 t = x; t *= y; t += x; t *= t; EXPECT("((x*y)+x)^2", t, ref_mul(p ^ a, p ^ a)); }
  // At every alignment the type allows.
  { alignas(16) unsigned char buf[64]; gf128* q = new (buf + 8) gf128(x); gf128* w = new (buf + 24) gf128(y);
    *q *= *w; EXPECT("x*=y on 8-byte aligned objects", *q, p); EXPECT("neighbour", *w, b); }
}
static void product(const char* name, const std::vector<u128>& A, const std::vector<u128>& B) {
  uint64_t n = 0;
  for (size_t i = 0; i < A.size(); i++) {
    if (!mc::shard_owns(i)) continue;
    if (!mc::want(mc::strf("%s row %zu", name, i)) ) continue;
    for (u128 b : B) pair_check(name, A[i], b);
    n += B.size();
  }
  mc::report().evaluations += n;
  mc::report().states += n;
  mc::report().transitions += n;
  mc::report().nontrivial += n;
  mc::count(name, n);
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C01");
  auto w2 = weight2();
  auto iv = intervals();
  auto lp = limbpairs();
  auto ob = onebyte();
  auto de = dense(mc::thorough() ? 20000 : 2000);
  std::vector<u128> basis(w2.begin(), w2.begin() + 129);
#ifndef __SANITIZE_ADDRESS__
  product("weight<=2 x weight<=2", w2, w2);
  product("byte x byte", ob, ob);
  product("limb patterns x limb patterns", lp, lp);
  product("dense x basis", de, basis);
  // Operands whose words are related: equal, swapped, complements, sums.
  for (size_t i = 0; i < lp.size(); i++) {
    if (!mc::shard_owns(i) || !mc::want(mc::strf("related words row %zu", i))) continue;
    uint64_t h = (uint64_t)(lp[i] >> 64), l = (uint64_t)lp[i];
    uint64_t w[] = {0, 1, ~0ull, h, l, h ^ l, ~h, ~l, ~(h ^ l), h + l, h - l, l - h, __builtin_bswap64(h), __builtin_bswap64(l), h << 1, l << 1, h >> 1, l >> 1, h & l, h | l};
    for (uint64_t c : w) for (uint64_t d : w) pair_check("related words", lp[i], ((u128)c << 64) | d);
    mc::report().evaluations += 400;
    mc::report().states += 400;
    mc::count("related words", 400);
  }
  product("basis x dense", basis, de);
  if (mc::thorough()) {
    product("interval x interval", iv, iv);
    product("dense x interval", de, iv);
    product("dense x dense", de, std::vector<u128>(de.begin(), de.begin() + 2000));
  } else {
    std::vector<u128> iv8;
    for (size_t i = 0; i < iv.size(); i += 5) iv8.push_back(iv[i]);
    product("interval x interval", iv, iv8);
  }
  std::vector<u128> near;
#else
  product("basis x basis", basis, basis);
#endif
  // All operators, aliasing and operand preservation.
  std::vector<u128> S(basis);
  for (size_t i = 0; i < lp.size(); i += 7) S.push_back(lp[i]);
  for (size_t i = 0; i < iv.size(); i += 97) S.push_back(iv[i]);
  for (size_t i = 0; i < 60; i++) S.push_back(de[i]);
  for (size_t i = 0; i < S.size(); i++) {
    if (!mc::shard_owns(i)) continue;
    if (!mc::want(mc::strf("operators row %zu", i))) continue;
    for (u128 b : S) full_check("operators", S[i], b);
    for (int k = 0; k < 128; k++) full_check("near-equal operands", S[i], S[i] ^ ((u128)1 << k));
    mc::report().evaluations += S.size() + 128;
    mc::report().states += S.size() + 128;
    mc::report().transitions += 16 * (S.size() + 128);
    mc::report().nontrivial += S.size() + 128;
    mc::count("operator tuples", S.size() + 128);
  }
  auto single = [](const std::string& c) {
    unsigned long ah, al, bh, bl;
    size_t p = c.size();
    if (p < 66) return false;
    std::string a = c.substr(p - 65, 32), b = c.substr(p - 32);
    if (sscanf(a.c_str(), "%16lx%16lx", &ah, &al) != 2 || sscanf(b.c_str(), "%16lx%16lx", &bh, &bl) != 2) return false;
    full_check("replay", ((u128)ah << 64) | al, ((u128)bh << 64) | bl);
    return true;
  };
  if (mc::replaying())
    for (int i = 1; i + 1 < argc; i++)
      if (std::string(argv[i]) == "--only" && (!strncmp(argv[i + 1], "pair ", 5) || !strncmp(argv[i + 1], "ops ", 4)))
        single(argv[i + 1]);
  mc::sample("weight<=2: x^127 * (x^126+x^3) = " + hex(ref_mul((u128)1 << 127, ((u128)1 << 126) | 8)));
  mc::sample("dense: " + hex(de[0]) + " * " + hex(de[1]) + " = " + hex(ref_mul(de[0], de[1])));
  mc::finish();
}
#elif PROP == 2
int main(int argc, char** argv) {
  mc::init(argc, argv, "C02");
  std::vector<u128> S = weight2();
  for (auto& v : {intervals(), limbpairs(), onebyte(), dense(mc::thorough() ? 200000 : 10000)})
    S.insert(S.end(), v.begin(), v.end());
  // Elements of small multiplicative order and of subfields: x^((2^128-1)/p).
  const u128 N = ~(u128)0;
  const uint64_t primes[] = {3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721ull};
  u128 prod = 1;
  for (uint64_t p : primes) prod *= p;
  MC_CHECK(prod == N, "internal: wrong factorisation");
  std::vector<u128> roots;
  for (uint64_t p : primes) {
    u128 z = ref_pow(2, N / p), t = 1;
    for (int i = 0; i < (p < 700 ? (int)p : 64); i++) { roots.push_back(t); t = ref_mul(t, z); }
  }
  S.insert(S.end(), roots.begin(), roots.end());
  std::unordered_set<uint64_t> seen;
  size_t chunk = 256;
  for (size_t c = 0; c * chunk < S.size(); c++) {
    if (!mc::shard_owns(c) || !mc::want(mc::strf("inverse block %zu", c))) continue;
    for (size_t i = c * chunk; i < std::min(S.size(), (c + 1) * chunk); i++) {
      u128 a = S[i];
      gf128 x = G(a);
      const gf128& cx = x;
      gf128 y = cx.inverse();
      if (U(x) != a) mc::violation("inverse() changed its operand %s", hex(a).c_str());
      if (a == 0) {
        if (U(y) != 0) mc::violation("inverse of zero is %s", hex(U(y)).c_str());
      } else {
        if (ref_mul(a, U(y)) != 1) mc::violation("%s * inverse = %s", hex(a).c_str(), hex(ref_mul(a, U(y))).c_str());
        if (U(x * y) != 1) mc::violation("x * x.inverse() != one() for %s", hex(a).c_str());
        if (U(y.inverse()) != a) mc::violation("inverse of the inverse of %s is %s", hex(a).c_str(), hex(U(y.inverse())).c_str());
      }
      mc::report().evaluations++;
      mc::report().states++;
      mc::report().transitions += 2;
      if (a > 1) mc::report().nontrivial++;
    }
  }
  // Sequences: all pairs of elements one after the other (and the first one
  // again), among them pairs that share a word or differ in a single bit.
  {
    std::vector<u128> Q;
    for (uint64_t h : {0ull, 1ull, 2ull, 3ull, 0x87ull, 1ull << 32, 1ull << 63, ~0ull, 0x0123456789abcdefull})
      for (uint64_t l : {0ull, 1ull, 2ull, 3ull, 0x87ull, 1ull << 32, 1ull << 63, ~0ull, 0x0123456789abcdefull}) Q.push_back(((u128)h << 64) | l);
    if (mc::thorough()) for (u128 x : dense(160)) { Q.push_back(x); Q.push_back(x ^ ((u128)1 << 127)); Q.push_back(x ^ 1); }
    for (size_t i = 0; i < Q.size(); i++) {
      if (!mc::shard_owns(i) || !mc::want(mc::strf("inverses after one another %zu", i))) continue;
      for (u128 b : Q)
        for (u128 x : {Q[i], b, Q[i]}) {
          u128 y = U(G(x).inverse());
          if (x == 0 ? y != 0 : ref_mul(x, y) != 1) mc::violation("inverse of %s is %s after inverting %s and %s", hex(x).c_str(), hex(y).c_str(), hex(Q[i]).c_str(), hex(b).c_str());
          mc::report().evaluations++;
          mc::report().transitions++;
        }
    }
  }
  if (mc::shard_owns(0) && mc::want("constants")) {
    MC_CHECK(U(gf128::zero()) == 0 && gf128::zero().is_zero(), "zero() is not zero");
    MC_CHECK(U(gf128::one()) == 1 && !gf128::one().is_zero(), "one() is not one");
    MC_CHECK(gf128::extension_degree() == 128, "extension degree");
    u128 g = U(gf128::multiplicative_generator);
    MC_CHECK(g != 0, "generator is zero");
    for (uint64_t p : primes) {
      u128 t = ref_pow(g, N / p);
      MC_CHECK(t != 1, "the generator %s has order dividing (2^128-1)/%lu", hex(g).c_str(), (unsigned long)p);
      // The same power computed with the implementation.
      gf128 r = gf128::one(), b = gf128::multiplicative_generator;
      u128 e = N / p;
      for (int i = 127; i >= 0; i--) { r.square(); if ((e >> i) & 1) r *= b; }
      MC_CHECK(U(r) == t, "generator power differs from the reference for prime %lu", (unsigned long)p);
      mc::report().evaluations++;
      mc::report().transitions += 256;
    }
    MC_CHECK(U(gf128::multiplicative_generator) == g, "the generator changed");
  }
  mc::sample("inverse of x^127+1 checked: product with reference multiplication is 1");
  mc::sample("generator order tested against the 9 prime factors of 2^128-1");
  mc::finish();
}
#elif PROP == 3
template <class OA, class IA>
static u128 roundtrip(u128 a, u128 start) {
  std::stringstream ss;
  { OA oa(ss); const gf128 g = G(a); oa << g; }
  gf128 h = G(start);
  { IA ia(ss); ia >> h; }
  return U(h);
}
static std::string print(const gf128& g) { std::ostringstream os; os << g; return os.str(); }
int main(int argc, char** argv) {
  mc::init(argc, argv, "C03");
  std::vector<u128> S = weight2();
  for (auto& v : {intervals(), limbpairs(), onebyte(), dense(mc::thorough() ? 200000 : 4000)})
    S.insert(S.end(), v.begin(), v.end());
  std::unordered_map<std::string, size_t> printed;
  absl::Hash<gf128> H;
  size_t chunk = 256;
  for (size_t c = 0; c * chunk < S.size(); c++) {
    if (!mc::shard_owns(c) || !mc::want(mc::strf("representation block %zu", c))) continue;
    for (size_t i = c * chunk; i < std::min(S.size(), (c + 1) * chunk); i++) {
      u128 a = S[i];
      uint64_t hi = (uint64_t)(a >> 64), lo = (uint64_t)a;
      gf128 g(hi, lo);
      absl::uint128 v = absl::MakeUint128(hi, lo);
      gf128 g2(v);
      MC_CHECK(static_cast<absl::uint128>(g) == v, "conversion to an integer of gf128(high,low) for %s", hex(a).c_str());
      MC_CHECK(static_cast<absl::uint128>(g2) == v, "integer round trip of %s gives %s", hex(a).c_str(), hex(U(g2)).c_str());
      MC_CHECK(g == g2 && !(g != g2), "equal elements compare unequal: %s", hex(a).c_str());
      auto w = g.as_words();
      MC_CHECK(w.size() == 2 && w[0] == lo && w[1] == hi, "as_words of %s", hex(a).c_str());
      MC_CHECK(g.is_zero() == (a == 0), "is_zero of %s", hex(a).c_str());
      gf128 l(lo);
      MC_CHECK(U(l) == lo, "gf128(low word) of %016lx is %s", (unsigned long)lo, hex(U(l)).c_str());
      MC_CHECK((roundtrip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(a, ~a) == a),
               "binary serialization round trip of %s", hex(a).c_str());
      MC_CHECK((roundtrip<boost::archive::text_oarchive, boost::archive::text_iarchive>(a, ~a) == a),
               "text serialization round trip of %s", hex(a).c_str());
      MC_CHECK(H(g) == H(g2), "equal elements hash differently: %s", hex(a).c_str());
      std::ostringstream want;
      want << v;
      std::string p = print(g);
      MC_CHECK(p.find(want.str()) != std::string::npos, "printed form %s of %s does not show its value", p.c_str(), hex(a).c_str());
      if (i % 16 < 4) {
        // In the base and with the flags that are set, and without changing them.
        std::ostringstream o1, o2;
        auto set = [&](std::ostream& o) { if (i % 2) o << std::showbase; if (i % 4 > 1) o << std::uppercase; o << std::hex; };
        set(o1);
        set(o2);
        o1 << g;
        o2 << v;
        MC_CHECK(o1.str().find(o2.str()) != std::string::npos, "printed in hexadecimal, %s of %s does not show its value", o1.str().c_str(), hex(a).c_str());
        MC_CHECK(o1.flags() == o2.flags() && o1.fill() == o2.fill(), "printing %s changes the stream's format", hex(a).c_str());
      }
      gf128 cp(g), as;
      as = g;
      MC_CHECK(cp == g && as == g, "copy differs: %s", hex(a).c_str());
      // Every single-bit neighbour is a different element.
      for (int k = 0; k < 128; k++) {
        gf128 n = G(a ^ ((u128)1 << k));
        MC_CHECK(!(g == n) && g != n, "%s equals its neighbour at bit %d", hex(a).c_str(), k);
        if (i < 300) MC_CHECK(H(g) != H(n), "%s and its neighbour at bit %d hash alike", hex(a).c_str(), k);
      }
      mc::report().evaluations++;
      mc::report().states++;
      mc::report().transitions += 10 + 128;
      if (a > 1) mc::report().nontrivial++;
    }
  }
  // Word swaps and same-word elements are told apart.
  auto L = limbs();
  if (mc::shard_owns(1) && mc::want("equality over limb pairs"))
    for (uint64_t h : L) for (uint64_t l : L) for (uint64_t h2 : L) for (uint64_t l2 : L) {
      bool same = h == h2 && l == l2;
      gf128 x(h, l), y(h2, l2);
      MC_CHECK((x == y) == same && (x != y) == !same, "equality of %016lx%016lx and %016lx%016lx", (unsigned long)h, (unsigned long)l, (unsigned long)h2, (unsigned long)l2);
      if (!same && h != h2) MC_CHECK(H(x) != H(y) || h == l2, "hash collision of unequal pattern elements");
      mc::report().evaluations++;
    }
  if (mc::shard_owns(2) && mc::want("default construction")) {
    gf128 z;
    MC_CHECK(U(z) == 0 && z.is_zero(), "default-constructed element is not zero");
    std::vector<gf128> v(100);
    for (auto& e : v) MC_CHECK(U(e) == 0, "default element in a vector is not zero");
  }
  // Random elements: each of the 128 bits follows its own random bit.
  if (mc::shard_owns(3) && mc::want("random elements")) {
    std::string feed(16, 0);
    size_t asked = 0;
    bool longer = false;
    mc::rng_hook = [&](unsigned char* p, size_t n) {
      for (size_t i = 0; i < n; i++) { p[i] = asked < 16 ? feed[asked] : 0; asked++; }
      return true;
    };
    auto draw = [&](const std::string& f, bool member) {
      feed = f;
      asked = 0;
      gf128 r = gf128::one();
      if (member) r.randomize(); else r = gf128::random_element();
      if (asked > 16) longer = true;
      MC_CHECK(asked >= 16, "a random element uses only %zu random bytes", asked);
      return U(r);
    };
    for (int member = 0; member < 2; member++) {
      u128 base = draw(std::string(16, 0), member);
      std::vector<u128> col;
      for (int k = 0; k < 128; k++) {
        std::string f(16, 0);
        f[k / 8] = (char)(1 << (k % 8));
        col.push_back(draw(f, member) ^ base);
        mc::report().evaluations++;
      }
      // The 128x128 matrix over GF(2) must be invertible, and the map affine.
      auto m = col;
      int rank = 0;
      for (int bit = 0; bit < 128; bit++) {
        int piv = -1;
        for (int r = rank; r < 128; r++) if ((m[r] >> bit) & 1) { piv = r; break; }
        if (piv < 0) continue;
        std::swap(m[piv], m[rank]);
        for (int r = 0; r < 128; r++) if (r != rank && ((m[r] >> bit) & 1)) m[r] ^= m[rank];
        rank++;
      }
      MC_CHECK(rank == 128, "random elements span only %d of 128 dimensions of the randomness", rank);
      mc::Rnd rr(7);
      for (int t = 0; t < 2000; t++) {
        std::string f(16, 0);
        u128 exp = base;
        for (int k = 0; k < 128; k++) if (rr.next() & 1) { f[k / 8] |= (char)(1 << (k % 8)); exp ^= col[k]; }
        MC_CHECK(draw(f, member) == exp, "random element is not an affine function of its random bytes");
        mc::report().evaluations++;
      }
    }
    mc::rng_hook = nullptr;
  }
  mc::sample("gf128(5,7) <-> integer, words, binary and text archives, printed form, hash, 128 neighbours");
  mc::finish();
}
#endif
