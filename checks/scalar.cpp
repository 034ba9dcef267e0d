// C04 encodings, C05 modulus histories, C06 sampling, C07 uniform reduction.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <sstream>

#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "mc/core.h"
using namespace distributed_vector_ole;
using mc::strf;
typedef unsigned __int128 u128;
static absl::uint128 A(u128 x) { return absl::MakeUint128((uint64_t)(x >> 64), (uint64_t)x); }
static u128 U(absl::uint128 x) { return ((u128)absl::Uint128High64(x) << 64) | absl::Uint128Low64(x); }
static std::string hex(u128 x) { return strf("%lx:%016lx", (unsigned long)(x >> 64), (unsigned long)x); }
static NTL::ZZ Z(u128 x) {
  NTL::ZZ r = NTL::conv<NTL::ZZ>((unsigned long)(x >> 64));
  r <<= 64;
  r += NTL::conv<NTL::ZZ>((unsigned long)x);
  return r;
}
static u128 z2u(const NTL::ZZ& z) {
  unsigned char b[16] = {0};
  NTL::BytesFromZZ(b, z, 16);
  u128 r = 0;
  for (int i = 15; i >= 0; i--) r = (r << 8) | b[i];
  return r;
}
static std::string dec(const NTL::ZZ& z) { std::ostringstream o; o << z; return o.str(); }

// Patterns that meet every byte, limb and carry boundary.
static std::vector<u128> patterns() {
  std::vector<u128> v;
  for (int k = 0; k <= 128; k++) {
    u128 p = k == 128 ? 0 : (u128)1 << k;
    v.push_back(p);
    v.push_back(p - 1);
    v.push_back(p + 1);
    v.push_back(~p);
  }
  for (int p = 0; p < 16; p++)
    for (int b : {1, 2, 0x55, 0x7f, 0x80, 0xaa, 0xff}) v.push_back((u128)b << (8 * p));
  uint64_t limb[] = {0, 1, ~0ull, 1ull << 63, ~0ull >> 1, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0xffffffffull, 1ull << 32};
  for (uint64_t h : limb) for (uint64_t l : limb) v.push_back(((u128)h << 64) | l);
  mc::Rnd r(99);
  for (int i = 0; i < 16; i++) { u128 h = r.next(); v.push_back((h << 64) | r.next()); }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
// Moduli: all small ones, and those around every power of two.
static std::vector<NTL::ZZ> big_moduli(int maxbits, int small) {
  std::set<std::string> seen;
  std::vector<NTL::ZZ> v;
  auto add = [&](const NTL::ZZ& m) {
    if (m < 2 || m > (NTL::ZZ(1) << maxbits)) return;
    if (seen.insert(dec(m)).second) v.push_back(m);
  };
  for (int m = 2; m <= small; m++) add(NTL::ZZ(m));
  for (int k = 2; k <= maxbits; k++)
    for (int d : {-19, -3, -2, -1, 0, 1, 2, 3, 5}) add((NTL::ZZ(1) << k) + d);
  for (int k = 2; k < maxbits; k++) { add((NTL::ZZ(3) << k) / 2 + 1); add((NTL::ZZ(1) << maxbits) / 3 >> k); }
  return v;
}
static int bytes_for(const NTL::ZZ& modulus) { return (NTL::NumBits(modulus - 1) + 7) / 8; }

#if PROP == 4
template <typename T>
static u128 reduced(u128 x) { return sizeof(T) == 16 ? x : x & (((u128)1 << (8 * (sizeof(T) % 16))) - 1); }
template <typename T>
static T mulbit(bool b, T w) { return b ? w : T(0); }
template <typename T>
static void common(const char* ty, const std::string& mod, const T& x, u128 expect, int size) {
  typedef ScalarHelper<T> H;
  u128 u = U(H::ToUint128(x));
  if (u != expect) { mc::set_case(strf("value %s %s %s", ty, mod.c_str(), hex(expect).c_str())); mc::violation("%s: ToUint128 gives %s, expected %s", ty, hex(u).c_str(), hex(expect).c_str()); }
  T back = H::FromUint128(A(u));
  if (!(back == x)) { mc::set_case(strf("value %s %s %s", ty, mod.c_str(), hex(expect).c_str())); mc::violation("%s modulus %s: %s does not survive conversion to 128 bits and back", ty, mod.c_str(), hex(expect).c_str()); }
  T sum = T(0);
  for (int k = 0; k < 8 * size; k++)
    if (H::GetBit(x, k)) sum = T(sum + H::SetBit(k));
  if (!(sum == x)) { mc::set_case(strf("value %s %s %s", ty, mod.c_str(), hex(expect).c_str())); mc::violation("%s modulus %s: the bits of %s add up to %s", ty, mod.c_str(), hex(expect).c_str(), hex(U(H::ToUint128(sum))).c_str()); }
  if (size < 16 && (u >> (8 * size)) != 0) { mc::set_case(strf("value %s %s %s", ty, mod.c_str(), hex(expect).c_str())); mc::violation("%s: value does not fit the reported size %d", ty, size); }
  mc::report().evaluations++;
  mc::report().transitions += 3 + 8 * size;
}
template <typename T>
static void ints(const char* ty, const std::vector<u128>& pats) {
  if (!mc::want(strf("type %s", ty))) return;
  typedef ScalarHelper<T> H;
  int size = H::SizeOf();
  MC_CHECK(size == (int)sizeof(T), "%s: reported size %d, needed %d", ty, size, (int)sizeof(T));
  if (sizeof(T) <= 2) {
    for (unsigned x = 0; x < (1u << (8 * (sizeof(T) % 4))); x++) { common<T>(ty, "-", T(x), x, size); mc::report().states++; }
  }
  for (u128 p : pats) {
    u128 e = reduced<T>(p);
    T x = H::FromUint128(A(p));
    MC_CHECK(U(H::ToUint128(x)) == e, "%s: FromUint128(%s) gives %s, expected %s", ty, hex(p).c_str(), hex(U(H::ToUint128(x))).c_str(), hex(e).c_str());
    T direct;
    if (sizeof(T) == 16) direct = H::FromUint128(A(e)); else { uint64_t lo = (uint64_t)e; memcpy(&direct, &lo, sizeof(T)); }
    MC_CHECK(x == direct, "%s: FromUint128(%s) is not %s", ty, hex(p).c_str(), hex(e).c_str());
    common<T>(ty, "-", x, e, size);
    mc::report().states++;
  }
}
template <typename T, typename Conv, typename Rep>
static void modular(const char* ty, const NTL::ZZ& m, const std::vector<u128>& pats, Conv conv, Rep rep) {
  typedef ScalarHelper<T> H;
  std::string ms = dec(m);
  if (!mc::want(strf("modulus %s %s", ty, ms.c_str()))) return;
  int size = H::SizeOf(), need = bytes_for(m);
  MC_CHECK(size == need, "%s modulus %s: reported size %d bytes, needed %d", ty, ms.c_str(), size, need);
  NTL::ZZ top = m - 1;
  if (m <= 300) {
    for (long x = 0; x < NTL::conv<long>(m); x++) common<T>(ty, ms, conv(NTL::ZZ(x)), x, size);
  } else {
    for (int d = 0; d < 4; d++) { common<T>(ty, ms, conv(top - d), z2u(top - d), size); }
    common<T>(ty, ms, conv(m / 2), z2u(m / 2), size);
  }
  for (u128 p : pats) {
    T x = H::FromUint128(A(p));
    NTL::ZZ want = Z(p) % m;
    if (rep(x) != want) { mc::violation("%s modulus %s: FromUint128(%s) gives %s, expected %s", ty, ms.c_str(), hex(p).c_str(), dec(rep(x)).c_str(), dec(want).c_str()); }
    if (m <= 300) { mc::report().evaluations++; continue; }
    common<T>(ty, ms, x, z2u(want), size);
  }
  mc::report().states++;
}
static void gf(const std::vector<u128>& pats) {
  if (!mc::want("type gf128")) return;
  typedef ScalarHelper<gf128> H;
  MC_CHECK(H::SizeOf() == 16, "gf128: reported size %d", H::SizeOf());
  for (u128 p : pats) {
    gf128 x((uint64_t)(p >> 64), (uint64_t)p);
    MC_CHECK(U(H::ToUint128(x)) == p && H::FromUint128(A(p)) == x, "gf128 %s: conversion differs", hex(p).c_str());
    gf128 sum(0);
    for (int k = 0; k < 128; k++) if (H::GetBit(x, k)) sum += H::SetBit(k);
    MC_CHECK(sum == x, "gf128: the bits of %s do not add up to it", hex(p).c_str());
    mc::report().evaluations++;
    mc::report().states++;
    mc::report().transitions += 131;
  }
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C04");
  std::vector<u128> pats = patterns();
  uint64_t n = 0;
  if (mc::shard_owns(n++)) ints<uint8_t>("uint8", pats);
  if (mc::shard_owns(n++)) ints<uint16_t>("uint16", pats);
  if (mc::shard_owns(n++)) ints<uint32_t>("uint32", pats);
  if (mc::shard_owns(n++)) ints<uint64_t>("uint64", pats);
  if (mc::shard_owns(n++)) ints<absl::uint128>("uint128", pats);
  if (mc::shard_owns(n++)) gf(pats);
  for (const NTL::ZZ& m : big_moduli(128, mc::thorough() ? 5000 : 520)) {
    if (!mc::shard_owns(n++)) continue;
    NTL::ZZ_p::init(m);
    modular<NTL::ZZ_p>("ZZ_p", m, pats, [](const NTL::ZZ& z) { return NTL::conv<NTL::ZZ_p>(z); }, [](const NTL::ZZ_p& x) { return NTL::rep(x); });
    if (m < NTL_SP_BOUND) {
      NTL::zz_p::init(NTL::conv<long>(m));
      modular<NTL::zz_p>("zz_p", m, pats, [](const NTL::ZZ& z) { return NTL::conv<NTL::zz_p>(NTL::conv<long>(z)); }, [](const NTL::zz_p& x) { return NTL::ZZ(NTL::rep(x)); });
    }
  }
  mc::sample("ZZ_p modulus 2^128: FromUint128(2^127+1) and back");
  mc::finish();
}
#endif

#if PROP == 5
// One thread's installed modulus per type is modelled by a number; every query
// is compared with what that modulus demands.
static NTL::ZZ modulus(int i, bool small) {
  switch (i) {
    case 0: return NTL::ZZ(7);
    case 1: return NTL::ZZ(257);
    default: return small ? (NTL::ZZ(1) << 59) - 55 : (NTL::ZZ(1) << 127) - 1;
  }
}
struct Model { int zz = -1, ZZ = -1; int szz = -1, sZZ = -1; };
// Alphabet: 0-2 install ZZ_p; 3 save; 4 restore; 5 query; 6 push (switch to 1 in a scope and query); 7-8 install zz_p; 9 query bits
static const int kOps = 10;
struct ThreadState {
  Model m;
  NTLContext<NTL::ZZ_p> c;
  NTLContext<NTL::zz_p> c2;
};
template <typename T, typename C>
static void query(const char* ty, const NTL::ZZ& m, C rep) {
  typedef ScalarHelper<T> H;
  int s = H::SizeOf();
  MC_CHECK(s == bytes_for(m), "%s: size %d reported while modulus %s is installed (needs %d)", ty, s, dec(m).c_str(), bytes_for(m));
  MC_CHECK(NTLNumBits<T>() == NTL::NumBits(m - 1), "%s: %d bits reported while modulus %s is installed", ty, NTLNumBits<T>(), dec(m).c_str());
  for (u128 p : {((u128)0x0123456789abcdefull << 64) | 0xfedcba9876543210ull, ~(u128)0, (u128)5, (u128)1 << 64}) {
    NTL::ZZ want = Z(p) % m;
    T x = H::FromUint128(A(p));
    NTL::ZZ got = rep(x);
    MC_CHECK(got == want, "%s modulus %s: FromUint128(%s) gives %s, expected %s", ty, dec(m).c_str(), hex(p).c_str(), dec(got).c_str(), dec(want).c_str());
    u128 b = U(H::ToUint128(x));
    MC_CHECK(b == z2u(want), "%s modulus %s: ToUint128 of %s gives %s", ty, dec(m).c_str(), dec(want).c_str(), hex(b).c_str());
  }
}
static void step(ThreadState& t, int op) {
  auto repZ = [](const NTL::ZZ_p& x) { return NTL::rep(x); };
  auto repz = [](const NTL::zz_p& x) { return NTL::ZZ(NTL::rep(x)); };
#ifndef MC_RACE
  mc::report().transitions++;
#endif
  switch (op) {
    case 0: case 1: case 2: NTL::ZZ_p::init(modulus(op, false)); t.m.ZZ = op; break;
    case 3: if (t.m.ZZ >= 0) { t.c.save(); t.m.sZZ = t.m.ZZ; } if (t.m.zz >= 0) { t.c2.save(); t.m.szz = t.m.zz; } break;
    case 4: if (t.m.sZZ >= 0) { t.c.restore(); t.m.ZZ = t.m.sZZ; } if (t.m.szz >= 0) { t.c2.restore(); t.m.zz = t.m.szz; } break;
    case 5: if (t.m.ZZ >= 0) query<NTL::ZZ_p>("ZZ_p", modulus(t.m.ZZ, false), repZ); if (t.m.zz >= 0) query<NTL::zz_p>("zz_p", modulus(t.m.zz, true), repz); break;
    case 6: if (t.m.ZZ >= 0) { NTL::ZZ_pPush p(modulus(1, false)); query<NTL::ZZ_p>("ZZ_p", modulus(1, false), repZ); } break;
    case 7: case 8: { int i = op == 7 ? 0 : 2; NTL::zz_p::init(NTL::conv<long>(modulus(i, true))); t.m.zz = i; break; }
    case 9:
      if (t.m.ZZ >= 0) {
        NTL::ZZ m = modulus(t.m.ZZ, false);
        NTL::ZZ_p x = NTL::conv<NTL::ZZ_p>(m - 1), sum(0);
        int s = ScalarHelper<NTL::ZZ_p>::SizeOf();
        for (int k = 0; k < 8 * s; k++) if (ScalarHelper<NTL::ZZ_p>::GetBit(x, k)) sum += ScalarHelper<NTL::ZZ_p>::SetBit(k);
        MC_CHECK(sum == x, "ZZ_p modulus %s: bits of m-1 do not add up to it", dec(m).c_str());
      }
      break;
  }
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C05");
  // One thread: all sequences. Each runs in a fresh thread (fresh caches).
  uint64_t n = 0;
#ifndef MC_RACE
  int depth = mc::thorough() ? 6 : 5;
  std::vector<int> h(depth, 0);
  uint64_t total = 1;
  for (int i = 0; i < depth; i++) total *= kOps;
  std::string id;
  auto final_query = [](ThreadState& t) { step(t, 5); };
  // Blocks of sequences that share a thread's history start from a state with
  // caches filled by the previous sequence: every sequence is thus also
  // explored from non-initial states.
  const uint64_t block = 1000;
  for (uint64_t b = 0; b * block < total; b++) {
    if (!mc::shard_owns(n++)) continue;
    if (!mc::want(strf("single-thread block %lu depth %d", b, depth))) continue;
    mc::Sched s;
    s.spawn([&] {
      ThreadState t;
      for (uint64_t k = b * block; k < std::min(total, (b + 1) * block); k++) {
        if (k % 7 == 0) t = ThreadState{Model{t.m.zz, t.m.ZZ, -1, -1}, {}, {}};
        uint64_t x = k;
        for (int i = depth - 1; i >= 0; i--) { h[i] = x % kOps; x /= kOps; }
        for (int i = 0; i < depth; i++) step(t, h[i]);
        final_query(t);
        mc::report().evaluations++;
      }
    }, 0);
    s.run();
    mc::report().states += block;
  }
#endif
#ifndef MC_RACE
  // One thread: all pairs of moduli around the sizes that matter, switched in
  // every way there is: installed, pushed for a scope, restored.
  {
    std::vector<NTL::ZZ> ms{NTL::ZZ(2), NTL::ZZ(3), NTL::ZZ(17)};
    for (int k : {7, 8, 15, 16, 24, 31, 32, 40, 48, 56, 59, 63, 64, 72, 80, 88, 96, 104, 112, 120, 127, 128})
      for (int d : {-1, 0, 1}) ms.push_back((NTL::ZZ(1) << k) + d);
    for (int k : {130, 160, 192, 256}) ms.push_back((NTL::ZZ(1) << k) + 1);
    auto repZ = [](const NTL::ZZ_p& x) { return NTL::rep(x); };
    auto repz = [](const NTL::zz_p& x) { return NTL::ZZ(NTL::rep(x)); };
    auto low = [](const NTL::ZZ& m) { return m <= (NTL::ZZ(1) << 128); };
    auto sizes = [&](const NTL::ZZ& m) {
      int s = ScalarHelper<NTL::ZZ_p>::SizeOf();
      MC_CHECK(s == bytes_for(m), "ZZ_p: size %d reported while modulus %s is installed (needs %d)", s, dec(m).c_str(), bytes_for(m));
      MC_CHECK(ScalarHelper<NTL::ZZ_p>::CanBeHashedInto(0, 128) == low(m), "ZZ_p: usability reported for another modulus than %s", dec(m).c_str());
      NTL::ZZ_p e;
      e = NTL::conv<NTL::ZZ_p>(NTL::ZZ(1));
      ScalarHelper<NTL::ZZ_p>::Randomize(absl::MakeSpan(&e, 1));
      MC_CHECK(NTL::rep(e) < m, "ZZ_p: a sample is not reduced modulo %s", dec(m).c_str());
      if (low(m)) query<NTL::ZZ_p>("ZZ_p", m, repZ);
      mc::report().transitions++;
    };
    for (size_t i = 0; i < ms.size(); i++) {
      if (!mc::shard_owns(n++)) continue;
      for (size_t j = 0; j < ms.size(); j++) {
        if (!mc::want(strf("switch %zu %zu", i, j))) continue;
        NTL::ZZ_p::init(ms[i]);
        sizes(ms[i]);
        NTLContext<NTL::ZZ_p> c;
        c.save();
        NTL::ZZ_p::init(ms[j]);
        sizes(ms[j]);
        c.restore();
        sizes(ms[i]);
        { NTL::ZZ_pPush push(ms[j]); sizes(ms[j]); }
        sizes(ms[i]);
        if (ms[i] < NTL_SP_BOUND && ms[j] < NTL_SP_BOUND) {
          NTL::zz_p::init(NTL::conv<long>(ms[i]));
          query<NTL::zz_p>("zz_p", ms[i], repz);
          NTLContext<NTL::zz_p> c2;
          c2.save();
          NTL::zz_p::init(NTL::conv<long>(ms[j]));
          query<NTL::zz_p>("zz_p", ms[j], repz);
          sizes(ms[i]);
          c2.restore();
          query<NTL::zz_p>("zz_p", ms[i], repz);
        }
        mc::report().evaluations++;
        mc::report().states++;
      }
    }
  }
#endif
  // Several threads: all interleavings of whole operations of bounded programs.
  std::vector<std::vector<int>> progs;
  int ops2[] = {0, 2, 5, 4, 3, 9, 7};
  for (int a : {0, 1, 2}) for (int b : ops2) for (int c : {5, 9}) progs.push_back({a, 5, b, c});
  for (int a : {7, 8}) for (int b : {0, 2, 3}) progs.push_back({a, b, 5});
  bool race = false;
#ifdef MC_RACE
  race = true;
#endif
  for (size_t i = 0; i < progs.size(); i++)
    for (size_t j = i; j < progs.size(); j++) {
      if (race && (i * 31 + j) % 5) continue;
      if (!mc::shard_owns(n++)) continue;
      if (!mc::want(strf("%sthreads %zu %zu", race ? "race " : "", i, j))) continue;
      mc::Explorer ex;
      ex.set_bound(race ? 1 : 3);
      auto body = [&] {
        mc::Sched s;
        std::vector<int>* pp[2] = {&progs[i], &progs[j]};
        for (int t = 0; t < 2; t++)
          s.spawn([&, t] {
            ThreadState st;
            for (int op : *pp[t]) {
              step(st, op);
              mc::Sched::cur()->point("step");
            }
          }, 0);
        s.run();
      };
      mc::report().schedules += ex.run(body);
      mc::report().evaluations++;
      mc::report().states++;
    }
  // A context saved in one thread and restored in others, as the protocols do.
  for (int m0 = 0; m0 < 3; m0++)
    for (int m1 = 0; m1 < 3; m1++) {
      if (!mc::shard_owns(n++)) continue;
      if (!mc::want(strf("%shand-over %d %d", race ? "race " : "", m0, m1))) continue;
      mc::Explorer ex;
      ex.set_bound(2);
      mc::report().schedules += ex.run([&] {
        mc::Sched s;
        NTL::ZZ_p::init(modulus(m0, false));
        NTLContext<NTL::ZZ_p> c;
        c.save();
        for (int t = 0; t < 2; t++)
          s.spawn([&, t] {
            ThreadState st;
            if (t == 1) { step(st, m1); step(st, 5); mc::Sched::cur()->point("step"); }
            c.restore();
            st.m.ZZ = m0;
            for (int k = 0; k < 3; k++) { step(st, k == 1 ? 9 : 5); mc::Sched::cur()->point("step"); }
          }, 0);
        s.run();
      });
      mc::report().evaluations++;
      mc::report().states++;
    }
  mc::sample("install 7, query, install 2^127-1, restore saved 7, query sizes and conversions, over two threads");
  mc::finish();
}
#endif

#if PROP == 6
#include <dlfcn.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
// The code's sources of randomness - RAND_bytes and NTL's stream - deliver
// bytes chosen here, so that outcomes can be enumerated exhaustively.
struct NtlStream { long pos; const unsigned char* buf; long buf_len; void* impl; };
static std::vector<unsigned char> g_src(1 << 16);
static size_t g_used;
static bool g_with_source;  // NTL's stream is ours, and seeding it has no effect
template <typename F>
static size_t with_source(F f) {
  g_used = 0;
  g_with_source = true;
  mc::rng_hook = [](unsigned char* p, size_t n) {
    if (g_used + n > g_src.size()) mc::violation("far more randomness drawn than could be needed");
    memcpy(p, g_src.data() + g_used, n);
    g_used += n;
    return true;
  };
  NtlStream* r = (NtlStream*)&NTL::GetCurrentRandomStream();
  NtlStream save = *r;
  r->pos = 0; r->buf = g_src.data(); r->buf_len = g_src.size();
  f();
  size_t n = g_used + r->pos;
  if (r->buf == g_src.data()) *r = save;
  mc::rng_hook = nullptr;
  g_with_source = false;
  return n;
}
template <typename T> static u128 val(const T& x) { return U(ScalarHelper<T>::ToUint128(x)); }

// Where samples come from. In identical copies of this process, in which the
// time, the clock and all IDs are the same, samples must differ when RAND_bytes
// delivers something else (unless they come from another real source), and must
// depend on at least 128 bits of what it delivers.
static bool g_frozen;
static std::string in_copy(const std::function<std::string()>& f, const std::function<void()>& before = nullptr) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    g_frozen = true;
    std::string r;
    if (before) { std::thread t(before); t.join(); }
    std::thread t([&] { r = f(); });  // a thread whose generators are fresh
    t.join();
    size_t at = 0;
    while (at < r.size()) { ssize_t k = write(fd[1], r.data() + at, r.size() - at); if (k <= 0) break; at += k; }
    _exit(0);
  }
  close(fd[1]);
  std::string r;
  char b[4096];
  for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) r.append(b, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (st != 0) mc::violation("sampling in a fresh thread crashes");
  return r;
}
template <typename T>
static void origin(const std::string& ty, std::function<void()> install, int mode) {
  bool after_other_thread = mode == 1, one_by_one = mode == 2;
  if (!mc::want(ty + (after_other_thread ? " origin after another thread" : one_by_one ? " origin one by one" : " origin"))) return;
  static std::vector<unsigned char> src;
  static size_t used, at_thread;
  mc::Rnd rnd(99);
  src.assign(1 << 16, 0);
  for (auto& c : src) c = (unsigned char)rnd.next();
  const size_t N = 160, M = 40;
  static std::vector<T> first;
  auto deliver = [](unsigned char* p, size_t n) {
    if (used + n > src.size()) return false;
    memcpy(p, src.data() + used, n);
    used += n;
    return true;
  };
  auto sample = [&] {
    used = 0;
    std::function<void()> before;
    if (after_other_thread) before = [&] {
      install();
      mc::rng_hook = deliver;
      first.assign(M, T());
      ScalarHelper<T>::Randomize(absl::MakeSpan(first));
    };
    return in_copy([&] {
      install();
      at_thread = used;
      mc::rng_hook = deliver;
      std::vector<T> v(N);
      if (one_by_one) for (auto& x : v) ScalarHelper<T>::Randomize(absl::MakeSpan(&x, 1));
      else ScalarHelper<T>::Randomize(absl::MakeSpan(v));
      std::string r((const char*)&used, sizeof used);
      r.append((const char*)&at_thread, sizeof at_thread);
      bool same = after_other_thread;
      for (size_t i = 0; same && i < M; i++) same = val(first[i]) == val(v[i]);
      r.append(1, (char)same);
      for (auto& x : v) { u128 y = val(x); r.append((const char*)&y, 16); }
      return r;
    }, before);
  };
  std::string a = sample(), a2 = sample();
  mc::report().evaluations += 2;
  if (a != a2) { mc::count("samples_from_another_source"); return; }
  size_t n, from;
  memcpy(&n, a.data(), sizeof n);
  memcpy(&from, a.data() + sizeof n, sizeof from);
  MC_CHECK(!a[2 * sizeof n], "%s: a fresh thread repeats the samples of another thread", ty.c_str());
  size_t bits = 0, looked = 0;
  std::vector<size_t> order;
  for (size_t k = from; k < n; k++) order.push_back(k);
  for (size_t k = 0; k < from; k++) order.push_back(k);
  for (size_t k : order) {
    if (looked++ >= 80 || bits >= 128) break;
    for (int b = 0; b < 8; b++) {
      src[k] ^= 1 << b;
      bits += sample() != a;
      src[k] ^= 1 << b;
      mc::report().evaluations++;
      mc::report().states++;
    }
  }
  MC_CHECK(bits >= 128, "%s: samples in a fresh thread%s are determined by %zu bits of randomness besides time, process and thread", ty.c_str(), after_other_thread ? ", after another thread sampled," : "", bits);
}

// What happens in the thread before each sampling.
static std::function<void()> g_before;
// n elements inside a guarded buffer; returns values and randomness used.
template <typename T>
static std::vector<u128> sample_n(size_t n, size_t& used, T guard) {
  if (g_before) g_before();
  std::vector<T> buf(n + 8, guard);
  used = with_source([&] { ScalarHelper<T>::Randomize(absl::MakeSpan(buf.data() + 4, n)); });
  for (size_t i = 0; i < 4; i++)
    if (!(buf[i] == guard) || !(buf[n + 4 + i] == guard)) mc::violation("an element outside the requested range was written (n=%zu)", n);
  std::vector<u128> v;
  for (size_t i = 0; i < n; i++) v.push_back(val(buf[4 + i]));
  mc::report().evaluations++;
  mc::report().transitions += n;
  return v;
}
// Long spans: over a few different sources, no two elements may always agree,
// and every element must follow the source.
template <typename T>
static void many(const char* ty, const std::string& mod, double bits_per_draw, T guard) {
  size_t top = mc::thorough() ? 300000 : 70001;
  for (size_t n : {(size_t)300, (size_t)1030, (size_t)4099, (size_t)16411, top}) {
    if (!mc::want(strf("%s%s many n=%zu", ty, mod.c_str(), n))) continue;
    std::vector<unsigned char> save((size_t)n * 40 + (1 << 16));
    std::swap(save, g_src);
    std::vector<std::pair<std::vector<u128>, size_t>> sig(n);
    int runs = std::max(1, (int)std::ceil(90 / bits_per_draw));
    mc::Rnd r(n);
    for (int k = 0; k < runs; k++) {
      for (size_t i = 0; i + 8 <= g_src.size(); i += 8) { uint64_t x = r.next(); memcpy(&g_src[i], &x, 8); }
      size_t u;
      auto v = sample_n<T>(n, u, guard);
      for (size_t i = 0; i < n; i++) sig[i].first.push_back(v[i]);
    }
    for (size_t i = 0; i < n; i++) sig[i].second = i;
    std::sort(sig.begin(), sig.end());
    for (size_t i = 0; i + 1 < n; i++)
      MC_CHECK(sig[i].first != sig[i + 1].first, "%s%s: elements %zu and %zu of %zu are always equal", ty, mod.c_str(), sig[i].second, sig[i + 1].second, n);
    std::swap(save, g_src);
    mc::report().states++;
  }
}
// Types whose every bit pattern is a value.
template <typename T>
static void full(const char* ty, int size) {
  size_t maxn = mc::thorough() ? 200 : 70;
  std::vector<size_t> ns;
  for (size_t n = 0; n <= maxn; n++) ns.push_back(n);
  for (size_t n : {127, 128, 129, 255, 256, 257, 1000}) ns.push_back(n);
  for (size_t n : ns) {
    if (!mc::want(strf("%s n=%zu", ty, n))) continue;
    size_t used;
    std::fill(g_src.begin(), g_src.end(), 0);
    auto z = sample_n<T>(n, used, T(3));
    MC_CHECK(used >= n * size, "%s: %zu elements from %zu bytes of randomness", ty, n, used);
    std::fill(g_src.begin(), g_src.end(), 0xff);
    auto o = sample_n<T>(n, used, T(3));
    u128 all = size == 16 ? ~(u128)0 : (((u128)1 << (8 * (size % 16))) - 1);
    for (size_t i = 0; i < n; i++)
      MC_CHECK((z[i] ^ o[i]) == all, "%s: element %zu of %zu does not follow the randomness (%s and %s)", ty, i, n, hex(z[i]).c_str(), hex(o[i]).c_str());
    // Each source bit decides one bit of one element, each bit once.
    std::fill(g_src.begin(), g_src.end(), 0);
    std::vector<u128> seen(n, 0);
    size_t lim = n <= 40 || n == 129 ? used : 0;
    for (size_t k = 0; k < lim; k++)
      for (int b = 0; b < 8; b++) {
        g_src[k] = 1 << b;
        size_t u2;
        auto x = sample_n<T>(n, u2, T(3));
        int changed = 0;
        for (size_t i = 0; i < n; i++) {
          u128 d = x[i] ^ z[i];
          if (!d) continue;
          changed++;
          MC_CHECK(!(seen[i] & d), "%s n=%zu: element %zu depends on shared randomness", ty, n, i);
          seen[i] |= d;
        }
        MC_CHECK(changed <= 1, "%s n=%zu: one bit of randomness changes %d elements", ty, n, changed);
        g_src[k] = 0;
      }
    if (lim)
      for (size_t i = 0; i < n; i++) MC_CHECK(seen[i] == all, "%s n=%zu: element %zu is not uniform (bits %s vary)", ty, n, i, hex(seen[i]).c_str());
    mc::report().states++;
  }
  many<T>(ty, "", 8 * size, T(3));
  // All outcomes for small sizes.
  if (size == 1 && mc::want(strf("%s all outcomes", ty))) {
    std::map<u128, int> freq;
    std::fill(g_src.begin(), g_src.end(), 0);
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
      g_src[0] = a; g_src[1] = b;
      size_t u;
      auto v = sample_n<T>(2, u, T(3));
      freq[v[0] << 8 | v[1]]++;
    }
    MC_CHECK(freq.size() == 65536, "%s: only %zu of 65536 pairs of values occur", ty, freq.size());
    mc::report().states += 65536;
  }
}
template <typename T>
static void modular(const char* ty, const NTL::ZZ& m, const std::string& after = "") {
  std::string ms = dec(m) + after;
  if (!mc::want(strf("%s modulus %s", ty, ms.c_str()))) return;
  std::fill(g_src.begin(), g_src.end(), 0);
  size_t used = 0;
  T guard(1);
  // Fill and range.
  for (size_t n : {0, 1, 2, 3, 5, 16, 33}) {
    std::fill(g_src.begin(), g_src.end(), 0);
    auto z = sample_n<T>(n, used, guard);
    if (n) MC_CHECK(used >= 1, "%s modulus %s: %zu elements without randomness", ty, ms.c_str(), n);
    for (size_t i = 0; i < n; i++)
      for (size_t k = i + 1; k < n; k++) (void)k;
    // Every element must be reached by the randomness, and no byte reaches two.
    std::vector<bool> hit(n, false);
    size_t u0 = used;
    for (size_t k = 0; k < u0 && n <= 16; k++)
      for (int b = 0; b < 256; b += (b < 4 ? 1 : 37)) {
        if (!b) continue;
        g_src[k] = b;
        size_t u;
        auto x = sample_n<T>(n, u, guard);
        g_src[k] = 0;
        if (u != u0) continue;  // a rejection shifted the stream
        int changed = 0;
        for (size_t i = 0; i < n; i++) {
          if (x[i] == z[i]) continue;
          changed++;
          hit[i] = true;
          MC_CHECK(Z(x[i]) < m, "%s modulus %s: sample out of range", ty, ms.c_str());
        }
        MC_CHECK(changed <= 1, "%s modulus %s n=%zu: one byte of randomness changes %d elements", ty, ms.c_str(), n, changed);
      }
    for (size_t i = 0; i < n && n <= 16; i++) MC_CHECK(hit[i], "%s modulus %s: element %zu of %zu is not random", ty, ms.c_str(), i, n);
    mc::report().states++;
  }
  // One element: every outcome of every byte of the draw.
  std::fill(g_src.begin(), g_src.end(), 0);
  sample_n<T>(1, used, guard);
  size_t d = used;
  auto draw = [&](bool& rejected) {
    size_t u;
    auto v = sample_n<T>(1, u, guard);
    rejected = u != d;
    return v[0];
  };
  if (m <= 257 && d <= 2) {
    std::vector<uint64_t> freq(NTL::conv<long>(m), 0);
    uint64_t acc = 0;
    for (int a = 0; a < 256; a++) for (int b = 0; b < (d == 2 ? 256 : 1); b++) {
      g_src[0] = a;
      if (d == 2) g_src[1] = b;
      bool rej;
      u128 v = draw(rej);
      MC_CHECK(v < freq.size(), "%s modulus %s: sample out of range", ty, ms.c_str());
      if (!rej) { freq[(size_t)v]++; acc++; }
      if (rej) MC_CHECK(v == 0, "%s modulus %s: a rejected draw influences the sample", ty, ms.c_str());
    }
    for (size_t i = 0; i < freq.size(); i++)
      MC_CHECK(freq[i] * freq.size() == acc && acc > 0, "%s modulus %s: value %zu has probability %lu/%lu", ty, ms.c_str(), i, freq[i], acc);
    mc::report().states += freq.size();
  } else {
    // Wide draws: one byte at a time; every bit of the residue must be reachable
    // and accepted outcomes are equally frequent.
    u128 bits = 0;
    for (size_t k = 0; k < d; k++) {
      std::map<u128, int> freq;
      for (int a = 0; a < 256; a++) {
        g_src[k] = a;
        bool rej;
        u128 v = draw(rej);
        MC_CHECK(Z(v) < m, "%s modulus %s: sample out of range", ty, ms.c_str());
        if (!rej) { freq[v]++; bits |= v; }
      }
      g_src[k] = 0;
      int lo = 256, hi = 0;
      for (auto& f : freq) { lo = std::min(lo, f.second); hi = std::max(hi, f.second); }
      MC_CHECK(lo == hi, "%s modulus %s: outcomes of byte %zu occur %d to %d times", ty, ms.c_str(), k, lo, hi);
      mc::report().states += freq.size();
    }
    NTL::ZZ top = m - 1;
    int nb = NTL::NumBits(top);
    u128 need = nb == 128 ? ~(u128)0 : (((u128)1 << nb) - 1);
    MC_CHECK(bits == need, "%s modulus %s: samples only ever have bits %s", ty, ms.c_str(), hex(bits).c_str());
  }
}
static bool frozen() { return g_frozen; }
extern "C" time_t time(time_t* t) {
  static auto real = (time_t(*)(time_t*))dlsym(RTLD_NEXT, "time");
  time_t r = frozen() ? 1600000000 : real(nullptr);
  if (t) *t = r;
  return r;
}
extern "C" clock_t clock() {
  static auto real = (clock_t(*)())dlsym(RTLD_NEXT, "clock");
  return frozen() ? 4711 : real();
}
extern "C" pid_t getpid() {
  static auto real = (pid_t(*)())dlsym(RTLD_NEXT, "getpid");
  return frozen() ? 4711 : real();
}
extern "C" int gettimeofday(struct timeval* tv, void* tz) {
  static auto real = (int (*)(struct timeval*, void*))dlsym(RTLD_NEXT, "gettimeofday");
  int r = real(tv, tz);
  if (frozen()) { tv->tv_sec = 1600000000; tv->tv_usec = 0; }
  return r;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) {
  static auto real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(c, ts);
  if (frozen()) { ts->tv_sec = 1600000000; ts->tv_nsec = 0; }
  return r;
}
// Seeding NTL's stream draws on RAND_bytes, but leaves our stream in place.
namespace NTL {
void SetSeed(const unsigned char* p, long n) {
  typedef void (*fn)(const unsigned char*, long);
  static fn real = (fn)dlsym(RTLD_NEXT, "_ZN3NTL7SetSeedEPKhl");
  if (!g_with_source) real(p, n);
}
void SetSeed(const ZZ& s) {
  typedef void (*fn)(const ZZ&);
  static fn real = (fn)dlsym(RTLD_NEXT, "_ZN3NTL7SetSeedERKNS_2ZZE");
  if (!g_with_source) real(s);
}
}
template <typename T> static void warm() { T x; ScalarHelper<T>::Randomize(absl::MakeSpan(&x, 1)); }
int main(int argc, char** argv) {
  mc::init(argc, argv, "C06");
  uint64_t n = 0;
  for (const NTL::ZZ& m : {NTL::ZZ(257), (NTL::ZZ(1) << 59) - 55, NTL::ZZ(1) << 128}) {
    for (int after : {0, 1, 2}) if (mc::shard_owns(n++)) origin<NTL::ZZ_p>("ZZ_p modulus " + dec(m), [&] { NTL::ZZ_p::init(m); }, after);
    for (int after : {0, 1, 2}) if (m < NTL_SP_BOUND && mc::shard_owns(n++)) origin<NTL::zz_p>("zz_p modulus " + dec(m), [&] { NTL::zz_p::init(NTL::conv<long>(m)); }, after);
  }
  for (int after : {0, 1, 2}) if (mc::shard_owns(n++)) origin<uint8_t>("uint8", [] {}, after);
  for (int after : {0, 1, 2}) if (mc::shard_owns(n++)) origin<uint64_t>("uint64", [] {}, after);
  for (int after : {0, 1, 2}) if (mc::shard_owns(n++)) origin<absl::uint128>("uint128", [] {}, after);
  for (int after : {0, 1, 2}) if (mc::shard_owns(n++)) origin<gf128>("gf128", [] {}, after);
  // One-time seeding of generators is not part of what is enumerated below.
  NTL::ZZ_p::init(NTL::ZZ(17));
  warm<NTL::ZZ_p>();
  NTL::zz_p::init(17);
  warm<NTL::zz_p>();
  if (mc::shard_owns(n++)) full<uint8_t>("uint8", 1);
  if (mc::shard_owns(n++)) full<uint16_t>("uint16", 2);
  if (mc::shard_owns(n++)) full<uint32_t>("uint32", 4);
  if (mc::shard_owns(n++)) full<uint64_t>("uint64", 8);
  if (mc::shard_owns(n++)) full<absl::uint128>("uint128", 16);
  if (mc::shard_owns(n++)) full<gf128>("gf128", 16);
  for (const NTL::ZZ& m : big_moduli(128, mc::thorough() ? 257 : 65)) {
    if (m == 1) continue;
    if (!mc::shard_owns(n++)) continue;
    NTL::ZZ_p::init(m);
    modular<NTL::ZZ_p>("ZZ_p", m);
    if (m < NTL_SP_BOUND) {
      NTL::zz_p::init(NTL::conv<long>(m));
      modular<NTL::zz_p>("zz_p", m);
    }
  }
  for (const NTL::ZZ& m : {NTL::ZZ(2), NTL::ZZ(257), (NTL::ZZ(1) << 59) - 55, (NTL::ZZ(1) << 64) + 13, (NTL::ZZ(1) << 127) - 1, NTL::ZZ(1) << 128}) {
    if (!mc::shard_owns(n++)) continue;
    NTL::ZZ_p::init(m);
    double b = NTL::log(m) / log(2.0);
    many<NTL::ZZ_p>("ZZ_p", " modulus " + dec(m), b, NTL::ZZ_p(1));
    if (m < NTL_SP_BOUND) {
      NTL::zz_p::init(NTL::conv<long>(m));
      many<NTL::zz_p>("zz_p", " modulus " + dec(m), b, NTL::zz_p(1));
    }
  }
  // Other types and moduli sampled from before.
  for (const NTL::ZZ& m : {NTL::ZZ(2), NTL::ZZ(3), NTL::ZZ(17), NTL::ZZ(257), (NTL::ZZ(1) << 30) - 35, (NTL::ZZ(1) << 59) - 55, (NTL::ZZ(1) << 61) - 1, (NTL::ZZ(1) << 127) - 1, NTL::ZZ(1) << 128})
    for (const NTL::ZZ& o : {NTL::ZZ(2), NTL::ZZ(19), NTL::ZZ(256), NTL::ZZ(65537), (NTL::ZZ(1) << 31) - 1, (NTL::ZZ(1) << 57) + 3, (NTL::ZZ(1) << 80) + 9}) {
      if (!mc::shard_owns(n++)) continue;
      bool small = o < NTL_SP_BOUND;
      auto fill = [](auto x, size_t k) { std::vector<decltype(x)> v(k, x); ScalarHelper<decltype(x)>::Randomize(absl::MakeSpan(v)); };
      auto others = [=] {
        NTL::ZZ_p::init(o);
        if (small) NTL::zz_p::init(NTL::conv<long>(o));
        fill(NTL::ZZ_p(1), 2);
        if (small) fill(NTL::zz_p(1), 3);
        fill(uint16_t(1), 1);
        fill(gf128(1), 2);
        NTL::ZZ_p::init(m);
        if (m < NTL_SP_BOUND) NTL::zz_p::init(NTL::conv<long>(m));
      };
      std::string sfx = " after modulus " + dec(o);
      g_before = others;
      NTL::ZZ_p::init(m);
      modular<NTL::ZZ_p>("ZZ_p", m, sfx);
      if (m < NTL_SP_BOUND) {
        NTL::zz_p::init(NTL::conv<long>(m));
        modular<NTL::zz_p>("zz_p", m, sfx);
      }
      g_before = nullptr;
    }
  mc::sample("zz_p modulus 17: all 256 outcomes of the draw, each residue accepted 8 times");
  mc::finish();
}
#endif

#if PROP == 7
// r = 2^h mod m. Statistical distance of (uniform h-bit value mod m) from
// uniform = r (m-r) / (m 2^h).
static const double kSec[] = {0, 0.5, 1, 2, 3, 5, 7, 8, 10, 16, 20, 30, 32, 39.9, 40, 40.1, 41, 48, 60, 64, 65, 80, 100, 112, 127, 128};
static NTL::ZZ pow2_scaled(double e, int bits, bool up) {  // 2^bits * 2^-e, rounded
  // e is a multiple of 0.001 at most; computed through a rational exponent.
  long double f = powl(2.0L, -(long double)(e - floor(e)));
  NTL::ZZ q = NTL::conv<NTL::ZZ>((unsigned long)llroundl(f * 4611686018427387904.0L)) + (up ? 16 : -16);  // * 2^62
  long sh = bits - 62 - (long)floor(e);
  return sh >= 0 ? q << sh : q >> -sh;
}
template <typename T>
static void check(const char* ty, const NTL::ZZ& m) {
  std::string ms = dec(m);
  if (!mc::want(strf("%s modulus %s", ty, ms.c_str()))) return;
  for (int h = 1; h <= 128; h++) {
    NTL::ZZ H = NTL::ZZ(1) << h, r = H % m;
    NTL::ZZ dist_num = r * (m - r), dist_den = m * H;  // distance
    for (double s : kSec) {
      bool got = ScalarHelper<T>::CanBeHashedInto(s, h);
      mc::report().evaluations++;
      mc::report().transitions++;
      // dist > 2^-s  <=>  dist_num * 2^400 > dist_den * 2^(400-s)
      NTL::ZZ lhs = dist_num << 400, rhs = dist_den * pow2_scaled(s, 400, true);
      std::string key = strf("%s:m=%s:h=%d:s=%g", ty, ms.c_str(), h, s);
      if (lhs > rhs && got)
        mc::known_or_violation(key, strf("%s modulus %s is declared usable for %d-bit hashes at %g bits of security, but the result is not that close to uniform", ty, ms.c_str(), h, s));
      NTL::ZZ a = r << 400, b = H * pow2_scaled(s + 0.001, 400, false);
      if (a < b && !got)
        mc::known_or_violation(key, strf("%s modulus %s is refused for %d-bit hashes at %g bits of security, though only %s of 2^%d values would have to be cut off", ty, ms.c_str(), h, s, dec(r).c_str(), h));
    }
    mc::report().states++;
  }
  // Defaults: 40 bits, 128-bit hash.
  MC_CHECK(ScalarHelper<T>::CanBeHashedInto() == ScalarHelper<T>::CanBeHashedInto(40, 128), "%s modulus %s: defaults differ from (40, 128)", ty, ms.c_str());
}
template <typename T>
static void ints(const char* ty, int bits) {
  if (!mc::want(strf("type %s", ty))) return;
  for (int h = 0; h <= 160; h++)
    for (double s : kSec) {
      bool got = ScalarHelper<T>::CanBeHashedInto(s, h);
      MC_CHECK(got == (h >= bits), "%s: CanBeHashedInto(%g, %d) is %d", ty, s, h, got);
      mc::report().evaluations++;
      mc::report().states++;
    }
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C07");
  uint64_t n = 0;
  if (mc::shard_owns(n++)) ints<uint8_t>("uint8", 8);
  if (mc::shard_owns(n++)) ints<uint16_t>("uint16", 16);
  if (mc::shard_owns(n++)) ints<uint32_t>("uint32", 32);
  if (mc::shard_owns(n++)) ints<uint64_t>("uint64", 64);
  if (mc::shard_owns(n++)) ints<absl::uint128>("uint128", 128);
  if (mc::shard_owns(n++)) ints<gf128>("gf128", 128);
  for (const NTL::ZZ& m : big_moduli(192, mc::thorough() ? 4096 : 300)) {
    if (!mc::shard_owns(n++)) continue;
    NTL::ZZ_p::init(m);
    check<NTL::ZZ_p>("ZZ_p", m);
    if (m < NTL_SP_BOUND) {
      NTL::zz_p::init(NTL::conv<long>(m));
      check<NTL::zz_p>("zz_p", m);
    }
  }
  mc::sample("ZZ_p modulus 2^61-1, 64-bit hash, 40 bits of security");
  mc::finish();
}
#endif
