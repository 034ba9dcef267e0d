// Shared parts of the two-party harnesses: scalar types under test, values,
// sessions of both parties on one in-memory network.
#ifndef TWOPARTY_H_
#define TWOPARTY_H_
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <numeric>
#include <sstream>

#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "distributed_vector_ole/gf128.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "mc/core.h"
#include "mc/net.h"
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"

using namespace distributed_vector_ole;
using mc::strf;
typedef unsigned __int128 u128;
typedef absl::uint128 a128;

inline a128 A(u128 x) { return absl::MakeUint128((uint64_t)(x >> 64), (uint64_t)x); }
inline u128 U(a128 x) { return ((u128)absl::Uint128High64(x) << 64) | absl::Uint128Low64(x); }
inline std::string hex(u128 x) { return (x >> 64) ? strf("%lx%016lx", (unsigned long)(x >> 64), (unsigned long)x) : strf("%lx", (unsigned long)x); }

// --------------------------------------------------------------- scalar types
// A modulus as 2^bits + add (bits == 0: none).
struct Mod { int bits = 0; long add = 0; };
inline NTL::ZZ mod_zz(const Mod& m) { return (NTL::ZZ(1) << m.bits) + m.add; }
template <typename T> struct is_mod : std::false_type {};
template <> struct is_mod<NTL::ZZ_p> : std::true_type {};
template <> struct is_mod<NTL::zz_p> : std::true_type {};
template <typename T> void install(const Mod&) {}
template <> inline void install<NTL::ZZ_p>(const Mod& m) { NTL::ZZ_p::init(mod_zz(m)); }
template <> inline void install<NTL::zz_p>(const Mod& m) { NTL::zz_p::init(NTL::conv<long>(mod_zz(m))); }
template <typename T> const char* tname();
template <> inline const char* tname<uint8_t>() { return "u8"; }
template <> inline const char* tname<uint16_t>() { return "u16"; }
template <> inline const char* tname<uint32_t>() { return "u32"; }
template <> inline const char* tname<uint64_t>() { return "u64"; }
template <> inline const char* tname<a128>() { return "u128"; }
template <> inline const char* tname<gf128>() { return "gf128"; }
template <> inline const char* tname<NTL::ZZ_p>() { return "ZZ_p"; }
template <> inline const char* tname<NTL::zz_p>() { return "zz_p"; }
template <typename T> std::string full_name(const Mod& m) {
  return is_mod<T>::value ? strf("%s[2^%d%+ld]", tname<T>(), m.bits, m.add) : std::string(tname<T>());
}
template <typename T> T mk(u128 x) { return T(A(x)); }
template <> inline uint8_t mk<uint8_t>(u128 x) { return (uint8_t)x; }
template <> inline uint16_t mk<uint16_t>(u128 x) { return (uint16_t)x; }
template <> inline uint32_t mk<uint32_t>(u128 x) { return (uint32_t)x; }
template <> inline uint64_t mk<uint64_t>(u128 x) { return (uint64_t)x; }
inline NTL::ZZ zz_of(u128 x) {
  unsigned char b[16];
  for (int i = 0; i < 16; i++) b[i] = (unsigned char)(x >> (8 * i));
  return NTL::ZZFromBytes(b, 16);
}
template <> inline NTL::ZZ_p mk<NTL::ZZ_p>(u128 x) { return NTL::conv<NTL::ZZ_p>(zz_of(x)); }
template <> inline NTL::zz_p mk<NTL::zz_p>(u128 x) { return NTL::conv<NTL::zz_p>(zz_of(x)); }
template <typename T> u128 val(const T& x) { return (u128)x; }
template <> inline u128 val<a128>(const a128& x) { return U(x); }
template <> inline u128 val<gf128>(const gf128& x) { return U((a128)x); }
template <> inline u128 val<NTL::ZZ_p>(const NTL::ZZ_p& x) {
  unsigned char b[16];
  NTL::BytesFromZZ(b, NTL::rep(x), 16);
  u128 r = 0;
  for (int i = 15; i >= 0; i--) r = (r << 8) | b[i];
  return r;
}
template <> inline u128 val<NTL::zz_p>(const NTL::zz_p& x) { return (u128)NTL::rep(x); }
template <typename T> std::string show(const T& x) { return hex(val(x)); }
template <typename T> T add(const T& a, const T& b) { T r = a; r += b; return r; }
template <typename T> T sub(const T& a, const T& b) { T r = a; r -= b; return r; }
template <typename T> T mul(const T& a, const T& b) { T r = a; r *= b; return r; }
template <typename T> bool zero(const T& x) { return val(x) == 0; }
template <typename T> u128 order_minus_1(const Mod& m) {  // largest value
  if (!is_mod<T>::value) return sizeof(T) == 16 ? ~(u128)0 : (((u128)1 << (8 * (sizeof(T) % 16))) - 1);
  return m.bits == 128 && m.add >= 0 ? ~(u128)0 : (((m.bits == 128 ? (u128)0 : (u128)1 << m.bits)) + (__int128)m.add - 1);
}
// Boundary and pseudo random values of the type.
template <typename T> T pattern(const Mod& m, uint64_t k) {
  u128 top = order_minus_1<T>(m);
  switch (k % 11) {
    case 0: return mk<T>(1);
    case 1: return mk<T>(top);
    case 2: return mk<T>(0);
    case 3: return mk<T>(top / 2);
    case 4: return mk<T>(top / 2 + 1);
    case 5: return mk<T>(top - 1);
    default: {
      mc::Rnd r(k * 77 + 5);
      u128 h = r.next();
      u128 v = (h << 64) | r.next();
      return mk<T>(top == ~(u128)0 ? v : v % (top + 1));
    }
  }
}
template <typename T> std::vector<T> patterns(const Mod& m, size_t n, uint64_t from) {
  std::vector<T> v(n);
  for (size_t i = 0; i < n; i++) v[i] = pattern<T>(m, from + i);
  return v;
}

// ------------------------------------------------------------------- sessions
struct Conf {
  bool measured = false, lazy = false, one = false;
  int first = 0;                 // party in the first role
};
inline std::string conf_name(const Conf& c) { return strf("%s%s%d", c.measured ? "m" : "d", c.one ? "o" : c.lazy ? "l" : "e", c.first); }
inline std::vector<Conf> all_confs() {
  std::vector<Conf> v;
  for (int m = 0; m < 2; m++) for (int l = 0; l < 2; l++) for (int f = 0; f < 2; f++) { Conf c; c.measured = m; c.lazy = l; c.first = f; v.push_back(c); }
  return v;
}
template <typename T>
struct Sess {
  mc::Link link;
  mpc_utils::comm_channel ch[2];
  Mod mod;
  Sess(const Conf& c, const Mod& m) : ch{{&link, 0, c.measured}, {&link, 1, c.measured}}, mod(m) {
    link.delivery = c.one ? mc::Link::ONE : c.lazy ? mc::Link::LAZY : mc::Link::EAGER;
    install<T>(m);
  }
  // f(party, channel) runs as both parties.
  template <typename F> void both(F f) {
    mc::run2([&] { install<T>(mod); f(0, ch[0]); }, [&] { install<T>(mod); f(1, ch[1]); });
  }
};
template <typename S> void need_ok(const S& s, const char* what) {
  if (!s.ok()) mc::violation("%s is refused: %s", what, std::string(s.message().data(), s.message().size()).c_str());
}
template <typename P> std::unique_ptr<P> create(mpc_utils::comm_channel& c, double s = 40) {
  auto r = P::Create(&c, s);
  if (!r.ok()) mc::violation("Create is refused: %s", r.status().message().data());
  return std::move(r.ValueOrDie());
}
inline std::string show(const std::vector<int64_t>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += strf(i ? ",%ld" : "%ld", (long)v[i]);
  return s + "]";
}
#endif
