// Deterministic, observable randomness for the code under test, and the
// interposed BoringSSL entry points.
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <atomic>

#include "mc/core.h"
#include "mc/gomp.h"
#ifdef MC_WITH_NTL
#include "NTL/ZZ.h"
#endif
#include "openssl/aes.h"

namespace mc {
std::vector<Draw>* rng_log = nullptr;
std::function<bool(unsigned char*, size_t)> rng_hook, ot_rng_hook;
std::function<bool(const uint8_t*, uint8_t*, const void*)> aes_hook;
uint64_t mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
namespace {
uint64_t g_seed = 1;
std::atomic<uint64_t> g_epoch{0};
struct Stream { uint64_t epoch = ~0ull, ctr = 0, key = 0; };
thread_local Stream t_stream;
uint64_t next64() {
  Stream& s = t_stream;
  if (s.epoch != g_epoch) {
    s.epoch = g_epoch;
    s.ctr = 0;
    s.key = mix(g_seed * 0x1234567ull + 77 * (self_party() + 2) + 1000003ull * (self_thread() + 2));
  }
  return mix(s.key + 0x9e3779b97f4a7c15ull * ++s.ctr) ^ mix(s.key ^ s.ctr);
}
}  // namespace
void rng_reset(uint64_t seed) {
  g_seed = seed;
  g_epoch++;
#ifdef MC_WITH_NTL
  NTL::SetSeed(NTL::ZZ((long)(seed & 0xffffffff)) + 1);
#endif
}
void rng_thread_start(int party, int worker) {
#ifdef MC_WITH_NTL
  NTL::SetSeed(NTL::ZZ((long)(g_seed & 0xffffffff)) * 1000 + (party + 2) * 100 + worker + 5);
#endif
  (void)party; (void)worker;
}
void rng_fill(void* p, size_t n) {
  unsigned char* o = (unsigned char*)p;
  while (n > 0) {
    uint64_t v = next64();
    size_t m = n < 8 ? n : 8;
    memcpy(o, &v, m);
    o += m;
    n -= m;
  }
}
}  // namespace mc

extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  if (!(mc::rng_hook && mc::rng_hook(buf, len))) mc::rng_fill(buf, len);
  if (mc::rng_log)
    mc::rng_log->push_back(mc::Draw{mc::self_party(), buf, std::string((char*)buf, len)});
  return 1;
}
extern "C" int RAND_pseudo_bytes(uint8_t* buf, size_t len) { return RAND_bytes(buf, len); }
extern "C" int RAND_priv_bytes(uint8_t* buf, size_t len) { return RAND_bytes(buf, len); }

#ifdef MC_AES_HOOK
extern "C" void AES_encrypt(const uint8_t* in, uint8_t* out, const AES_KEY* key) {
  if (mc::aes_hook && mc::aes_hook(in, out, key)) return;
  typedef void (*fn)(const uint8_t*, uint8_t*, const AES_KEY*);
  static fn real = (fn)dlsym(RTLD_NEXT, "AES_encrypt");
  real(in, out, key);
}
#endif
