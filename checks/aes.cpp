// C08: the seeded generator against an AES-CTR reference over all call
// histories, buffer sizes, seed alignments and counter wrap-arounds.
#include <cstring>
#include <memory>

#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "mc/core.h"
#include "openssl/aes.h"
using distributed_vector_ole::AESUniformBitGenerator;
using mc::strf;

// Independent reference: the counter is a 128-bit little-endian number.
struct Ref {
  AES_KEY key;
  unsigned __int128 ctr;
  uint64_t w[2];
  int used = 2;
  explicit Ref(const uint8_t* seed) {
    uint8_t k[16];
    memcpy(k, seed, 16);
    AES_set_encrypt_key(k, 128, &key);
    ctr = 0;
    for (int i = 15; i >= 0; i--) ctr = (ctr << 8) | seed[16 + i];
  }
  uint64_t next() {
    if (used == 2) {
      uint8_t in[16], out[16];
      for (int i = 0; i < 16; i++) in[i] = (uint8_t)(ctr >> (8 * i));
      AES_encrypt(in, out, &key);
      memcpy(w, out, 16);
      ctr++;
      used = 0;
    }
    return w[used++];
  }
};
static std::vector<std::vector<uint8_t>> seeds() {
  std::vector<std::vector<uint8_t>> v;
  auto mk = [](int key, int mode) {
    std::vector<uint8_t> s(32);
    for (int i = 0; i < 16; i++) s[i] = key + 7 * i;
    for (int i = 0; i < 16; i++) s[16 + i] = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? (i < 8 ? 0xff : 0) : mode == 3 ? (i == 0 ? 0xfe : 0xff) : mode == 4 ? (i < 1 ? 0xfd : i < 4 ? 0xff : i) : 13 * i + key;
    return s;
  };
  for (int m = 0; m < 6; m++) v.push_back(mk(1, m));
  v.push_back(mk(200, 5));
  v.push_back(std::vector<uint8_t>(32, 0));
  v.push_back(std::vector<uint8_t>(32, 0xff));
  for (size_t i = 0; i < 3; i++) { auto s = mk(5 + i, 4); s.resize(33 + 15 * i, 0x77); v.push_back(s); }
  return v;
}
static void draw(AESUniformBitGenerator& g, Ref& r, uint64_t n, uint64_t& at) {
  for (uint64_t i = 0; i < n; i++, at++) {
    uint64_t a = g(), b = r.next();
    if (a != b) mc::violation("value %lu of the stream is %016lx, AES-CTR gives %016lx", at, a, b);
  }
  mc::report().transitions += n;
}
int main(int argc, char** argv) {
  mc::init(argc, argv, "C08");
  auto S = seeds();
  uint64_t idx = 0;
  std::vector<int64_t> sizes;
  for (int64_t b = -3; b <= 40; b++) sizes.push_back(b);
  for (int64_t b : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 4095, 4096, 4097}) sizes.push_back(b);
  sizes.push_back(INT64_MIN);
  if (AESUniformBitGenerator::min() != 0 || AESUniformBitGenerator::max() != ~0ull) mc::violation("min/max do not cover 64 bits");
  // Straight draws across several buffers.
  for (int64_t b : sizes)
    for (size_t s = 0; s < S.size(); s++) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("stream buffer=%ld seed=%zu", b, s))) continue;
      auto g = AESUniformBitGenerator::Create(S[s], b);
      MC_CHECK(g.ok(), "Create refused a valid seed: %s", g.status().message().data());
      Ref r(S[s].data());
      uint64_t at = 0, n = 3 * (b < 2 ? 2 : b) + 7;
      draw(g.ValueOrDie(), r, n, at);
      mc::report().evaluations++;
      mc::report().states += n;
    }
  // The default buffer size, and one draw beyond it.
  for (size_t s : {1, 3}) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("stream default seed=%zu", s))) continue;
    auto g = AESUniformBitGenerator::Create(S[s]);
    MC_CHECK(g.ok(), "Create refused a valid seed");
    Ref r(S[s].data());
    uint64_t at = 0;
    draw(g.ValueOrDie(), r, 3 * AESUniformBitGenerator::kDefaultBufferSize + 5, at);
    mc::report().evaluations++;
    mc::report().states += at;
  }
  // Seed bytes at every address.
  for (int off = 0; off < 32; off++)
    for (int64_t b : {2, 5, 16}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("address offset=%d buffer=%ld", off, b))) continue;
      std::unique_ptr<uint8_t[]> mem(new uint8_t[off + 32]);
      memcpy(mem.get() + off, S[6].data(), 32);
      auto g = AESUniformBitGenerator::Create(absl::MakeConstSpan(mem.get() + off, 32), b);
      MC_CHECK(g.ok(), "Create refused a valid seed");
      Ref r(S[6].data());
      uint64_t at = 0;
      draw(g.ValueOrDie(), r, 20, at);
      Ref r2(S[6].data());
      MC_CHECK(g.ValueOrDie().seed(absl::MakeConstSpan(mem.get() + off, 32)).ok(), "seed refused a valid seed");
      draw(g.ValueOrDie(), r2, 20, at);
      mc::report().evaluations++;
      mc::report().states++;
    }
  // Too short seeds.
  for (size_t n = 0; n < 32; n++) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("short seed %zu", n))) continue;
    std::unique_ptr<uint8_t[]> mem(new uint8_t[n]);
    memset(mem.get(), 7, n);
    auto g = AESUniformBitGenerator::Create(absl::MakeConstSpan(mem.get(), n), 4);
    MC_CHECK(!g.ok(), "a seed of %zu bytes is accepted", n);
    mc::report().evaluations++;
    mc::report().states++;
  }
  // Histories: draws, reseeds, refused reseeds, copies and moves.
  // 0: 1 draw, 1: 2 draws, 2: one buffer, 3: buffer + 1, 4: reseed same,
  // 5: reseed other, 6: refused reseed, 7: copy and go on with the copy, 8: 3 draws then move
  const int ops = 9;
  int depth = mc::thorough() ? 6 : 4;
  for (int64_t b : {0, 2, 3, 4, 5, 7, 8}) {
    uint64_t total = 1;
    for (int i = 0; i < depth; i++) total *= ops;
    for (uint64_t k = 0; k < total; k++) {
      if (!mc::shard_owns(idx++)) continue;
      std::string id = strf("history buffer=%ld", b);
      std::vector<int> h(depth);
      uint64_t x = k;
      for (int i = depth - 1; i >= 0; i--) { h[i] = x % ops; x /= ops; }
      for (int o : h) id += strf(" %d", o);
      if (!mc::want(id)) continue;
      auto g0 = AESUniformBitGenerator::Create(S[3], b);
      MC_CHECK(g0.ok(), "Create refused a valid seed");
      std::unique_ptr<AESUniformBitGenerator> g(new AESUniformBitGenerator(g0.ValueOrDie()));
      Ref r(S[3].data());
      uint64_t at = 0;
      for (int o : h) {
        uint64_t eff = b < 2 ? 2 : b;
        if (o == 0) draw(*g, r, 1, at);
        else if (o == 1) draw(*g, r, 2, at);
        else if (o == 2) draw(*g, r, eff, at);
        else if (o == 3) draw(*g, r, eff + 1, at);
        else if (o == 4) { MC_CHECK(g->seed(S[3]).ok(), "seed refused"); r = Ref(S[3].data()); at = 0; }
        else if (o == 5) { MC_CHECK(g->seed(S[4]).ok(), "seed refused"); r = Ref(S[4].data()); at = 0; }
        else if (o == 6) { MC_CHECK(!g->seed(absl::MakeConstSpan(S[5].data(), 31)).ok(), "short seed accepted"); }
        else if (o == 7) { std::unique_ptr<AESUniformBitGenerator> c(new AESUniformBitGenerator(*g)); draw(*g, r, 0, at); g = std::move(c); }
        else { draw(*g, r, 3, at); std::unique_ptr<AESUniformBitGenerator> c(new AESUniformBitGenerator(std::move(*g))); g = std::move(c); }
        mc::report().states++;
      }
      draw(*g, r, 2 * (b < 2 ? 2 : b) + 3, at);
      mc::report().evaluations++;
    }
  }
  // Two generators in turns, copied onto each other.
  // 0, 1: 1 draw, 2, 3: a buffer and one, 4, 5: reseed, 6, 7: copy the other
  {
    const int ops2 = 8;
    int depth2 = mc::thorough() ? 7 : 5;
    for (auto& bb : std::vector<std::pair<int64_t, int64_t>>{{2, 2}, {2, 5}, {4, 4}, {3, 8}, {7, 1}}) {
      uint64_t total = 1;
      for (int i = 0; i < depth2; i++) total *= ops2;
      const uint64_t block = 256;
      for (uint64_t k0 = 0; k0 < total; k0 += block) {
        if (!mc::shard_owns(idx++) || !mc::want(strf("two generators buffers=%ld,%ld block=%lu", bb.first, bb.second, k0 / block))) continue;
        for (uint64_t k = k0; k < std::min(total, k0 + block); k++) {
          auto g0 = AESUniformBitGenerator::Create(S[3], bb.first), g1 = AESUniformBitGenerator::Create(S[6], bb.second);
          MC_CHECK(g0.ok() && g1.ok(), "Create refused a valid seed");
          AESUniformBitGenerator g[2] = {g0.ValueOrDie(), g1.ValueOrDie()};
          Ref r[2] = {Ref(S[3].data()), Ref(S[6].data())};
          uint64_t at[2] = {0, 0};
          int64_t eff[2] = {std::max<int64_t>(bb.first, 2), std::max<int64_t>(bb.second, 2)};
          uint64_t x = k;
          for (int d = 0; d < depth2; d++, x /= ops2) {
            int o = x % ops2, w = o & 1;
            if (o < 2) draw(g[w], r[w], 1, at[w]);
            else if (o < 4) draw(g[w], r[w], eff[w] + 1, at[w]);
            else if (o < 6) {
              auto& sd = S[w ? 5 : 2];
              MC_CHECK(g[w].seed(sd).ok(), "seed refused");
              r[w] = Ref(sd.data());
              at[w] = 0;
            } else { g[w] = g[1 - w]; r[w] = r[1 - w]; at[w] = at[1 - w]; eff[w] = eff[1 - w]; }
            mc::report().states++;
          }
          for (int w = 0; w < 2; w++) draw(g[w], r[w], 2 * eff[w] + 3, at[w]);
          mc::report().evaluations++;
        }
      }
    }
  }
  // Generators whose seeds differ in one bit, one after another and in turns.
  for (int j = 0; j < 32; j++) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("neighbouring seeds byte=%d", j))) continue;
    for (size_t s : {2, 3, 6})
      for (int bit = 0; bit < 8; bit++)
        for (int64_t b : {2, 5, 64}) {
          std::vector<uint8_t> x(S[s].begin(), S[s].begin() + 32), y = x;
          y[j] ^= 1 << bit;
          auto g0 = AESUniformBitGenerator::Create(x, b), g1 = AESUniformBitGenerator::Create(y, b);
          MC_CHECK(g0.ok() && g1.ok(), "Create refused a valid seed");
          AESUniformBitGenerator g[2] = {g0.ValueOrDie(), g1.ValueOrDie()};
          Ref r[2] = {Ref(x.data()), Ref(y.data())};
          uint64_t at[2] = {0, 0};
          for (int q = 0; q < 4; q++) draw(g[q & 1], r[q & 1], 1 + q, at[q & 1]);
          MC_CHECK(g[0].seed(y).ok(), "seed refused");
          r[0] = Ref(y.data());
          at[0] = 0;
          MC_CHECK(g[1].seed(x).ok(), "seed refused");
          r[1] = Ref(x.data());
          at[1] = 0;
          for (int q = 0; q < 4; q++) draw(g[q & 1], r[q & 1], 1 + q, at[q & 1]);
          mc::report().evaluations++;
          mc::report().states++;
        }
  }
  // Long streams, large buffers, and many streams from one generator.
  for (int64_t b : {(int64_t)2, (int64_t)5, (int64_t)127, (int64_t)1024, (int64_t)32768, (int64_t)65535, (int64_t)65536, (int64_t)65537, (int64_t)131072, (int64_t)200001, (int64_t)1 << 20})
    for (size_t s : {2, 3, 6}) {
      if (!mc::shard_owns(idx++) || !mc::want(strf("long stream buffer=%ld seed=%zu", b, s))) continue;
      auto g = AESUniformBitGenerator::Create(S[s], b);
      MC_CHECK(g.ok(), "Create refused a valid seed");
      Ref r(S[s].data());
      uint64_t at = 0;
      draw(g.ValueOrDie(), r, std::max<uint64_t>(2 * b + 9, mc::thorough() ? 1 << 24 : 300000), at);
      mc::report().evaluations++;
    }
  for (int64_t b : {2, 3, 8, 1024}) {
    if (!mc::shard_owns(idx++) || !mc::want(strf("many seeds buffer=%ld", b))) continue;
    auto g = AESUniformBitGenerator::Create(S[1], b);
    MC_CHECK(g.ok(), "Create refused a valid seed");
    for (int i = 0; i < (mc::thorough() ? 70000 : 2000); i++) {
      std::vector<uint8_t> sd(32);
      for (int j = 0; j < 32; j++) sd[j] = (uint8_t)(mc::mix(i * 32 + j) >> 11);
      if (i % 3 == 1) for (int j = 20; j < 32; j++) sd[j] = 0xff;
      MC_CHECK(g.ValueOrDie().seed(sd).ok(), "seed number %d refused", i);
      Ref r(sd.data());
      uint64_t at = 0;
      draw(g.ValueOrDie(), r, i % 7 + (i % 11 == 0 ? b : 0), at);
      mc::report().evaluations++;
    }
  }
  mc::sample("buffer 5, seed with counter 2^128-2: 22 values across the wrap-around");
  mc::finish();
}
