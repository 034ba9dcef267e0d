// Offline stand-in for emp-ot: oblivious transfer as an ideal functionality run
// over the same connection. The receiver's choices reach only the functionality
// (they are recorded, not shown to the sender's code).
#ifndef EMP_OT_H_
#define EMP_OT_H_
#include <emmintrin.h>
#include <immintrin.h>
#include <string.h>

#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <cstdint>
#include <memory>
#include <vector>

#include "mc/core.h"
#include "mc/net.h"
using namespace std;  // as the original header does

namespace emp {
typedef __m128i block;
inline block makeBlock(uint64_t high, uint64_t low) { return _mm_set_epi64x((long long)high, (long long)low); }
inline block zero_block() { return _mm_setzero_si128(); }
inline block all_one_block() { return _mm_set1_epi8(-1); }
inline block xorBlocks(block a, block b) { return _mm_xor_si128(a, b); }
inline block andBlocks(block a, block b) { return _mm_and_si128(a, b); }
inline void xorBlocks_arr(block* r, const block* x, const block* y, int n) { for (int i = 0; i < n; i++) r[i] = x[i] ^ y[i]; }
inline void xorBlocks_arr(block* r, const block* x, block y, int n) { for (int i = 0; i < n; i++) r[i] = x[i] ^ y; }
inline bool block_cmp(const block* x, const block* y, int n) { return memcmp(x, y, 16 * n) == 0; }
inline bool cmpBlock(const block* x, const block* y, int n) { return block_cmp(x, y, n); }
inline bool getLSB(const block& x) { return (*(const char*)&x) & 1; }
inline void initialize_relic() {}

// Randomness of the functionality.
inline void mc_ot_random(void* p, size_t n) {
  if (!(mc::ot_rng_hook && mc::ot_rng_hook((unsigned char*)p, n))) mc::rng_fill(p, n);
}
class PRG {
 public:
  PRG(const char* = nullptr, int = 0) {}
  explicit PRG(const void*, int = 0) {}
  void random_data(void* p, int n) { mc_ot_random(p, n); }
  void random_data_unaligned(void* p, int n) { mc_ot_random(p, n); }
  void random_block(block* p, int n = 1) { mc_ot_random(p, 16 * (size_t)n); }
  void random_bool(bool* p, int n) { mc_ot_random(p, n); for (int i = 0; i < n; i++) p[i] &= 1; }
};

template <typename IO>
class SHOTExtension {
 public:
  explicit SHOTExtension(IO* io) : io_(io) {}
  void setup_send(block* = nullptr, bool* = nullptr) {}
  void setup_recv() {}

  void send(const block* d0, const block* d1, int n) {
    vector<bool> c = get_choices('O', n);
    transfer(d0, d1, n, c, false, 'O');
  }
  void recv(block* out, const bool* b, int n) { receive('O', out, b, n); }
  void send_rot(block* d0, block* d1, int n) {
    random(d0, n);
    random(d1, n);
    vector<bool> c = get_choices('R', n);
    transfer(d0, d1, n, c, false, 'R');
  }
  void recv_rot(block* out, const bool* b, int n) { receive('R', out, b, n); }
  void send_cot(block* d0, block delta, int n) {
    vector<bool> c = get_choices('D', n);
    random(d0, n);
    vector<block> d1(n);
    for (int i = 0; i < n; i++) d1[i] = d0[i] ^ delta;
    transfer(d0, d1.data(), n, c, true, 'D');
  }
  template <typename F>
  void send_cot_ft(block* d0, F corr, int n) {
    vector<bool> c = get_choices('C', n);
    random(d0, n);
    vector<block> d1(n);
    for (int i = 0; i < n; i++) d1[i] = corr(d0[i], (uint64_t)i);
    transfer(d0, d1.data(), n, c, true, 'C');
  }
  void recv_cot(block* out, const bool* b, int n) { receive('C', out, b, n); }
  void recv_cot_delta(block* out, const bool* b, int n) { receive('D', out, b, n); }

 private:
  struct InOt {
    IO* io;
    explicit InOt(IO* i) : io(i) { io->link()->in_ot[io->id()] = true; }
    ~InOt() { io->link()->in_ot[io->id()] = false; }
  };
  struct Head { uint32_t magic; char kind, pad[3]; uint64_t n; };
  void random(block* p, int n) { mc_ot_random(p, 16 * (size_t)n); }
  vector<bool> get_choices(char kind, int n) {
    io_->flush();  // the extension's own messages precede its receive
    Head h;
    io_->recv_data(&h, sizeof h);
    if (h.magic != 0x4f544f54u)
      mc::violation("parties out of step: an oblivious transfer met other data");
    if (h.kind != kind && !(kind == 'D' && h.kind == 'C'))
      mc::violation("parties out of step: oblivious transfers of different kinds (%c and %c)", kind, h.kind);
    if (h.n != (uint64_t)n)
      mc::violation("parties out of step: oblivious transfers of different lengths (%d and %lu)", n, h.n);
    vector<unsigned char> raw(n);
    if (n) io_->recv_data(raw.data(), n);
    return vector<bool>(raw.begin(), raw.end());
  }
  void transfer(const block* d0, const block* d1, int n, const vector<bool>& c, bool corr, char kind) {
    vector<block> sel(n);
    for (int i = 0; i < n; i++) sel[i] = c[i] ? d1[i] : d0[i];
    io_->link()->record_ot(io_->id(), kind, corr, d0, d1, sel.data(), c);
    InOt in(io_);
    uint32_t magic = 0x5245544fu;
    io_->send_data(&magic, 4);
    if (n) io_->send_data(sel.data(), 16 * n);  // flushing is the caller's business
  }
  void receive(char kind, block* out, const bool* b, int n) {
    InOt in(io_);
    Head h{0x4f544f54u, kind, {0, 0, 0}, (uint64_t)n};
    io_->send_data(&h, sizeof h);
    if (n) io_->send_data(b, n);
    io_->flush();
    uint32_t magic = 0;
    io_->recv_data(&magic, 4);
    if (magic != 0x5245544fu)
      mc::violation("parties out of step: an oblivious transfer met other data");
    if (n) io_->recv_data(out, 16 * n);
  }
  IO* io_;
};
template <typename IO> using MOTExtension = SHOTExtension<IO>;
template <typename IO> using IKNP = SHOTExtension<IO>;
template <typename IO> using NPOT = SHOTExtension<IO>;
template <typename IO> using OTNP = SHOTExtension<IO>;
}  // namespace emp
#endif
