// A happens-before race detector for the controlled scheduler: the run-time
// side of -fsanitize=thread. Only accesses of the same party's threads are
// compared, and only while that party has several threads. One logical thread
// runs at a time; what orders two accesses is what the program synchronises on
// (teams, barriers, locks, ordered sections, atomics), not the scheduler.
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "mc/core.h"

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}
namespace {
constexpr int kT = 64;
typedef uint32_t Epoch;                         // clock << 6 | thread
struct VC { uint32_t c[kT]; };
struct Cell { Epoch w, r; };                    // r: 0 none, ~0u several (see Readers)
constexpr size_t kPageBits = 12, kPage = 1 << kPageBits;
struct Readers { VC v; };
struct Page {
  uintptr_t key;
  uint32_t tag;
  Cell cell[kPage];
  uint32_t shared[kPage];                       // index into g_readers if r == ~0u
  uintptr_t wpc[kPage];
  uintptr_t rpc[kPage];
};
constexpr size_t kBuckets = 1 << 16;
Page* g_pages[kBuckets];                        // open addressing
uint32_t g_tag = 1;
VC g_vc[kT];
int g_party[kT];
int g_roots[3], g_parallel[3];
uint64_t g_accesses = 0;
Readers* g_readers = nullptr;
uint32_t g_nreaders = 0, g_cap_readers = 0;
struct Sync { const void* o; uint32_t tag; VC v; };
constexpr size_t kSyncs = 1 << 12;
Sync* g_sync[kSyncs];
volatile int g_lock = 0;
struct Lock {
  Lock() { while (__atomic_exchange_n(&g_lock, 1, __ATOMIC_ACQUIRE)) ; }
  ~Lock() { __atomic_store_n(&g_lock, 0, __ATOMIC_RELEASE); }
};
int idx(int party) { return party == 0 || party == 1 ? party : 2; }
Page* page(uintptr_t a, bool make) {
  uintptr_t k = a >> kPageBits;
  size_t h = (k * 0x9e3779b97f4a7c15ull) >> 48;
  for (;; h = (h + 1) % kBuckets) {
    Page* p = g_pages[h];
    if (!p) {
      if (!make) return nullptr;
      p = (Page*)__libc_calloc(1, sizeof(Page));
      p->key = k;
      p->tag = g_tag;
      g_pages[h] = p;
      return p;
    }
    if (p->key == k) {
      if (p->tag != g_tag) {
        if (!make) return nullptr;
        memset(p->cell, 0, sizeof p->cell);
        p->tag = g_tag;
      }
      return p;
    }
  }
}
void clear(const void* p, size_t n) {
  if (!p || !n) return;
  bool any = g_parallel[0] + g_parallel[1] + g_parallel[2] > 0;
  if (!any) return;                             // nothing is compared until the next fork
  Lock l;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    uintptr_t pe = ((a >> kPageBits) + 1) << kPageBits;
    if (pe > e) pe = e;
    if (Page* q = page(a, false))
      for (uintptr_t x = a; x < pe; x++) q->cell[x & (kPage - 1)] = Cell{0, 0};
    a = pe;
  }
}
bool before(Epoch e, const VC& v) { return (e >> 6) <= v.c[e & 63]; }
std::string where(uintptr_t pc) {
  char exe[512];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n <= 0) return "?";
  exe[n] = 0;
  Dl_info di;
  uintptr_t base = 0;
  if (dladdr((void*)pc, &di)) base = (uintptr_t)di.dli_fbase;
  std::string cmd = mc::strf("addr2line -ie '%s' 0x%lx 2>/dev/null | sed 's,.*distributed_vector_ole,,;s,^/usr/include/[^ ]*/,,' | paste -sd' ' | cut -c1-200", exe, (long)(pc - base - 1));
  FILE* f = popen(cmd.c_str(), "r");
  if (!f) return "?";
  char buf[512] = "";
  if (!fgets(buf, sizeof buf, f)) buf[0] = 0;
  pclose(f);
  for (char* c = buf; *c; c++) if (*c == '\n') *c = 0;
  return buf;
}
[[noreturn]] void race(const char* a, uintptr_t pa, const char* b, uintptr_t pb, int ta, int tb) {
  g_parallel[0] = g_parallel[1] = g_parallel[2] = 0;
  __atomic_store_n(&g_lock, 0, __ATOMIC_RELEASE);
  mc::violation("unsynchronised accesses to shared memory: thread %d %s at %s; thread %d %s at %s", ta, a, where(pa).c_str(), tb, b, where(pb).c_str());
}
void access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  int t = mc::self_thread();
  if (t < 0 || t >= kT) return;
  int party = idx(mc::self_party());
  if (!g_parallel[party]) return;
  Lock l;
  g_accesses++;
  VC& me = g_vc[t];
  Epoch now = me.c[t] << 6 | (uint32_t)t;
  for (size_t i = 0; i < n; i++) {
    uintptr_t x = a + i;
    Page* p = page(x, true);
    size_t o = x & (kPage - 1);
    Cell& c = p->cell[o];
    if (write ? c.w == now && c.r == 0 : c.w == 0 && c.r == now) continue;
    if (c.w && idx(g_party[c.w & 63]) == party && !before(c.w, me)) race("writes", p->wpc[o], write ? "writes" : "reads", pc, c.w & 63, t);
    if (write) {
      if (c.r == ~0u) {
        VC& v = g_readers[p->shared[o]].v;
        for (int k = 0; k < kT; k++)
          if (v.c[k] > me.c[k] && idx(g_party[k]) == party) race("reads", p->rpc[o], "writes", pc, k, t);
      } else if (c.r && idx(g_party[c.r & 63]) == party && !before(c.r, me)) {
        race("reads", p->rpc[o], "writes", pc, c.r & 63, t);
      }
      c.w = now;
      c.r = 0;
      p->wpc[o] = pc;
    } else {
      if (c.r == 0 || (c.r != ~0u && before(c.r, me))) {
        c.r = now;
      } else if (c.r != ~0u) {
        if (c.r != now) {
          if (g_nreaders == g_cap_readers) {
            g_cap_readers = g_cap_readers ? 2 * g_cap_readers : 1024;
            g_readers = (Readers*)__libc_realloc(g_readers, g_cap_readers * sizeof(Readers));
          }
          VC& v = g_readers[g_nreaders].v;
          memset(&v, 0, sizeof v);
          v.c[c.r & 63] = c.r >> 6;
          v.c[t] = me.c[t];
          p->shared[o] = g_nreaders++;
          c.r = ~0u;
        }
      } else {
        g_readers[p->shared[o]].v.c[t] = me.c[t];
      }
      p->rpc[o] = pc;
    }
  }
}
Sync* sync(const void* o, bool make) {
  size_t h = ((uintptr_t)o * 0x9e3779b97f4a7c15ull) >> 52;
  for (size_t k = 0; k < kSyncs; k++, h = (h + 1) % kSyncs) {
    Sync*& s = g_sync[h];
    if (!s) {
      if (!make) return nullptr;
      s = (Sync*)__libc_calloc(1, sizeof(Sync));
      s->o = o;
      s->tag = g_tag;
      return s;
    }
    if (s->o == o || (make && s->tag != g_tag)) {
      if (s->o != o || s->tag != g_tag) { memset(&s->v, 0, sizeof s->v); s->o = o; s->tag = g_tag; }
      return s;
    }
  }
  return nullptr;
}
}  // namespace

extern "C" {
uint64_t mc_hb_accesses() { return g_accesses; }
void mc_hb_reset() {
  Lock l;
  g_tag++;
  memset(g_vc, 0, sizeof g_vc);
  for (int i = 0; i < kT; i++) g_vc[i].c[i] = 1;
  memset(g_roots, 0, sizeof g_roots);
  memset(g_parallel, 0, sizeof g_parallel);
  g_nreaders = 0;
}
void mc_hb_thread_start(int parent, int child, int party) {
  if (child >= kT) return;
  Lock l;
  g_party[child] = party;
  if (parent < 0) {
    if (++g_roots[idx(party)] > 1) g_parallel[idx(party)] = 1 << 20;
  }
}
// A team of several threads starts (+1) or has ended (-1).
void mc_hb_region(int party, int d) { Lock l; g_parallel[idx(party)] += d; }
void mc_hb_release(const void* o) {
  int t = mc::self_thread();
  if (t < 0 || t >= kT) return;
  Lock l;
  Sync* s = sync(o, true);
  if (!s) return;
  for (int k = 0; k < kT; k++) if (g_vc[t].c[k] > s->v.c[k]) s->v.c[k] = g_vc[t].c[k];
  g_vc[t].c[t]++;
}
void mc_hb_acquire(const void* o) {
  int t = mc::self_thread();
  if (t < 0 || t >= kT) return;
  Lock l;
  Sync* s = sync(o, false);
  if (!s || s->tag != g_tag) return;
  for (int k = 0; k < kT; k++) if (s->v.c[k] > g_vc[t].c[k]) g_vc[t].c[k] = s->v.c[k];
}
void mc_hb_write(const void* p, size_t n) { access((uintptr_t)p, n, true, (uintptr_t)__builtin_return_address(0)); }

#define PC (uintptr_t)__builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                     \
  void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, PC); }            \
  void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, PC); }            \
  void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, PC); }  \
  void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, PC); }  \
  void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, PC); }   \
  void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { access((uintptr_t)p, 8, *p != v, PC); }
#define ATOMIC(B, T)                                                                                              \
  T __tsan_atomic##B##_load(const volatile T* a, int) { T v = __atomic_load_n(a, 5); mc_hb_acquire((void*)a); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { mc_hb_release((void*)a); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) {                                                        \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_exchange_n(a, v, 5); }                      \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) {                                                       \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_fetch_add(a, v, 5); }                       \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) {                                                       \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_fetch_sub(a, v, 5); }                       \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) {                                                       \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_fetch_and(a, v, 5); }                       \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) {                                                        \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_fetch_or(a, v, 5); }                        \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) {                                                       \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_fetch_xor(a, v, 5); }                       \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) {                                                      \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_fetch_nand(a, v, 5); }                      \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {                           \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) {                             \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) {                                  \
    mc_hb_acquire((void*)a); mc_hb_release((void*)a);                                                             \
    __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Memory that is handed out (again) has no history.
void* malloc(size_t n) { void* p = __libc_malloc(n); clear(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); clear(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p != q) clear(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); clear(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
void free(void* p) {
  if (p) clear(p, malloc_usable_size(p));
  __libc_free(p);
}
// Initialisation of function-local statics.
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); mc_hb_acquire(g); return r; }
void __wrap___cxa_guard_release(uint64_t* g) { mc_hb_release(g); __real___cxa_guard_release(g); }
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }
void __real_AES_encrypt(const uint8_t*, uint8_t*, const void*);
void __wrap_AES_encrypt(const uint8_t* in, uint8_t* out, const void* k) {
  access((uintptr_t)in, 16, false, PC);
  access((uintptr_t)k, 176, false, PC);
  access((uintptr_t)out, 16, true, PC);
  __real_AES_encrypt(in, out, k);
}
int __real_AES_set_encrypt_key(const uint8_t*, unsigned, void*);
int __wrap_AES_set_encrypt_key(const uint8_t* in, unsigned bits, void* k) {
  access((uintptr_t)in, bits / 8, false, PC);
  access((uintptr_t)k, 176, true, PC);
  return __real_AES_set_encrypt_key(in, bits, k);
}
int __real_RAND_bytes(uint8_t*, size_t);
int __wrap_RAND_bytes(uint8_t* p, size_t n) { access((uintptr_t)p, n, true, PC); return __real_RAND_bytes(p, n); }
}
