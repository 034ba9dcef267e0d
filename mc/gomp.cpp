// A small OpenMP runtime under the control of the cooperative scheduler. It
// replaces libgomp: every synchronisation operation is a scheduling point.
#include "mc/gomp.h"

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>

#include <algorithm>
#include <map>
#include <memory>
#include <vector>

#include "mc/core.h"

namespace mc {
OmpCfg omp_cfg[3];
static uint64_t g_regions = 0;
uint64_t omp_regions() { return g_regions; }

namespace {
enum Kind { STATIC, DYNAMIC, GUIDED };
struct WorkShare {
  bool init = false;
  Kind kind = DYNAMIC;
  bool up = true;
  // Iteration space in "iterations": start + k*incr for k in [0, total).
  int64_t start = 0, incr = 1;
  uint64_t total = 0, next = 0, chunk = 1;
  bool ordered = false;
  uint64_t ordered_next = 0;                    // next iteration index to enter
  std::map<uint64_t, uint64_t> ordered_done;    // iterations passed without waiting
  std::vector<uint64_t> static_trip;            // per thread
  int sections_next = 1;
  int left = 0;
  bool single_taken = false;
  void* copy = nullptr;
};
struct Team {
  int size = 1;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  uint64_t bar_gen = 0;
  int bar_in = 0;
  int running = 0;
  std::map<uint64_t, std::unique_ptr<WorkShare>> ws;
  // preset work share of a combined parallel loop
  bool preset = false;
  WorkShare pre;
  char hb_fork, hb_join, hb_bar[2];             // what the race detector synchronises on
};
struct TeamState {
  Team* team = nullptr;
  int tid = 0;
  uint64_t ws_seq = 0;
  WorkShare* cur = nullptr;
  int level = 0;
  uint64_t chunk_begin = 0, chunk_end = 0;      // for ordered
  uint64_t ord_cursor = 0;
  bool in_ordered = false;
};
void ordered_chunk_done(WorkShare* w);
struct Worker {
  int lid = -1;
  Team* job = nullptr;
  int tid = 0;
  int level = 0;
  bool quit = false;
  bool idle = true;
};
struct Pool { std::vector<std::unique_ptr<Worker>> w; };
thread_local TeamState ts;
thread_local Pool* t_pool = nullptr;
thread_local int t_num_threads = 0;             // omp_set_num_threads

bool scheduled() { return Sched::cur() && self_thread() >= 0; }
OmpCfg& cfg() {
  int p = self_party();
  return omp_cfg[p == 0 || p == 1 ? p : 2];
}
void point(const char* w) {
  if (scheduled() && ts.team && ts.team->size > 1) Sched::cur()->point(w);
}
void hb_rel(const void* o) { if (mc_hb_release) mc_hb_release(o); }
void hb_acq(const void* o) { if (mc_hb_acquire) mc_hb_acquire(o); }

void barrier() {
  Team* t = ts.team;
  if (!t || t->size == 1) return;
  uint64_t gen = t->bar_gen;
  char* hb = &t->hb_bar[gen & 1];
  hb_rel(hb);
  if (++t->bar_in == t->size) {
    t->bar_in = 0;
    t->bar_gen++;
    point("barrier");
  } else {
    Sched::cur()->block([t, gen] { return t->bar_gen != gen; }, "an OpenMP barrier");
  }
  hb_acq(hb);
}

void worker_main(Worker* w) {
  for (;;) {
    Sched::cur()->block([w] { return w->job || w->quit; }, "work");
    if (w->quit) return;
    Team* t = w->job;
    hb_acq(&t->hb_fork);
    ts = TeamState();
    ts.team = t;
    ts.tid = w->tid;
    ts.level = w->level;
    if (t->preset) { /* combined loop: the body asks for chunks itself */ }
    t->fn(t->data);
    ts = TeamState();
    hb_rel(&t->hb_join);
    w->job = nullptr;
    t->running--;
  }
}

void run_team(Team& t, void (*fn)(void*), void* data, unsigned num_threads) {
  g_regions++;
  OmpCfg& c = cfg();
  int n = num_threads ? (int)num_threads
                      : (t_num_threads ? t_num_threads : c.team);
  if (ts.team && ts.level >= 1) n = 1;          // no nested parallelism
  if (!scheduled()) n = 1;
  if (n < 1) n = 1;
  if (n > 16) n = 16;
  // A runtime may deliver fewer threads than asked for.
  if (c.team < c.max_threads && n > c.team) n = c.team;
  t.size = n;
  t.fn = fn;
  t.data = data;
  TeamState saved = ts;
  if (n > 1) {
    if (!t_pool) t_pool = new Pool;
    while ((int)t_pool->w.size() < n - 1) {
      Worker* w = new Worker;
      t_pool->w.emplace_back(w);
      w->lid = Sched::cur()->spawn([w] { worker_main(w); }, self_party());
    }
    hb_rel(&t.hb_fork);
    if (mc_hb_region) mc_hb_region(self_party(), 1);
    t.running = n - 1;
    for (int i = 1; i < n; i++) {
      Worker* w = t_pool->w[i - 1].get();
      w->tid = i;
      w->level = saved.level + 1;
      w->job = &t;
    }
  }
  ts = TeamState();
  ts.team = &t;
  ts.tid = 0;
  ts.level = saved.level + 1;
  point("parallel region start");
  fn(data);
  if (n > 1) {
    Team* tp = &t;
    Sched::cur()->block([tp] { return tp->running == 0; }, "the end of a parallel region");
    hb_acq(&t.hb_join);
    if (mc_hb_region) mc_hb_region(self_party(), -1);
  }
  ts = saved;
}

Team& team_or_solo() {
  static thread_local Team solo;
  if (!ts.team) { ts.team = &solo; solo.size = 1; }
  return *ts.team;
}

WorkShare* enter_ws(bool* first) {
  Team& t = team_or_solo();
  uint64_t id = ts.ws_seq++;
  auto& p = t.ws[id];
  if (!p) { p.reset(new WorkShare); p->left = t.size; p->static_trip.assign(t.size, 0); }
  ts.cur = p.get();
  *first = !p->init;
  return p.get();
}
void leave_ws() {
  Team& t = team_or_solo();
  WorkShare* w = ts.cur;
  ts.cur = nullptr;
  if (!w) return;
  ordered_chunk_done(w);
  ts.ord_cursor = ts.chunk_end = 0;
  if (--w->left == 0) {
    for (auto it = t.ws.begin(); it != t.ws.end(); ++it)
      if (it->second.get() == w) { t.ws.erase(it); break; }
  }
}
void init_loop(WorkShare* w, Kind k, int64_t s, int64_t e, int64_t inc, int64_t chunk, bool ord) {
  w->init = true;
  w->kind = k;
  w->start = s;
  w->incr = inc;
  w->ordered = ord;
  if (inc > 0) w->total = s < e ? ((uint64_t)(e - s) + inc - 1) / inc : 0;
  else w->total = s > e ? ((uint64_t)(s - e) + (-inc) - 1) / (-inc) : 0;
  w->chunk = chunk < 0 ? 0 : chunk;
  if (k != STATIC && w->chunk == 0) w->chunk = 1;
}
void ordered_advance(WorkShare* w) {
  for (auto it = w->ordered_done.find(w->ordered_next); it != w->ordered_done.end();
       it = w->ordered_done.find(w->ordered_next))
    w->ordered_next = it->second;
}
// A thread is done with its chunk; iterations without an ordered block count
// as passed.
void ordered_chunk_done(WorkShare* w) {
  if (w->ordered && ts.ord_cursor < ts.chunk_end) {
    w->ordered_done[ts.ord_cursor] = ts.chunk_end;
    ts.ord_cursor = ts.chunk_end;
    ordered_advance(w);
  }
}
bool grab(WorkShare* w, uint64_t* b, uint64_t* e) {
  int n = ts.team->size;
  if (w->kind == STATIC) {
    uint64_t& trip = w->static_trip[ts.tid];
    if (w->chunk == 0) {
      if (trip) return false;
      trip = 1;
      uint64_t q = w->total / n, r = w->total % n;
      uint64_t lo = ts.tid * q + std::min<uint64_t>(ts.tid, r);
      uint64_t hi = lo + q + ((uint64_t)ts.tid < r ? 1 : 0);
      if (lo >= hi) return false;
      *b = lo; *e = hi;
      return true;
    }
    uint64_t lo = (trip * n + ts.tid) * w->chunk;
    trip++;
    if (lo >= w->total) return false;
    *b = lo; *e = std::min(lo + w->chunk, w->total);
    return true;
  }
  point("loop chunk");
  if (w->next >= w->total) return false;
  uint64_t c = w->chunk;
  if (w->kind == GUIDED) c = std::max<uint64_t>(w->chunk, (w->total - w->next + n - 1) / n);
  *b = w->next;
  *e = std::min(w->next + c, w->total);
  w->next = *e;
  return true;
}
template <typename I>
bool next_chunk(I* is, I* ie) {
  WorkShare* w = ts.cur;
  if (!w) return false;
  ordered_chunk_done(w);
  uint64_t b, e;
  if (!grab(w, &b, &e)) return false;
  ts.chunk_begin = ts.ord_cursor = b;
  ts.chunk_end = e;
  *is = (I)(w->start + (int64_t)b * w->incr);
  *ie = (I)(w->start + (int64_t)e * w->incr);
  return true;
}
template <typename I>
bool start_loop(Kind k, int64_t s, int64_t e, int64_t inc, int64_t chunk, bool ord, I* is, I* ie) {
  bool first;
  WorkShare* w = enter_ws(&first);
  if (first) init_loop(w, k, s, e, inc, chunk, ord);
  if (is == nullptr) return true;
  return next_chunk(is, ie);
}
void run_loop_team(void (*fn)(void*), void* data, unsigned nt, Kind k, int64_t s, int64_t e,
                   int64_t inc, int64_t chunk) {
  // A combined construct: preset the first work share for all threads.
  struct Ctx { void (*fn)(void*); void* data; Kind k; int64_t s, e, inc, chunk; } c{fn, data, k, s, e, inc, chunk};
  Team t;
  run_team(t, [](void* p) {
    Ctx* c = (Ctx*)p;
    bool first;
    WorkShare* w = enter_ws(&first);
    if (first) init_loop(w, c->k, c->s, c->e, c->inc, c->chunk, false);
    c->fn(c->data);
  }, &c, nt);
}
struct Lock { bool held = false; int owner = -1; int depth = 0; };
std::map<const void*, Lock>& locks() { static std::map<const void*, Lock> m; return m; }
void lock(const void* a, bool nested = false) {
  Lock* l = &locks()[a];
  if (scheduled()) {
    point("lock");
    int me = self_thread();
    if (nested && l->held && l->owner == me) { l->depth++; return; }
    Sched::cur()->block([l] { return !l->held; }, "a lock");
    l->owner = me;
  }
  l->held = true;
  l->depth = 1;
  hb_acq(a);
}
void unlock(const void* a) {
  Lock& l = locks()[a];
  if (--l.depth > 0) return;
  hb_rel(a);
  l.held = false;
  l.owner = -1;
  point("unlock");
}
char k_critical, k_atomic;
}  // namespace

void omp_thread_exit() {
  if (!t_pool) return;
  // Workers end with their master thread.
  for (auto& w : t_pool->w) w->quit = true;
  for (auto& w : t_pool->w) {
    int id = w->lid;
    Sched::cur()->block([id] { return Sched::cur()->finished(id); }, "workers to exit");
  }
  delete t_pool;
  t_pool = nullptr;
}
}  // namespace mc

using namespace mc;
extern "C" {
typedef void (*ompfn)(void*);
void GOMP_parallel(ompfn fn, void* data, unsigned nt, unsigned) { Team t; run_team(t, fn, data, nt); }
static thread_local Team* t_open_team = nullptr;
void GOMP_parallel_start(ompfn fn, void* data, unsigned nt) { GOMP_parallel(fn, data, 1, 0); (void)nt; }
void GOMP_parallel_end(void) {}
#define PLOOP(NAME, K)                                                                            \
  void GOMP_parallel_loop_##NAME(ompfn fn, void* d, unsigned nt, long s, long e, long i, long c,  \
                                 unsigned) { run_loop_team(fn, d, nt, K, s, e, i, c); }
PLOOP(static, STATIC)
PLOOP(dynamic, DYNAMIC)
PLOOP(guided, GUIDED)
PLOOP(nonmonotonic_dynamic, DYNAMIC)
PLOOP(nonmonotonic_guided, GUIDED)
#define PLOOPR(NAME)                                                                              \
  void GOMP_parallel_loop_##NAME(ompfn fn, void* d, unsigned nt, long s, long e, long i,          \
                                 unsigned) { run_loop_team(fn, d, nt, DYNAMIC, s, e, i, 1); }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(NAME, K, ORD)                                                                        \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) {             \
    return start_loop<long>(K, s, e, i, c, ORD, is, ie);                                          \
  }                                                                                               \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return next_chunk<long>(is, ie); }
LOOP(static, STATIC, false)
LOOP(dynamic, DYNAMIC, false)
LOOP(guided, GUIDED, false)
LOOP(nonmonotonic_dynamic, DYNAMIC, false)
LOOP(nonmonotonic_guided, GUIDED, false)
LOOP(ordered_static, STATIC, true)
LOOP(ordered_dynamic, DYNAMIC, true)
LOOP(ordered_guided, GUIDED, true)
#define LOOPR(NAME, ORD)                                                                          \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) {                     \
    return start_loop<long>(DYNAMIC, s, e, i, 1, ORD, is, ie);                                    \
  }                                                                                               \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return next_chunk<long>(is, ie); }
LOOPR(runtime, false)
LOOPR(nonmonotonic_runtime, false)
LOOPR(maybe_nonmonotonic_runtime, false)
LOOPR(ordered_runtime, true)
typedef unsigned long long ull;
#define ULOOP(NAME, K, ORD)                                                                       \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) {      \
    return start_loop<ull>(K, (int64_t)s, (int64_t)e, (int64_t)i, (int64_t)c, ORD, is, ie);       \
    (void)up;                                                                                     \
  }                                                                                               \
  bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return next_chunk<ull>(is, ie); }
ULOOP(static, STATIC, false)
ULOOP(dynamic, DYNAMIC, false)
ULOOP(guided, GUIDED, false)
ULOOP(nonmonotonic_dynamic, DYNAMIC, false)
ULOOP(nonmonotonic_guided, GUIDED, false)
ULOOP(ordered_static, STATIC, true)
ULOOP(ordered_dynamic, DYNAMIC, true)
ULOOP(ordered_guided, GUIDED, true)
void GOMP_loop_end(void) { barrier(); leave_ws(); }
void GOMP_loop_end_nowait(void) { leave_ws(); }
bool GOMP_loop_end_cancel(void) { barrier(); leave_ws(); return false; }
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t*, void** mem) {
  if (mem) *mem = nullptr;
  Kind k = (sched & 0xf) == 1 ? STATIC : (sched & 0xf) == 3 ? GUIDED : DYNAMIC;
  return start_loop<long>(k, s, e, i, c, false, is, ie);
}
void GOMP_ordered_start(void) {
  WorkShare* w = ts.cur;
  if (!w || ts.team->size == 1) return;
  uint64_t it = ts.ord_cursor;
  point("ordered");
  Sched::cur()->block([w, it] { return w->ordered_next == it; }, "its turn in an ordered region");
  hb_acq(&w->ordered_next);
}
void GOMP_ordered_end(void) {
  WorkShare* w = ts.cur;
  if (!w || ts.team->size == 1) return;
  hb_rel(&w->ordered_next);
  w->ordered_next++;
  ts.ord_cursor++;
  ordered_advance(w);
  point("ordered end");
}
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { lock(&k_critical); }
void GOMP_critical_end(void) { unlock(&k_critical); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&k_atomic); }
void GOMP_atomic_end(void) { unlock(&k_atomic); }
bool GOMP_single_start(void) {
  bool first;
  WorkShare* w = enter_ws(&first);
  w->init = true;
  point("single");
  bool mine = !w->single_taken;
  w->single_taken = true;
  leave_ws();
  return mine;
}
void* GOMP_single_copy_start(void) {
  bool first;
  WorkShare* w = enter_ws(&first);
  w->init = true;
  if (!w->single_taken) { w->single_taken = true; return nullptr; }
  barrier();
  void* r = w->copy;
  leave_ws();
  return r;
}
void GOMP_single_copy_end(void* d) { ts.cur->copy = d; barrier(); leave_ws(); }
static unsigned sec_next() {
  WorkShare* w = ts.cur;
  point("section");
  if (w->sections_next > (int)w->total) return 0;
  return w->sections_next++;
}
unsigned GOMP_sections_start(unsigned n) {
  bool first;
  WorkShare* w = enter_ws(&first);
  if (first) { w->init = true; w->total = n; }
  return sec_next();
}
unsigned GOMP_sections_next(void) { return sec_next(); }
void GOMP_sections_end(void) { barrier(); leave_ws(); }
void GOMP_sections_end_nowait(void) { leave_ws(); }
void GOMP_parallel_sections(ompfn fn, void* d, unsigned nt, unsigned n, unsigned) {
  struct Ctx { ompfn fn; void* d; unsigned n; } c{fn, d, n};
  Team t;
  run_team(t, [](void* p) {
    Ctx* c = (Ctx*)p;
    bool first;
    WorkShare* w = enter_ws(&first);
    if (first) { w->init = true; w->total = c->n; }
    c->fn(c->d);
  }, &c, nt);
}
// Tasks run at once in the creating thread (a legal schedule).
void GOMP_task(ompfn fn, void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned,
               void**, int, void*) {
  if (cpy) {
    std::vector<char> buf(size + align);
    char* p = (char*)(((uintptr_t)buf.data() + align - 1) / align * align);
    cpy(p, data);
    fn(p);
  } else {
    fn(data);
  }
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { point("taskyield"); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_taskloop(ompfn fn, void* data, void (*cpy)(void*, void*), long size, long align, unsigned,
                   unsigned long, int, long s, long e, long) {
  std::vector<char> buf(size + align);
  char* p = (char*)(((uintptr_t)buf.data() + align - 1) / align * align);
  if (cpy) cpy(p, data); else memcpy(p, data, size);
  ((long*)p)[0] = s;
  ((long*)p)[1] = e;
  fn(p);
}
int omp_get_thread_num(void) { return ts.team ? ts.tid : 0; }
int omp_get_num_threads(void) { return ts.team ? ts.team->size : 1; }
int omp_get_max_threads(void) { return t_num_threads ? t_num_threads : cfg().max_threads; }
int omp_get_num_procs(void) { return cfg().max_threads; }
int omp_in_parallel(void) { return ts.team && ts.team->size > 1; }
int omp_get_level(void) { return ts.level; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_thread_limit(void) { return 64; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_num_threads(int n) { t_num_threads = n > 0 ? n : 1; }
double omp_get_wtime(void) {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void* l) { locks()[l] = Lock(); }
void omp_destroy_lock(void* l) { locks().erase(l); }
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }
int omp_test_lock(void* l) {
  if (locks()[l].held) return 0;
  lock(l);
  return 1;
}
void omp_init_nest_lock(void* l) { locks()[l] = Lock(); }
void omp_destroy_nest_lock(void* l) { locks().erase(l); }
void omp_set_nest_lock(void* l) { lock(l, true); }
void omp_unset_nest_lock(void* l) { unlock(l); }
}
