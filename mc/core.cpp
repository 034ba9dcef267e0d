#include "mc/core.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <memory>

#include "mc/gomp.h"

namespace mc {

// ---------------------------------------------------------------- reporting
namespace {
Report g_report;
std::string g_case, g_only, g_out = "/dev/null";
char* g_case_shm = nullptr;
constexpr size_t kCaseShm = 16384;
uint64_t g_shard = 0, g_shards = 1;
double g_t0 = 0, g_case_t = 0;
bool g_in_probe = false;
int g_probe_fd = -1;

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
void write_result(const char* verdict, const std::string& msg, bool exhaustive) {
  std::string s = "{\"verdict\":\"" + std::string(verdict) + "\"";
  auto num = [&](const char* k, uint64_t v) {
    s += ",\"" + std::string(k) + "\":" + std::to_string(v);
  };
  num("evaluations", g_report.evaluations);
  num("nontrivial", g_report.nontrivial);
  num("states", g_report.states);
  num("transitions", g_report.transitions);
  num("schedules", g_report.schedules);
  s += std::string(",\"exhaustive\":") + (exhaustive ? "true" : "false");
  s += ",\"counters\":{";
  bool first = true;
  for (auto& c : g_report.counters) {
    if (!first) s += ",";
    first = false;
    s += "\"" + json_escape(c.first) + "\":" + std::to_string(c.second);
  }
  s += "},\"samples\":[";
  for (size_t i = 0; i < g_report.samples.size(); i++)
    s += (i ? ",\"" : "\"") + json_escape(g_report.samples[i]) + "\"";
  s += "],\"known\":[";
  for (size_t i = 0; i < g_report.known.size(); i++)
    s += (i ? ",\"" : "\"") + json_escape(g_report.known[i]) + "\"";
  s += "],\"case\":\"" + json_escape(g_case) + "\",\"message\":\"" +
       json_escape(msg) + "\"}\n";
  int fd = open(g_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    size_t off = 0;
    while (off < s.size()) {
      ssize_t w = write(fd, s.data() + off, s.size() - off);
      if (w <= 0) break;
      off += w;
    }
    close(fd);
  }
}
}  // namespace

Report& report() { return g_report; }
bool thorough() { return g_report.tier == "thorough"; }
double elapsed() { return now() - g_t0; }
bool replaying() { return !g_only.empty(); }
const std::string& current_case() { return g_case; }
void set_case(const std::string& id) {
  g_case = id;
  g_case_t = now();
  if (g_case_shm && !g_in_probe) {
    size_t n = std::min(id.size(), kCaseShm - 1);
    memcpy(g_case_shm, id.data(), n);
    g_case_shm[n] = 0;
  }
}
bool want(const std::string& id) {
  if (!g_only.empty() && id != g_only) return false;
  set_case(id);
  return true;
}
bool shard_owns(uint64_t i) { return !g_only.empty() || i % g_shards == g_shard; }

std::string strf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char* p = nullptr;
  int n = vasprintf(&p, fmt, ap);
  va_end(ap);
  std::string s(p, n);
  free(p);
  return s;
}

void violation(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char* p = nullptr;
  int n = vasprintf(&p, fmt, ap);
  va_end(ap);
  std::string msg(p, n);
  free(p);
  if (explorer()) msg += " [schedule " + explorer()->trace() + "]";
  if (g_in_probe) {
    if (g_probe_fd >= 0) { ssize_t w = write(g_probe_fd, msg.data(), msg.size()); (void)w; }
    _exit(1);
  }
  fprintf(stdout, "violated: case=%s: %s\n", g_case.c_str(), msg.c_str());
  fflush(stdout);
  write_result("violation", msg, false);
  _exit(1);
}
bool is_known(const std::string& key) {
  static std::set<std::string>* keys = nullptr;
  if (!keys) {
    keys = new std::set<std::string>;
    if (FILE* f = fopen(((getenv("MC_ROOT") ? std::string(getenv("MC_ROOT")) : std::string("/verif")) + "/known_findings.txt").c_str(), "r")) {
      char line[4096];
      while (fgets(line, sizeof line, f)) {
        char prop[64], k[256];
        if (sscanf(line, "known: property=%63s key=%255s", prop, k) == 2)
          keys->insert(std::string(prop) + " " + k);
      }
      fclose(f);
    }
  }
  return keys->count(g_report.property + " " + key) > 0;
}
void known_or_violation(const std::string& key, const std::string& msg) {
  if (!is_known(key)) violation("%s (%s)", msg.c_str(), key.c_str());
  std::string s = key + ": " + msg;
  for (auto& k : g_report.known) if (k == s) return;
  if (g_report.known.size() < 50) g_report.known.push_back(s);
}
void sample(const std::string& s) {
  if (g_report.samples.size() < 12) g_report.samples.push_back(s);
}
void count(const char* key, uint64_t n) { g_report.counters[key] += n; }

void init(int argc, char** argv, const char* property) {
  g_t0 = now();
  is_known("");
  g_report.property = property;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") g_report.tier = val();
    else if (a == "--seed") g_report.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") g_out = val();
    else if (a == "--only") g_only = val();
    else if (a == "--shard") {
      std::string v = val();
      sscanf(v.c_str(), "%lu/%lu", &g_shard, &g_shards);
    } else if (a == "--casefile") {
      int fd = open(val().c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, kCaseShm) == 0) {
        g_case_shm = (char*)mmap(0, kCaseShm, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_case_shm == MAP_FAILED) g_case_shm = nullptr;
      }
      if (fd >= 0) close(fd);
    }
  }
  rng_reset(g_report.seed);
}
void finish(bool exhaustive) {
  if (replaying() && g_report.evaluations == 0)
    fprintf(stdout, "replay: case not found\n");
  if (mc_hb_accesses) count("accesses_compared", mc_hb_accesses());
  write_result("held", "", exhaustive);
  fflush(stdout);
  fflush(stderr);
  _exit(0);
}

int probe(const std::function<bool()>& f, int seconds, std::string* note) {
  int p[2];
  if (pipe(p) != 0) abort();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    g_in_probe = true;
    g_probe_fd = p[1];
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    alarm(seconds);
    bool ok = false;
    try { ok = f(); } catch (...) { _exit(2); }
    _exit(ok ? 0 : 1);
  }
  close(p[1]);
  std::string s;
  char buf[4096];
  ssize_t r;
  while ((r = read(p[0], buf, sizeof buf)) > 0) s.append(buf, r);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (note) *note = s;
  if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    return c == 0 ? 0 : c == 1 ? 1 : 2;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return 3;
  return 2;
}

// --------------------------------------------------------------- exploration
namespace { Explorer* g_explorer = nullptr; }
Explorer* explorer() { return g_explorer; }
void set_explorer(Explorer* e) { g_explorer = e; }

// Limits that only code with far more choices than today's meets.
constexpr double kCaseSeconds = 40, kLateSeconds = 200;
int Explorer::choose(int n, bool pre) {
  if (n <= 1) return 0;
  pre |= delay_;
  if (pos_ < path_.size()) {
    Node& nd = path_[pos_];
    if (nd.n == n) {
      pos_++;
      if (nd.pre && nd.cur > 0) used_++;
      return nd.cur;
    }
    // The code keeps something from one execution to the next, so that this one
    // differs from what is to be repeated: it is taken as it comes.
    path_.resize(pos_);
    count("executions_not_repeatable");
  }
  path_.push_back(Node{n, 0, pre, used_});
  pos_++;
  return 0;
}
// Lowers the bound for a case with so many choices that it cannot be explored to
// the bound in reasonable time (code that synchronises more than it used to). No
// case of the tree the bounds were chosen for is affected.
void Explorer::fit(int& bound) {
  double alt = 0, free = 1, m = 0;
  for (auto& nd : path_) {
    if (nd.pre) { m++; alt += nd.n - 1; }
    else free *= nd.n;
  }
  if (m) alt /= m;
  double sum = 1, term = 1;
  int b = 0;
  double budget = thorough() ? 3e6 : 12000, late = thorough() ? 0 : elapsed() / kLateSeconds;
  if (late > 1) budget /= 100;
  if (late > 2) budget /= 100;
  for (; b < bound && b < m; b++) {
    term *= (m - b) / (b + 1) * alt;
    if ((sum + term) * free > budget) break;
    sum += term;
  }
  if (b < bound && b < m) { bound = b; count("bounds_lowered"); }
}
uint64_t Explorer::run(const std::function<void()>& body) {
  uint64_t n = 0;
  int bound = bound_;
  double next = thorough() ? 1e9 : kCaseSeconds;
  path_.clear();
  complete_ = true;
  Explorer* old = g_explorer;
  g_explorer = this;
  for (;;) {
    pos_ = 0;
    used_ = 0;
    body();
    n++;
    if (n == 1) fit(bound);
    if (n % 16 == 0 && now() - g_case_t > next) {
      // Longer than expected: one departure less from here on, or none at all.
      next += kCaseSeconds / 2;
      count("bounds_lowered");
      if (bound-- == 0) { complete_ = false; break; }
    }
    // Advance the deepest choice that still has an affordable alternative.
    while (!path_.empty()) {
      Node& nd = path_.back();
      bool ok = nd.cur + 1 < nd.n && !(nd.pre && nd.used + 1 > bound);
      if (ok) { nd.cur++; break; }
      path_.pop_back();
    }
    if (path_.empty()) break;
    if (n >= limit_) { complete_ = false; break; }
  }
  g_explorer = old;
  return n;
}
std::string Explorer::trace() const {
  std::string s;
  for (size_t i = 0; i < pos_ && i < path_.size(); i++)
    s += (i ? "," : "") + std::to_string(path_[i].cur);
  return s;
}

// ----------------------------------------------------------------- scheduler
struct LThread {
  int id = 0, party = -1;
  std::function<void()> fn;
  pthread_t th;
  sem_t sem;
  enum { READY, BLOCKED, DONE } st = READY;
  std::function<bool()> ready;
  std::string what;
  Sched* s = nullptr;
  int worker_index = 0;
};
namespace {
thread_local LThread* t_self = nullptr;
Sched* g_sched = nullptr;
sem_t g_main_sem;
void* thread_main(void* p) {
  LThread* t = (LThread*)p;
  while (sem_wait(&t->sem) != 0) {}
  t_self = t;
  rng_thread_start(t->party, t->worker_index);
  t->fn();
  omp_thread_exit();
  t->st = LThread::DONE;
  t_self = nullptr;                             // destructors of thread-locals run outside the schedule
  t->s->switch_from(t, false);
  return nullptr;
}
}  // namespace

int sched_policy = 0;
bool mutex_points = false;
Sched* Sched::cur() { return g_sched; }
Sched::Sched() { g_sched = this; if (mc_hb_reset) mc_hb_reset(); }
Sched::~Sched() {
  for (LThread* t : th_) {
    pthread_join(t->th, nullptr);
    sem_destroy(&t->sem);
    delete t;
  }
  g_sched = nullptr;
}
int Sched::spawn(std::function<void()> fn, int party) {
  LThread* t = new LThread;
  t->id = (int)th_.size();
  t->party = party;
  t->fn = std::move(fn);
  t->s = this;
  if (t_self) t->worker_index = t->id;
  sem_init(&t->sem, 0, 0);
  th_.push_back(t);
  if (mc_hb_thread_start) mc_hb_thread_start(t_self ? t_self->id : -1, t->id, party);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 4 << 20);
  if (pthread_create(&t->th, &a, thread_main, t) != 0) {
    fprintf(stderr, "pthread_create failed\n");
    abort();
  }
  pthread_attr_destroy(&a);
  return t->id;
}
void Sched::switch_from(LThread* me, bool me_runnable) {
  steps++;
  // Candidates: me first (if it can go on), then the others in cyclic order.
  LThread* cand[64];
  int n = 0;
  if (me_runnable && sched_policy == 0) cand[n++] = me;
  int base = me ? me->id : -1;
  int N = (int)th_.size();
  for (int k = 1; k <= N; k++) {
    LThread* t = th_[(base + (sched_policy == 2 ? N - k : k) + N) % N];
    if (t == me) {
      if (me_runnable && sched_policy != 0) cand[n++] = me;
      continue;
    }
    if (t->st == LThread::READY || (t->st == LThread::BLOCKED && t->ready && t->ready()))
      if (n < 64) cand[n++] = t;
  }
  if (n == 0) {
    bool all = true;
    for (LThread* t : th_) if (t->st != LThread::DONE) all = false;
    if (all) { sem_post(&g_main_sem); return; }
    std::string s;
    for (LThread* t : th_)
      if (t->st == LThread::BLOCKED)
        s += strf(" thread %d (party %d) waits for %s;", t->id, t->party, t->what.c_str());
    violation("deadlock:%s no thread can continue", s.c_str());
  }
  int c = 0;
  if (g_explorer && n > 1) c = g_explorer->choose(n, me_runnable);
  LThread* t = cand[c];
  if (t == me) return;
  t->st = LThread::READY;
  running_ = t->id;
  sem_post(&t->sem);
  if (me && me->st != LThread::DONE)
    while (sem_wait(&me->sem) != 0) {}
}
void Sched::run() {
  sem_init(&g_main_sem, 0, 0);
  if (th_.empty()) return;
  switch_from(nullptr, false);
  while (sem_wait(&g_main_sem) != 0) {}
  sem_destroy(&g_main_sem);
  report().transitions += steps;
}
void Sched::point(const char* what) {
  LThread* me = t_self;
  if (!me) return;
  me->what = what;
  switch_from(me, true);
}
void Sched::block(const std::function<bool()>& ready, const char* what) {
  LThread* me = t_self;
  if (!me) abort();
  while (!ready()) {
    me->st = LThread::BLOCKED;
    me->ready = ready;
    me->what = what;
    switch_from(me, false);
    me->st = LThread::READY;
  }
}
int Sched::self() const { return t_self ? t_self->id : -1; }
int Sched::nthreads() const { return (int)th_.size(); }
bool Sched::finished(int t) const { return th_[t]->st == LThread::DONE; }
// Mutexes of the code under test: waiting for one is a scheduling matter.
namespace {
typedef int (*mutex_fn)(pthread_mutex_t*);
mutex_fn real_lock, real_trylock, real_unlock;
void find_mutex() {
  real_trylock = (mutex_fn)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  real_unlock = (mutex_fn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  real_lock = (mutex_fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
}
}  // namespace
int self_party() { return t_self ? t_self->party : -1; }
int self_thread() { return t_self ? t_self->id : -1; }

}  // namespace mc

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  using namespace mc;
  if (!real_lock) find_mutex();
  LThread* me = t_self;
  if (!me || !Sched::cur()) return real_lock(m);
  int r;
  if (mutex_points) Sched::cur()->point("a mutex");
  while ((r = real_trylock(m)) == EBUSY)
    Sched::cur()->block([m] {
      if (real_trylock(m) != 0) return false;
      real_unlock(m);
      return true;
    }, "a mutex");
  if (r == 0 && mc_hb_acquire) mc_hb_acquire(m);
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  using namespace mc;
  if (!real_unlock) find_mutex();
  if (t_self && mc_hb_release) mc_hb_release(m);
  return real_unlock(m);
}
}
