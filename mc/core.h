// Model-checking core: choice-driven depth-first exploration, a cooperative
// scheduler over real threads, deterministic randomness, violation reporting.
#ifndef MC_CORE_H_
#define MC_CORE_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

// ---------------------------------------------------------------- reporting
// Every harness is one process. The first violation ends it with exit code 1.
struct Report {
  std::string property;
  std::string tier = "quick";
  uint64_t seed = 1;
  uint64_t evaluations = 0;      // executions / cases run
  uint64_t nontrivial = 0;       // by the harness's own rule
  uint64_t states = 0;           // distinct states/cases reached
  uint64_t transitions = 0;      // scheduling/API steps executed
  uint64_t schedules = 0;        // schedules enumerated
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::vector<std::string> known;
};
Report& report();
bool thorough();
// The current case, as shown in a violation and used to replay it alone.
void set_case(const std::string& id);
const std::string& current_case();
// True if this case is to be run (all of them, or the one named by --replay).
bool want(const std::string& id);
bool replaying();
// Number of the enumerated case block this process handles (--shard i/n).
bool shard_owns(uint64_t index);
[[noreturn]] void violation(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
// A failure that known_findings.txt may list under `key`. If it does, it is
// recorded (printed as KNOWN-FINDING) and the run goes on; else: violation.
void known_or_violation(const std::string& key, const std::string& msg);
bool is_known(const std::string& key);
void sample(const std::string& s);
void count(const char* key, uint64_t n = 1);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...)                \
  do {                                     \
    if (!(cond)) ::mc::violation(__VA_ARGS__); \
  } while (0)
// Parses the command line, installs crash handlers.
void init(int argc, char** argv, const char* property);
// Writes the per-process result and exits 0.
[[noreturn]] void finish(bool exhaustive = true);
double elapsed();

// Runs f in a forked child. Returns 0 if f returned true, 1 if it returned
// false, 2 if the child died (crash, assertion, sanitizer, exception), 3 if it
// exceeded `seconds`.
int probe(const std::function<bool()>& f, int seconds = 20,
          std::string* note = nullptr);

// --------------------------------------------------------------- exploration
// Depth-first enumeration of all choice sequences of a program `body` that
// calls choose(). Each call of body is one execution.
class Explorer {
 public:
  // Returns a value in [0, n). `cost` of alternatives > 0 is charged against
  // the bound (a preemption).
  int choose(int n, bool preemptive);
  void set_bound(int b) { bound_ = b; }
  void set_limit(uint64_t n) { limit_ = n; }
  // Charge every choice other than the default scheduler's (delay bounding).
  void set_delay(bool d) { delay_ = d; }
  // Runs body until the choice tree is exhausted. Returns executions.
  uint64_t run(const std::function<void()>& body);
  bool complete() const { return complete_; }
  std::string trace() const;

 private:
  struct Node { int n, cur; bool pre; int used; };
  void fit(int& bound);
  std::vector<Node> path_;
  size_t pos_ = 0;
  int used_ = 0;
  int bound_ = 1 << 30;
  uint64_t limit_ = ~0ull;
  bool complete_ = true, delay_ = false;
};
Explorer* explorer();           // current, or null (default choice 0)
void set_explorer(Explorer*);

// ----------------------------------------------------------------- scheduler
// Logical threads are pthreads of which exactly one runs at a time.
struct LThread;
class Sched {
 public:
  Sched();
  ~Sched();
  int spawn(std::function<void()> fn, int party);
  void run();                   // from a thread outside; returns when all done
  // Called from logical threads:
  void point(const char* what);             // may switch
  void block(const std::function<bool()>& ready, const char* what);
  void wake_hint() {}
  int self() const;
  int nthreads() const;
  bool finished(int t) const;
  static Sched* cur();
  // How many steps (points passed) so far.
  uint64_t steps = 0;

  void switch_from(LThread* me, bool me_runnable);  // internal

 private:
  std::vector<LThread*> th_;
  int running_ = -1;
};
// Who goes first where the explorer does not say otherwise: 0 the running
// thread, 1 the next one, 2 the previous one.
extern int sched_policy;
// Whether locking a mutex is a scheduling point even if nobody holds it.
extern bool mutex_points;
int self_party();               // party of the calling logical thread, or -1
int self_thread();              // logical thread id, or -1

// ------------------------------------------------------------------- OpenMP
struct OmpCfg { int max_threads = 1; int team = 1; };
extern OmpCfg omp_cfg[3];       // per party; [2] for code outside parties
uint64_t omp_regions();

// --------------------------------------------------------------- randomness
// RAND_bytes / NTL randomness seen by the code under test.
void rng_reset(uint64_t seed);
void rng_fill(void* p, size_t n);            // what RAND_bytes delivers
struct Draw { int party; const void* where; std::string bytes; };
extern std::vector<Draw>* rng_log;           // if set, every draw is recorded
// If set, called for every RAND_bytes; returns true if it filled the buffer.
extern std::function<bool(unsigned char*, size_t)> rng_hook;
// OT functionality randomness (correlated OT masks); same conventions.
extern std::function<bool(unsigned char*, size_t)> ot_rng_hook;
// AES oracle: if set, replaces AES_encrypt. rounds key bytes given by address.
extern std::function<bool(const uint8_t*, uint8_t*, const void*)> aes_hook;
uint64_t mix(uint64_t x);
struct Rnd {                     // harness-side pseudo random patterns
  uint64_t s;
  explicit Rnd(uint64_t seed) : s(seed) {}
  uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
  uint64_t below(uint64_t n) { return next() % n; }
};

// hooks into the race detector, when linked
extern "C" {
void mc_hb_thread_start(int parent, int child, int party) __attribute__((weak));
void mc_hb_region(int party, int delta) __attribute__((weak));
void mc_hb_release(const void* o) __attribute__((weak));
void mc_hb_acquire(const void* o) __attribute__((weak));
void mc_hb_reset() __attribute__((weak));
uint64_t mc_hb_accesses() __attribute__((weak));
}
}  // namespace mc
#endif
