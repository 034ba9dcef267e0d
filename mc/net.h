// In-memory two-party network with adversarial delivery, and its transcript.
#ifndef MC_NET_H_
#define MC_NET_H_
#include <cstdint>
#include <deque>
#include <memory>
#include <string>
#include <vector>

#include "mc/core.h"

namespace mc {
struct Seg { bool typed; std::string data; size_t off = 0; };
struct Pipe {                    // one direction of one connection
  std::deque<Seg> pending;       // sent, not flushed
  std::deque<Seg> ready;         // delivered, not read
  size_t ready_raw() const;      // raw bytes at the front
};
struct Msg { int from; int conn; bool typed; std::string data; bool ot; const char* type; };  // type: of a typed message (typeid name); ot: sent by the transfer functionality
struct OtRecord {
  int sender;                    // party id
  char kind;
  size_t at;                     // messages on the channel before it
  bool correlated;
  std::vector<unsigned __int128> m0, m1;
  std::vector<bool> choices;
  std::vector<unsigned __int128> got;
};
struct Link {
  // ONE: as EAGER, but a send waits while an earlier one is still unread.
  enum Delivery { EAGER, LAZY, ONE };
  Delivery delivery = EAGER;
  bool explore = false;          // make channel operations scheduling points
  bool keep = true;              // record the transcript
  std::vector<std::unique_ptr<Pipe>> conn[2];  // conn[from][k]; k=0 shared
  bool in_ot[2] = {false, false};
  int opened[2] = {0, 0};        // direct connections opened per party
  uint64_t syncs[2] = {0, 0};
  uint64_t bytes[2] = {0, 0};
  uint64_t ops[2] = {0, 0};      // sends/receives performed per party
  std::vector<Msg> log;
  std::vector<OtRecord> ots;

  Link() { add(); }
  void add();
  void send(int from, int k, bool typed, const void* p, size_t n, const char* type = "");
  void flush(int from, int k);
  void recv_raw(int me, int k, void* p, size_t n);
  std::string recv_typed(int me, int k);
  void sync(int me);
  int open_direct(int me);       // blocks until the peer opens it too
  // Empty if nothing unread or unflushed is left, else a description.
  std::string leftovers() const;
  void record_ot(int sender, char kind, bool correlated, const void* m0, const void* m1, const void* got, const std::vector<bool>& choices);
  void reset_log() { log.clear(); ots.clear(); }
};
// Runs f0 and f1 as the two parties under a fresh scheduler.
void run2(const std::function<void()>& f0, const std::function<void()>& f1);
void run1(const std::function<void()>& f);
}  // namespace mc
#endif
