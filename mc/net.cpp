#include "mc/net.h"

#include <string.h>

#include <mutex>
#include <thread>

namespace mc {
size_t Pipe::ready_raw() const {
  size_t n = 0;
  for (auto& s : ready) {
    if (s.typed) break;
    n += s.data.size() - s.off;
  }
  return n;
}
// Outside the scheduler (plain threads) a global lock and polling are used.
namespace {
std::recursive_mutex g_mu;
void wait_for(const std::function<bool()>& f, const char* what) {
  if (Sched::cur() && self_thread() >= 0) { Sched::cur()->block(f, what); return; }
  for (;;) {
    { std::lock_guard<std::recursive_mutex> l(g_mu); if (f()) return; }
    std::this_thread::yield();
  }
}
}  // namespace
#define LOCK std::lock_guard<std::recursive_mutex> l_(g_mu)
void Link::add() {
  LOCK;
  conn[0].emplace_back(new Pipe);
  conn[1].emplace_back(new Pipe);
}
void Link::send(int from, int k, bool typed, const void* p, size_t n, const char* type) {
  if (delivery == ONE) {
    Pipe* q = conn[from][k].get();
    wait_for([q] { return q->ready.empty(); }, "the peer to read what was sent before");
  }
  {
    LOCK;
    ops[from]++;
    bytes[from] += n;
    if (keep) log.push_back(Msg{from, k, typed, std::string((const char*)p, n), in_ot[from], type});
    Pipe& q = *conn[from][k];
    if (n > 0 || typed) {
      Seg s{typed, std::string((const char*)p, n)};
      (delivery == LAZY ? q.pending : q.ready).push_back(std::move(s));
    }
  }
  if (explore && Sched::cur()) Sched::cur()->point("send");
}
void Link::flush(int from, int k) {
  {
    LOCK;
    Pipe& q = *conn[from][k];
    while (!q.pending.empty()) {
      q.ready.push_back(std::move(q.pending.front()));
      q.pending.pop_front();
    }
  }
  if (explore && Sched::cur()) Sched::cur()->point("flush");
}
void Link::recv_raw(int me, int k, void* p, size_t n) {
  { LOCK; ops[me]++; }
  if (explore && Sched::cur()) Sched::cur()->point("recv");
  Pipe* q = conn[1 - me][k].get();
  size_t done = 0;
  while (done < n) {
    wait_for([q] { return !q->ready.empty(); }, "raw data from the peer");
    LOCK;
    Seg& s = q->ready.front();
    if (s.typed)
      violation("parties out of step: party %d reads %zu raw bytes but the peer sent a typed message",
                me, n);
    size_t m = std::min(n - done, s.data.size() - s.off);
    memcpy((char*)p + done, s.data.data() + s.off, m);
    done += m;
    s.off += m;
    if (s.off == s.data.size()) q->ready.pop_front();
  }
}
std::string Link::recv_typed(int me, int k) {
  { LOCK; ops[me]++; }
  if (explore && Sched::cur()) Sched::cur()->point("recv");
  Pipe* q = conn[1 - me][k].get();
  wait_for([q] { return !q->ready.empty(); }, "a message from the peer");
  LOCK;
  Seg s = std::move(q->ready.front());
  q->ready.pop_front();
  if (!s.typed)
    violation("parties out of step: party %d expects a typed message but the peer sent raw bytes", me);
  return s.data;
}
void Link::sync(int me) {
  flush(me, 0);
  { LOCK; syncs[me]++; }
  uint64_t want = syncs[me];
  int peer = 1 - me;
  wait_for([this, peer, want] { return syncs[peer] >= want; }, "the peer to synchronise");
}
int Link::open_direct(int me) {
  int k, want;
  {
    LOCK;
    want = ++opened[me];
    k = want;
    while ((int)conn[me].size() <= k) add();
  }
  int peer = 1 - me;
  wait_for([this, peer, want] { return opened[peer] >= want; }, "the peer to open a direct connection");
  return k;
}
void Link::record_ot(int sender, char kind, bool correlated, const void* m0, const void* m1, const void* got, const std::vector<bool>& choices) {
  if (!keep) return;
  LOCK;
  OtRecord r;
  r.sender = sender;
  r.kind = kind;
  r.at = log.size();
  r.correlated = correlated;
  r.choices = choices;
  auto cvt = [&](const void* p) {
    std::vector<unsigned __int128> v(choices.size());
    if (!v.empty()) memcpy(v.data(), p, 16 * v.size());
    return v;
  };
  r.m0 = cvt(m0);
  r.m1 = cvt(m1);
  r.got = cvt(got);
  ots.push_back(std::move(r));
}
std::string Link::leftovers() const {
  std::string s;
  for (int f = 0; f < 2; f++)
    for (size_t k = 0; k < conn[f].size(); k++) {
      size_t a = 0, b = 0;
      for (auto& x : conn[f][k]->pending) a += x.data.size();
      for (auto& x : conn[f][k]->ready) b += x.data.size() - x.off;
      if (!conn[f][k]->pending.empty()) s += strf(" party %d sent %zu bytes it never flushed;", f, a);
      if (!conn[f][k]->ready.empty()) s += strf(" party %d sent %zu bytes its peer never read;", f, b);
    }
  return s;
}
void run2(const std::function<void()>& f0, const std::function<void()>& f1) {
  Sched s;
  s.spawn(f0, 0);
  s.spawn(f1, 1);
  s.run();
}
void run1(const std::function<void()>& f) {
  Sched s;
  s.spawn(f, 0);
  s.run();
}
}  // namespace mc
