// The bounded queue with several threads: other threads run wherever the lock
// is free, when a lock is taken or released, while a thread waits and while an
// item is moved.
#include "jpp.h"
#include <condition_variable>
#include <mutex>
#include <vector>
#include "util/common.hpp"
#include "util/types.hpp"
#include "util/logging.hpp"
using namespace jumanpp;

namespace {
int depth = 0, budget = 0, held = 0;
void others();
}  // namespace
namespace std {
struct JppMutex {
  int owner = 0;
  void lock() {
    others();
    jpp_check(owner == 0, "a thread does not lock what it holds");
    owner = 1;
    ++held;
  }
  bool try_lock() {
    others();
    if (owner) return false;
    owner = 1;
    ++held;
    return true;
  }
  void unlock() {
    jpp_check(owner == 1, "only a held lock is released");
    owner = 0;
    --held;
    others();
  }
};
struct JppCv {
  u64 count = 0;
  void notify_one() { ++count; }
  void notify_all() { ++count; }
  void wait(std::unique_lock<JppMutex>& l);
  template <typename P>
  void wait(std::unique_lock<JppMutex>& l, P p) {
    while (!p()) wait(l);
  }
};
}  // namespace std
#define mutex JppMutex
#define condition_variable JppCv
#include "util/bounded_queue.h"
#undef mutex
#undef condition_variable

namespace {
struct Item {
  int id = -1;
  u32 v = 0;
  Item() {}
  Item(int i, u32 x) : id(i), v(x) {}
  Item(Item&& o) noexcept { *this = std::move(o); }
  Item& operator=(Item&& o) noexcept {
    others();
    id = o.id;
    others();
    v = o.v;
    o.id = -2;
    return *this;
  }
};
struct Rec { u32 v; int os, oe, ds, de, given; };
typedef util::bounded_queue<Item> Q;
Q* q;
int cap, now, spurious, pending;
Rec recs[16];
int nrec;
struct Fail { int s, e; bool full; } fails[16];
int nfail;

// certainly in the queue: given and not being taken
int inside() {
  int n = 0;
  for (int i = 0; i < nrec; ++i) n += recs[i].given == 1 && recs[i].oe && !recs[i].ds;
  return n;
}
void took(Item&& it, int s) {
  int e = ++now;
  jpp_check(it.id >= 0 && it.id < nrec, "only items which were given come out");
  auto& r = recs[it.id];
  jpp_check(it.v == r.v, "an item is not changed");
  jpp_check(r.de == 0, "an item comes out once");
  r.ds = s;
  r.de = e;
}
void operation(int op);
void operate(int op) {
  int s = ++now;
  if (op == 0) {
    if (nrec == 8) return;
    int id = nrec++;
    recs[id] = Rec{jpp_any<u32>("v"), s, 0, 0, 0, 0};
    if (q->offer(Item{id, recs[id].v})) {
      recs[id].given = 1;
      recs[id].oe = ++now;
    } else {
      jpp_check(!recs[id].de, "a refused item does not come out");
      fails[nfail++] = Fail{s, ++now, true};
      recs[id].given = -1;
    }
  } else if (op == 1) {
    Item it;
    if (q->recieve(&it)) took(std::move(it), s);
    else fails[nfail++] = Fail{s, ++now, false};
  } else {
    Item it = q->waitFor();
    took(std::move(it), s);
  }
}
void operation(int op) {
  ++pending;
  operate(op);
  --pending;
}
void others() {
  if (held || depth >= 2) return;
  ++depth;
  while (budget > 0 && jpp_pick<int>("other", 0, 1)) {
    --budget;
    operation(jpp_pick<int>("op", 0, depth > 1 ? 1 : 2));
  }
  --depth;
}
}  // namespace
void std::JppCv::wait(std::unique_lock<JppMutex>& l) {
  jpp_check(l.owns_lock(), "waits with the lock");
  u64 before = count;
  ++depth;
  l.mutex()->owner = 0;
  --held;
  while (true) {
    // a thread can be woken without a reason
    if (count == before && spurious > 0 && jpp_pick<int>("spurious", 0, 1)) {
      --spurious;
      break;
    }
    if (count != before && jpp_pick<int>("wake", 0, 1)) break;
    if (budget == 0) {
      if (pending == 1 && count == before) jpp_check(inside() == 0, "a waiting thread is told that there is something");
      if (count != before) break;
      jpp_assume(false);
    }
    --budget;
    operation(jpp_pick<int>("op", 0, depth > 1 ? 1 : 2));
  }
  --depth;
  l.mutex()->owner = 1;
  ++held;
}

HARNESS(queue_threads) {
  cap = jpp_pick<int>("cap", 1, (int)jpp_param("cap", 2));
  q = new Q((unsigned)cap);
  spurious = (int)jpp_param("spurious", 1);
  int n = (int)jpp_param("ops", 2);
  // the queue can have been used before
  int used = jpp_pick<int>("used", 0, 1);
  depth = 2;
  if (used) operation(0), operation(1);
  int fill = jpp_pick<int>("fill", 0, cap);
  for (int i = 0; i < fill; ++i) operation(0);
  depth = 0;
  budget = (int)jpp_param("others", 3);
  for (int i = 0; i < n; ++i) operation(jpp_pick<int>("op", 0, 2));
  depth = 2;
  int left = inside();
  for (int i = 0; i < left; ++i) {
    int s = ++now;
    Item it;
    jpp_check(q->recieve(&it), "what is left comes out");
    took(std::move(it), s);
  }
  Item it;
  jpp_check(!q->recieve(&it), "nothing else is left");
  for (int i = 0; i < nrec; ++i) {
    auto& a = recs[i];
    if (a.given < 0) continue;
    jpp_check(a.given == 1 && a.de, "every item comes out");
    for (int j = 0; j < nrec; ++j)
      if (recs[j].given > 0 && a.oe < recs[j].os) jpp_check(!(recs[j].de < a.ds), "first in, first out");
  }
  for (int f = 0; f < nfail; ++f) {
    int most = 0, least = 0;
    for (int i = 0; i < nrec; ++i) {
      auto& r = recs[i];
      if (r.given < 0) continue;
      most += r.os < fails[f].e && !(r.de < fails[f].s);
      least += r.oe < fails[f].s && r.ds > fails[f].e;
    }
    if (fails[f].full) jpp_check(most >= cap, "refuses when full only");
    else jpp_check(least == 0, "gives nothing only when there is nothing");
  }
  jpp_reach("end");
}
