// Hash containers, caches, queues and the allocator against reference models.
#include <algorithm>
#include <cstring>
#include <vector>
#include "jpp.h"
#include "util/bounded_queue.h"
#include "util/flatmap.h"
#include "util/flatset.h"
#include "util/inlined_vector.h"
#include "util/lru_cache.h"
#include "util/memory.hpp"
using namespace jumanpp;

namespace {
// every key in the same bucket chain / or spread, chosen by the run
struct BadHash {
  size_t operator()(u32 k) const { return k & 3; }
};
struct Model {
  bool has[4] = {false, false, false, false};
  u32 val[4];
  size_t size() const {
    size_t r = 0;
    for (bool b : has) r += b;
    return r;
  }
};
template <typename Map>
void mapOps(int N) {
  Map m;
  Model r;
  for (int i = 0; i < N; ++i) {
    u8 op = jpp_pick<u8>("op", 0, 4);
    u32 kk = jpp_pick<u8>("key", 0, 3);
    u32 key = kk * 16 + (kk & 1);
    u32 v = jpp_any<u32>("val");
    if (op == 0) {
      m[key] = v;
      r.has[kk] = true;
      r.val[kk] = v;
    } else if (op == 1) {
      auto p = m.insert(std::make_pair(key, v));
      jpp_check(p.second == !r.has[kk], "insert reports whether the key was new");
      if (!r.has[kk]) {
        r.has[kk] = true;
        r.val[kk] = v;
      }
      jpp_check(p.first->first == key && p.first->second == r.val[kk], "insert points to the entry");
    } else if (op == 2) {
      jpp_check(m.erase(key) == (r.has[kk] ? 1u : 0u), "erase reports whether the key was there");
      r.has[kk] = false;
    } else if (op == 3) {
      m.clear_no_resize();
      for (bool& b : r.has) b = false;
    } else {
      m.reserve(40);
    }
    jpp_check(m.size() == r.size() && m.empty() == (r.size() == 0), "size");
    for (u32 k = 0; k < 4; ++k) {
      u32 key2 = k * 16 + (k & 1);
      auto it = m.find(key2);
      jpp_check((it != m.end()) == r.has[k], "finds exactly the stored keys");
      jpp_check(m.count(key2) == (r.has[k] ? 1u : 0u) && m.exists(key2) == r.has[k], "counts exactly the stored keys");
      if (r.has[k]) jpp_check(it->first == key2 && it->second == r.val[k] && m.at(key2) == r.val[k], "last stored value");
    }
    size_t seen = 0;
    for (auto& e : m) {
      ++seen;
      u32 k = e.first / 16;
      jpp_check(k < 4 && r.has[k] && e.second == r.val[k], "iterates over stored entries");
    }
    jpp_check(seen == r.size(), "iterates over each entry once");
  }
}
}  // namespace

HARNESS(flatmap) { mapOps<util::FlatMap<u32, u32>>((int)jpp_param("ops", 3)); jpp_reach("end"); }
HARNESS(flatmap_collide) { mapOps<util::FlatMap<u32, u32, BadHash>>((int)jpp_param("ops", 3)); jpp_reach("end"); }

// entries which own something: nothing is leaked, destroyed twice or left behind
namespace {
struct Owned {
  static int live;
  u32 v = 0;
  Owned() { ++live; }
  Owned(u32 x) : v{x} { ++live; }
  Owned(const Owned& o) : v{o.v} { ++live; }
  Owned(Owned&& o) : v{o.v} { ++live; }
  Owned& operator=(const Owned& o) = default;
  Owned& operator=(u32 x) { v = x; return *this; }
  bool operator==(u32 x) const { return v == x; }
  ~Owned() { --live; }
};
int Owned::live = 0;
struct HighHash {
  size_t operator()(u32 k) const { return (size_t)k << 8; }
};
}  // namespace

HARNESS(flatmap_owned) {
  {
    util::FlatMap<u32, Owned, HighHash> m;
    const u32 N = (u32)jpp_param("n", 20);
    u32 step = jpp_pick<u8>("step", 1, 3), keep = jpp_pick<u8>("keep", 0, 2), every = jpp_pick<u8>("every", 1, 3);
    u32 v = jpp_any<u32>("v");
    std::vector<u32> in;
    for (u32 i = 0; i < N; ++i) {
      m[i * step] = v + i;
      in.push_back(i);
      if (in.size() > keep) {
        jpp_check(m.erase(in[0] * step) == 1, "erase");
        in.erase(in.begin());
      }
      if (i % every == 0) {
        m.clear_no_resize();
        in.clear();
      }
      jpp_check(m.size() == in.size(), "size");
      jpp_check(!m.exists(i * step + 1000), "absent key");
      for (u32 k = 0; k <= i; ++k) {
        bool there = std::find(in.begin(), in.end(), k) != in.end();
        auto it = m.find(k * step);
        jpp_check((it != m.end()) == there, "exactly the stored keys");
        if (there) jpp_check(it->second == v + k, "the stored value");
      }
      jpp_check(Owned::live == (int)in.size(), "one live object for each entry");
    }
  }
  jpp_check(Owned::live == 0, "everything is destroyed with the map");
  jpp_reach("end");
}

// many keys: growth and deletion markers
HARNESS(flatmap_grow) {
  util::FlatMap<u32, u32, BadHash> m;
  const u32 N = (u32)jpp_param("n", 40);
  u32 base = jpp_pick<u8>("base", 0, 3), step = jpp_pick<u8>("step", 1, 4);
  u32 v = jpp_any<u32>("v");
  u32 rm = jpp_pick<u8>("rm", 0, 5);
  for (u32 i = 0; i < N; ++i) m[base + i * step] = v + i;
  if (rm)
    for (u32 i = 0; i < N; i += rm) jpp_check(m.erase(base + i * step) == 1, "erase");
  for (u32 i = 0; i < N; ++i) {
    bool gone = rm && i % rm == 0;
    auto it = m.find(base + i * step);
    jpp_check((it == m.end()) == gone, "exactly the remaining keys");
    if (!gone) jpp_check(it->second == v + i, "value kept over growth");
  }
  jpp_check(!m.exists(base + N * step), "absent key");
  util::FlatMap<u32, u32, BadHash> c(m);
  jpp_check(c.size() == m.size(), "copy size");
  for (u32 i = 0; i < N; ++i) jpp_check(c.exists(base + i * step) == m.exists(base + i * step), "copy keys");
  jpp_reach("end");
}

HARNESS(flatset) {
  util::FlatSet<u32> s;
  bool has[4] = {false, false, false, false};
  for (int i = 0; i < (int)jpp_param("ops", 4); ++i) {
    u8 op = jpp_pick<u8>("op", 0, 1);
    u32 k = jpp_pick<u8>("key", 0, 3);
    u32 key = k * 0x10001;
    if (op == 0) {
      jpp_check(s.insert(key).second == !has[k], "insert");
      has[k] = true;
    } else {
      jpp_check(s.erase(key) == (has[k] ? 1u : 0u), "erase");
      has[k] = false;
    }
    size_t n = 0;
    for (u32 j = 0; j < 4; ++j) {
      jpp_check((s.count(j * 0x10001) != 0) == has[j] && s.contains(j * 0x10001) == has[j], "membership");
      n += has[j];
    }
    jpp_check(s.size() == n, "size");
    size_t seen = 0;
    for (auto x : s) {
      ++seen;
      jpp_check(x % 0x10001 == 0 && has[x / 0x10001], "iteration");
    }
    jpp_check(seen == n, "each once");
  }
  jpp_reach("end");
}

// a cache may forget, but never answers with a wrong value and keeps the
// most recent half of its capacity
HARNESS(lru) {
  util::LruCache<u32, u32> c(2);
  bool has[4] = {false, false, false, false};
  u32 val[4];
  int last = -1;
  for (int i = 0; i < (int)jpp_param("ops", 4); ++i) {
    u8 op = jpp_pick<u8>("op", 0, 1);
    u32 k = jpp_pick<u8>("key", 0, 3);
    if (op == 0) {
      u32 v = 0;
      bool f = c.tryFind(k * 7, &v);
      if (f) jpp_check(has[k] && v == val[k], "answers with the stored value");
      if ((int)k == last) jpp_check(f, "the latest inserted key is found");
    } else if (!has[k]) {
      val[k] = jpp_any<u32>("v");
      c.insert(k * 7, val[k]);
      has[k] = true;
      last = (int)k;
    }
  }
  jpp_reach("end");
}

HARNESS(queue) {
  unsigned cap = (unsigned)jpp_pick<u8>("cap", 1, 4);
  util::bounded_queue<u32> q(cap);
  u32 fifo[16];
  size_t h = 0, t = 0;
  for (int i = 0; i < (int)jpp_param("ops", 7); ++i) {
    u8 op = jpp_pick<u8>("op", 0, 2);
    if (op == 0) {
      u32 v = jpp_any<u32>("v");
      u32 c = v;
      bool ok = q.offer(std::move(c));
      jpp_check(ok == (h - t < cap), "accepts while there is space");
      if (ok) fifo[h++] = v;
    } else if (op == 1) {
      u32 r = 0;
      bool ok = q.recieve(&r);
      jpp_check(ok == (h != t), "gives while there is something");
      if (ok) jpp_check(r == fifo[t++], "first in, first out");
    } else {
      jpp_assume(h != t);
      jpp_check(q.waitFor() == fifo[t++], "first in, first out when waiting");
    }
    jpp_check(q.size() == h - t && q.remaining() == cap - (h - t), "sizes");
  }
  jpp_reach("end");
}

// allocations are aligned, inside their page and never overlap
HARNESS(pool) {
  util::memory::Manager mgr(4096);
  auto alloc = mgr.core();
  for (int round = 0; round < 2; ++round) {
    char* p[6];
    size_t sz[6];
    const int N = round == 0 ? (int)jpp_param("n", 3) : 1;
    for (int i = 0; i < N; ++i) {
      static const size_t sizes[] = {1, 7, 1500, 4096};
      sz[i] = sizes[jpp_pick<u8>("size", 0, 3)];
      size_t al = (size_t)1 << (3 * jpp_pick<u8>("align", 0, 2));
      p[i] = (char*)alloc->allocate_memory(sz[i], al);
      jpp_check(((uintptr_t)p[i] & (al - 1)) == 0, "aligned");
      memset(p[i], i + 1, sz[i]);
    }
    for (int i = 0; i < N; ++i) {
      jpp_check(p[i][0] == i + 1 && p[i][sz[i] - 1] == i + 1 && p[i][sz[i] / 2] == i + 1, "content not overwritten");
      for (int j = 0; j < i; ++j) jpp_check(p[i] + sz[i] <= p[j] || p[j] + sz[j] <= p[i], "no overlap");
    }
    alloc->reset();
    mgr.reset();
  }
  jpp_reach("end");
}

HARNESS(inlined_vector) {
  util::InlinedVector<u32, 2> v;
  std::vector<u32> r;
  for (int i = 0; i < (int)jpp_param("ops", 5); ++i) {
    u8 op = jpp_pick<u8>("op", 0, 4);
    if (op == 0) {
      u32 x = jpp_any<u32>("x");
      v.push_back(x);
      r.push_back(x);
    } else if (op == 1) {
      jpp_assume(!r.empty());
      v.pop_back();
      r.pop_back();
    } else if (op == 2) {
      v.resize(3, 9u);
      r.resize(3, 9u);
    } else if (op == 3) {
      v.clear();
      r.clear();
    } else {
      util::InlinedVector<u32, 2> c(v);
      jpp_check(c.size() == r.size() && c == v, "copy");
      util::InlinedVector<u32, 2> d(std::move(c));
      v = d;
    }
    jpp_check(v.size() == r.size() && v.empty() == r.empty(), "size");
    for (size_t j = 0; j < r.size(); ++j) jpp_check(v[j] == r[j], "element");
  }
  jpp_reach("end");
}

// several rounds over several pages, two users of the same pages
HARNESS(pool_pages) {
  util::memory::Manager mgr(4096);
  auto a = mgr.core(), b = mgr.core();
  const int R = (int)jpp_param("rounds", 3), N = (int)jpp_param("n", 4);
  size_t big = jpp_pick<u8>("big", 0, 1) ? 3000 : 4096;
  uint64_t used = 0;
  for (int round = 0; round < R; ++round) {
    struct Block { char* p; size_t n; };
    std::vector<Block> bs;
    int k = jpp_pick<u8>("count", 0, N);
    for (int i = 0; i < k; ++i) {
      u8 what = jpp_pick<u8>("what", 0, 3);
      auto& al = i & 1 ? *b : *a;
      Block x;
      if (what == 0) {
        x = Block{(char*)al.allocateRawArray<char>(big), big};
      } else if (what == 1) {
        x = Block{(char*)al.allocate_memory(40, 64), 40};
        jpp_check(((uintptr_t)x.p & 63) == 0, "aligned");
      } else if (what == 2) {
        auto m = al.allocate2d<u64>(3, 5);
        jpp_check(m.numRows() == 3 && m.rowSize() == 5, "a table of the requested size");
        jpp_check(((uintptr_t)&m.at(0) & 7) == 0, "aligned");
        x = Block{(char*)&m.at(0), 15 * sizeof(u64)};
      } else {
        auto v = al.make<std::pair<u64, u8>>((u64)i, (u8)7);
        jpp_check(((uintptr_t)v & 7) == 0, "aligned");
        jpp_check(v->first == (u64)i && v->second == 7, "constructed");
        x = Block{(char*)v, sizeof(*v)};
      }
      memset(x.p, i + 1, x.n);
      bs.push_back(x);
    }
    for (size_t i = 0; i < bs.size(); ++i) {
      jpp_check(bs[i].p[0] == (char)(i + 1) && bs[i].p[bs[i].n - 1] == (char)(i + 1), "content not overwritten");
      for (size_t j = 0; j < i; ++j) jpp_check(bs[i].p + bs[i].n <= bs[j].p || bs[j].p + bs[j].n <= bs[i].p, "no overlap");
    }
    jpp_check(mgr.used() >= used && mgr.used() % 4096 == 0, "pages are kept for later");
    if (round > 0 && k <= 1) jpp_check(mgr.used() == used || used == 0, "memory is reused after a reset");
    used = mgr.used();
    mgr.reset();
    a->reset();
    b->reset();
  }
  jpp_reach("end");
}
