// Object serialization: round trip, truncation, corrupt input.
#include <map>
#include <string>
#include <vector>
#include "jpp.h"
#include "util/serialization.h"
#include "util/serialization_flatmap.h"
using namespace jumanpp;
namespace ser = util::serialization;

namespace {
struct Inner {
  u32 a;
  std::string s;
};
template <typename A>
void Serialize(A& a, Inner& o) {
  a& o.a;
  a& o.s;
}
enum class Kind { A, B, C };
SERIALIZE_ENUM_CLASS(Kind, int);
struct Outer {
  i32 i = 0;
  u64 u = 0;
  i64 l = 0;
  bool b = false;
  float f = 0;
  Kind k = Kind::A;
  std::string s;
  std::vector<Inner> v;
  std::vector<i32> w;
};
template <typename A>
void Serialize(A& a, Outer& o) {
  a& o.i;
  a& o.u;
  a& o.l;
  a& o.b;
  a& o.f;
  a& o.k;
  a& o.s;
  a& o.v;
  a& o.w;
}
std::string symStr(const char* nm, size_t mx) {
  char b[4];
  size_t n = jpp_pick<size_t>("len", 0, mx);
  jpp_make_symbolic(b, n, nm);
  return std::string(b, n);
}
bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i];
  return r;
}
u32 bits(float f) {
  u32 r;
  memcpy(&r, &f, 4);
  return r;
}
Outer symOuter(bool wide) {
  Outer o;
  o.i = wide ? jpp_any<i32>("i") : jpp_any<u8>("i");
  o.u = wide ? jpp_any<u64>("u") : jpp_any<u8>("u");
  o.l = wide ? jpp_any<i64>("l") : 5;
  o.b = jpp_range<u8>("b", 0, 1);
  u32 fb = jpp_any<u32>("f");
  memcpy(&o.f, &fb, 4);
  o.k = (Kind)jpp_range<u8>("k", 0, 2);
  o.s = symStr("s", 2);
  size_t nv = jpp_pick<size_t>("nv", 0, 2);
  for (size_t i = 0; i < nv; ++i) o.v.push_back(Inner{jpp_range<u8>("ia", 0, 100), symStr("is", 1)});
  size_t nw = jpp_pick<size_t>("nw", 0, 1);
  for (size_t i = 0; i < nw; ++i) o.w.push_back(wide ? jpp_any<i32>("w") : -1);
  return o;
}
void compare(const Outer& a, const Outer& b) {
  jpp_check(a.i == b.i && a.u == b.u && a.l == b.l, "integers");
  jpp_check(a.b == b.b && a.k == b.k, "bool and enum");
  jpp_check(bits(a.f) == bits(b.f), "float");
  jpp_check(same(a.s, b.s), "string");
  jpp_check(a.v.size() == b.v.size() && a.w.size() == b.w.size(), "list lengths");
  for (size_t i = 0; i < a.v.size(); ++i) jpp_check(a.v[i].a == b.v[i].a && same(a.v[i].s, b.v[i].s), "nested objects");
  for (size_t i = 0; i < a.w.size(); ++i) jpp_check(a.w[i] == b.w[i], "integer list");
}
}  // namespace

HARNESS(ser_roundtrip) {
  Outer o = symOuter(true);
  ser::Saver s;
  s.save(o);
  ser::Loader l{s.result()};
  Outer r;
  jpp_check(l.load(&r), "loads back");
  compare(o, r);
  jpp_observe(r.u);
  jpp_reach("end");
}

HARNESS(ser_truncated) {
  Outer o = symOuter(false);
  ser::Saver s;
  s.save(o);
  StringPiece all = s.result();
  size_t cut = jpp_pick<size_t>("cut", 0, 40);
  jpp_assume(cut < all.size());
  char* h = new char[cut];
  for (size_t i = 0; i < cut; ++i) h[i] = all[i];
  ser::Loader l{StringPiece{h, cut}};
  Outer r;
  jpp_check(!l.load(&r), "a truncated object is rejected");
  jpp_observe(cut);
  delete[] h;
  jpp_reach("end");
}

namespace {
struct Small {
  std::string s;
  u32 a = 0;
  std::vector<u32> v;
  bool b = false;
};
template <typename A>
void Serialize(A& a, Small& o) {
  a& o.s;
  a& o.a;
  a& o.v;
  a& o.b;
}
}  // namespace

// any byte string either is rejected, or is a complete encoding of the result
HARNESS(ser_corrupt) {
  size_t n = jpp_pick<size_t>("n", 0, jpp_param("n", 5));
  u8 b[12];
  jpp_make_symbolic(b, n, "b");
  char* h = new char[n];
  for (size_t i = 0; i < n; ++i) h[i] = (char)b[i];
  ser::Loader l{StringPiece{h, n}};
  Small r;
  bool ok = l.load(&r);
  // independent reader for one-byte integers (n < 128)
  size_t p = 0;
  auto rd = [&](u64* v) {
    u64 res = 0;
    int c = 0;
    while (p < n && c < 10) {
      u8 x = b[p++];
      res |= (u64)(x & 0x7f) << (7 * c++);
      if (!(x & 0x80)) {
        *v = res;
        return true;
      }
    }
    return false;
  };
  bool rok = true;
  u64 sl = 0, a = 0, vs = 0, bo = 0;
  size_t sp = 0;
  rok = rok && rd(&sl) && sl <= n - p;
  if (rok) {
    sp = p;
    p += sl;
  }
  rok = rok && rd(&a) && rd(&vs) && vs <= n;
  if (rok)
    for (u64 i = 0; i < vs && rok; ++i) {
      u64 e = 0;
      rok = rd(&e);
      if (ok && rok && i < r.v.size()) jpp_check(r.v[i] == (u32)e, "list element");
    }
  rok = rok && rd(&bo) && (u32)bo != ~0u && p == n;
  jpp_check(ok == rok, "accepts exactly complete encodings");
  if (ok && rok) {
    jpp_check(r.a == (u32)a && r.v.size() == vs && r.b == ((u32)bo == 1), "decoded fields");
    jpp_check(r.s.size() == sl, "decoded string length");
    for (size_t i = 0; i < sl; ++i) jpp_check((u8)r.s[i] == b[sp + i], "decoded string");
    jpp_reach("ok");
  } else {
    jpp_reach("rejected");
  }
  delete[] h;
}

HARNESS(ser_map) {
  util::FlatMap<u32, u64> m;
  size_t n = jpp_pick<size_t>("n", 0, 2);
  u32 k[3] = {3, 77, 1u << 31};
  u64 v[3];
  for (size_t i = 0; i < n; ++i) {
    v[i] = jpp_any<u64>("v");
    m[k[i]] = v[i];
  }
  ser::Saver s;
  s.save(m);
  util::FlatMap<u32, u64> r;
  ser::Loader l{s.result()};
  jpp_check(l.load(&r), "map loads");
  jpp_check(r.size() == n, "map size");
  for (size_t i = 0; i < n; ++i) jpp_check(r.exists(k[i]) && r.at(k[i]) == v[i], "map entry");
  jpp_reach("end");
}
