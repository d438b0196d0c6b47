// Byte-string views: equality, order, hashing, slicing, number parsing.
#include <string>
#include "jpp.h"
#include "util/char_buffer.h"
#include "util/parse_utils.h"
#include "util/string_piece.h"
using namespace jumanpp;

namespace {
struct Txt {
  char* p;
  size_t n;
  StringPiece sp() const { return StringPiece{p, n}; }
};
// exact-size heap copy, so that touching a byte past the end is seen
Txt sym(const char* nm, size_t mx) {
  size_t n = jpp_pick<size_t>("len", 0, mx);
  char* p = new char[n];
  jpp_make_symbolic(p, n, nm);
  return {p, n};
}
int cmp(const Txt& a, const Txt& b) {
  for (size_t i = 0; i < a.n && i < b.n; ++i)
    if (a.p[i] != b.p[i]) return (u8)a.p[i] < (u8)b.p[i] ? -1 : 1;
  return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}
}  // namespace

HARNESS(sp_compare) {
  size_t mx = jpp_param("n", 3);
  Txt a = sym("a", mx), b = sym("b", mx);
  int c = cmp(a, b);
  jpp_check((a.sp() == b.sp()) == (c == 0), "equality is equality of bytes");
  jpp_check((a.sp() != b.sp()) == (c != 0), "inequality is its negation");
  jpp_check((a.sp() < b.sp()) == (c < 0), "order is the order of unsigned bytes");
  jpp_check((b.sp() < a.sp()) == (c > 0), "order is antisymmetric");
  jpp_observe(c == 0);
  delete[] a.p;
  delete[] b.p;
  jpp_reach("end");
}

HARNESS(sp_hash) {
  Txt a = sym("a", jpp_param("n", 20));
  std::string s(a.p, a.n);
  std::hash<StringPiece> h;
  jpp_check(h(a.sp()) == h(StringPiece{s}), "hash depends on the bytes only");
  jpp_check(a.sp() == StringPiece{s}, "equal to its copy");
  delete[] a.p;
  jpp_reach("end");
}

HARNESS(sp_slice) {
  Txt a = sym("a", 4);
  size_t from = jpp_pick<size_t>("from", 0, 4), to = jpp_pick<size_t>("to", 0, 4);
  jpp_assume(from <= to && to <= a.n);
  StringPiece s = a.sp().slice(from, to);
  jpp_check(s.size() == to - from && s.begin() == a.p + from && s.end() == a.p + to, "slice");
  if (from < a.n || a.n == 0) jpp_check(a.sp().from(from).begin() == a.p + from && a.sp().from(from).end() == a.p + a.n, "suffix");
  jpp_check(a.sp().take(to).begin() == a.p && a.sp().take(to).size() == to, "prefix");
  std::string str = s.str();
  jpp_check(str.size() == s.size(), "copy size");
  for (size_t i = 0; i < s.size(); ++i) jpp_check(str[i] == a.p[from + i] && s[i] == str[i], "copy content");
  delete[] a.p;
  jpp_reach("end");
}

HARNESS(parse_u64) {
  size_t n = jpp_pick<size_t>("n", 0, jpp_param("n", 6));
  char* p = new char[n];
  jpp_make_symbolic(p, n, "p");
  u64 r = 777;
  bool ok = util::parseU64(StringPiece{p, n}, &r);
  bool rok = n > 0;
  u64 v = 0;
  for (size_t i = 0; i < n; ++i) {
    u8 d = (u8)p[i] - '0';
    rok &= d < 10;
    v = v * 10 + d;
  }
  jpp_check(ok == rok, "accepts exactly digits");
  if (ok) jpp_check(r == v, "decimal value");
  else jpp_check(r == 777, "result untouched on failure");
  delete[] p;
  jpp_reach("end");
}

// interned strings keep their content whatever is interned later
HARNESS(char_buffer) {
  util::CharBuffer<8> cb;
  const int N = (int)jpp_param("n", 4);
  StringPiece kept[6];
  char orig[6][10];
  size_t len[6];
  for (int i = 0; i < N; ++i) {
    len[i] = jpp_pick<size_t>("len", 0, 9);
    jpp_make_symbolic(orig[i], len[i], "s");
    StringPiece sp{orig[i], len[i]};
    bool ok = cb.import(&sp);
    jpp_check(ok == (len[i] <= 8), "accepts exactly strings which fit a page");
    if (!ok) len[i] = 99;
    else kept[i] = sp;
  }
  for (int i = 0; i < N; ++i) {
    if (len[i] == 99) continue;
    jpp_check(kept[i].size() == len[i], "length kept");
    for (size_t j = 0; j < len[i]; ++j) jpp_check(kept[i][j] == orig[i][j], "content kept");
  }
  jpp_reach("end");
}

HARNESS(char_buffer_reset) {
  util::CharBuffer<4> cb;
  for (int round = 0; round < 3; ++round) {
    jpp_check(cb.empty(), "empty at start of a round");
    StringPiece kept[3];
    char orig[3][4];
    size_t len[3];
    for (int i = 0; i < 2; ++i) {
      len[i] = jpp_pick<size_t>("len", 0, 4);
      jpp_make_symbolic(orig[i], len[i], "s");
      kept[i] = StringPiece{orig[i], len[i]};
      jpp_check(cb.import(&kept[i]), "import");
    }
    for (int i = 0; i < 2; ++i) {
      jpp_check(kept[i].size() == len[i], "length kept");
      for (size_t j = 0; j < len[i]; ++j) jpp_check(kept[i][j] == orig[i][j], "content kept");
    }
    cb.reset();
  }
  jpp_reach("end");
}
