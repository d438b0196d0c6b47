// Variable-length coded buffers: round trips, bounds, corrupt input.
#include <string>
#include "jpp.h"
#include "util/coded_io.h"
using namespace jumanpp;

HARNESS(varint_roundtrip) {
  u64 v = jpp_any<u64>("v");
  size_t pre = jpp_pick<size_t>("pre", 0, 12);
  util::CodedBuffer buf;
  for (size_t i = 0; i < pre; ++i) buf.writeVarint(i);
  size_t at = buf.position();
  jpp_check(at == pre, "position counts the written bytes");
  buf.writeVarint(v);
  buf.writeVarint(42);
  util::CodedBufferParser p{buf.contents()};
  u64 r = 0;
  for (size_t i = 0; i < pre; ++i) jpp_check(p.readVarint64(&r) && r == i, "earlier values survive growth");
  jpp_check(p.readVarint64(&r), "read back");
  jpp_check(r == v, "same value");
  jpp_observe(r);
  jpp_check(p.readVarint64(&r) && r == 42, "next value");
  jpp_check(p.remaining() == 0 && p.atEnd(), "consumed exactly");
  jpp_reach("end");
}

// any byte string: the reader agrees with the definition of the encoding,
// never looks past the end, and never moves past it
HARNESS(varint_parse) {
  size_t n = jpp_pick<size_t>("n", 0, 12);
  u8 b[12];
  jpp_make_symbolic(b, n, "b");
  char* h = new char[n];
  for (size_t i = 0; i < n; ++i) h[i] = (char)b[i];
  util::CodedBufferParser p{StringPiece{h, n}};
  u64 r = 0;
  bool ok = p.readVarint64(&r);
  size_t k = 0;
  while (k < n && k < 10 && (b[k] & 0x80)) ++k;
  bool rok = k < n && k < 10;
  jpp_check(ok == rok, "accepts exactly terminated encodings");
  if (ok) {
    u64 ref = 0;
    for (size_t i = 0; i <= k; ++i) ref |= (u64)(b[i] & 0x7f) << (7 * i);
    jpp_check(r == ref, "value of the encoding");
    jpp_check(p.remaining() == n - k - 1, "consumes the encoding");
    jpp_check((size_t)p.numReadBytes() == k + 1, "counts the consumed bytes");
    jpp_reach("ok");
  } else {
    jpp_check(p.remaining() <= n, "stays inside");
    jpp_reach("rejected");
  }
  jpp_observe(ok);
  delete[] h;
}

// strings, fixed words and integers interleaved in any order
HARNESS(mixed_roundtrip) {
  const int N = (int)jpp_param("ops", 3);
  u8 kind[6];
  u64 num[6];
  u32 fix[6];
  char str[6][4];
  size_t len[6];
  util::CodedBuffer buf;
  for (int i = 0; i < N; ++i) {
    kind[i] = jpp_pick<u8>("kind", 0, 2);
    if (kind[i] == 0) {
      num[i] = jpp_any<u64>("num");
      buf.writeVarint(num[i]);
    } else if (kind[i] == 1) {
      fix[i] = jpp_any<u32>("fix");
      buf.writeFixed32(fix[i]);
    } else {
      len[i] = jpp_pick<size_t>("len", 0, 3);
      jpp_make_symbolic(str[i], len[i], "str");
      buf.writeString(StringPiece{str[i], len[i]});
    }
  }
  StringPiece c = buf.contents();
  jpp_check(c.size() == buf.position(), "contents are the written bytes");
  char* h = new char[c.size()];
  for (size_t i = 0; i < c.size(); ++i) h[i] = c[i];
  util::CodedBufferParser p{StringPiece{h, c.size()}};
  for (int i = 0; i < N; ++i) {
    jpp_check(!p.atEnd(), "more data");
    if (kind[i] == 0) {
      u64 v = 0;
      jpp_check(p.readVarint64(&v) && v == num[i], "integer");
    } else if (kind[i] == 1) {
      u32 v = 0;
      jpp_check(p.readFixed32(&v) && v == fix[i], "fixed word");
    } else {
      StringPiece s;
      jpp_check(p.readStringPiece(&s) && s.size() == len[i], "string length");
      for (size_t j = 0; j < len[i]; ++j) jpp_check(s[j] == str[i][j], "string bytes");
    }
  }
  jpp_check(p.atEnd(), "nothing left");
  u32 x;
  StringPiece sp;
  jpp_check(!p.readFixed32(&x) && !p.readStringPiece(&sp) && !p.readInt(&x), "nothing more can be read");
  delete[] h;
  jpp_reach("end");
}

// strings and words read from arbitrary bytes lie inside the buffer
HARNESS(string_parse) {
  size_t n = jpp_pick<size_t>("n", 0, jpp_param("n", 5));
  u8 b[16];
  jpp_make_symbolic(b, n, "b");
  char* h = new char[n];
  for (size_t i = 0; i < n; ++i) h[i] = (char)b[i];
  util::CodedBufferParser p{StringPiece{h, n}};
  StringPiece s;
  bool ok = p.readStringPiece(&s);
  size_t k = 0;
  while (k < n && (b[k] & 0x80)) ++k;
  bool rok = k < n;
  if (rok) {
    u64 ref = 0;
    for (size_t i = 0; i <= k; ++i) ref |= (u64)(b[i] & 0x7f) << (7 * i);
    rok = ref <= n - k - 1;
    if (ok && rok) {
      jpp_check(s.size() == ref && s.begin() == h + k + 1, "string payload");
      jpp_check(p.remaining() == n - k - 1 - ref, "position after the string");
      u32 w = 0;
      bool fw = p.readFixed32(&w);
      jpp_check(fw == (n - k - 1 - ref >= 4), "fixed word needs four bytes");
    }
  }
  jpp_check(ok == rok, "string accepted iff it fits");
  jpp_reach(ok ? "ok" : "rejected");
  delete[] h;
}
