// CSV reading against an independent reference reader.
#include <string>
#include <vector>
#include "jpp.h"
#include "util/csv_reader.h"
using namespace jumanpp;

namespace {
struct Ref {
  const char* d;
  size_t n, pos = 0;
  char sep, quote;
  // one record; returns false at the end of input or on malformed input
  bool next(std::vector<std::string>* out, bool* bad) {
    out->clear();
    *bad = false;
    if (pos == n) return false;
    std::string cur;
    for (;;) {
      // at the start of a field
      cur.clear();
      if (pos < n && d[pos] == quote) {
        ++pos;
        for (;;) {
          if (pos == n) return *bad = true, false;
          if (d[pos] == quote) {
            if (pos + 1 < n && d[pos + 1] == quote) {
              cur.push_back(quote);
              pos += 2;
              continue;
            }
            ++pos;
            break;
          }
          cur.push_back(d[pos++]);
        }
        if (pos < n && d[pos] != sep && d[pos] != '\n' && d[pos] != '\r') return *bad = true, false;
        if (pos < n && d[pos] == '\r' && !(pos + 1 < n && d[pos + 1] == '\n')) return *bad = true, false;
      } else {
        while (pos < n && d[pos] != sep && d[pos] != '\n' && !(d[pos] == '\r' && pos + 1 < n && d[pos + 1] == '\n')) {
          if (d[pos] == quote) return *bad = true, false;
          cur.push_back(d[pos++]);
        }
      }
      out->push_back(cur);
      if (pos == n) return true;
      if (d[pos] == sep) {
        ++pos;
        continue;
      }
      bool crlf = jpp_concretize(d[pos] == '\r');
      if (crlf) ++pos;
      ++pos;  // LF
      // LF CR ends one line as well
      if (!crlf && pos < n && jpp_concretize(d[pos] == '\r')) ++pos;
      return true;
    }
  }
};
}  // namespace

HARNESS(csv_reference) {
  size_t n = jpp_pick<size_t>("n", 0, jpp_param("n", 5));
  static const char alphabet[] = {'a', ',', '"', '\n', '\r', ' '};
  char* h = new char[n];
  for (size_t i = 0; i < n; ++i) {
    u8 b = jpp_any<u8>("c");
    bool any = false;
    for (char c : alphabet) any |= b == (u8)c;
    jpp_assume(any);
    h[i] = (char)b;
  }
  util::CsvReader csv;
  jpp_check(csv.initFromMemory(StringPiece{h, n}).isOk(), "init");
  Ref ref{h, n, 0, ',', '"'};
  int lines = 0;
  for (;;) {
    std::vector<std::string> exp;
    bool bad;
    bool r = ref.next(&exp, &bad);
    bool a = csv.nextLine();
    jpp_assume(!bad);
    jpp_check(a == r, "a record for every line and nothing more");
    if (!r) break;
    ++lines;
    jpp_check(csv.lineNumber() == lines, "record number");
    jpp_check((size_t)csv.numFields() == exp.size(), "number of fields");
    for (size_t i = 0; i < exp.size(); ++i) {
      StringPiece f = csv.field((i32)i);
      jpp_check(f.size() == exp[i].size(), "field length");
      for (size_t j = 0; j < f.size(); ++j) jpp_check(f[j] == exp[i][j], "field content");
    }
  }
  jpp_observe(lines);
  delete[] h;
  jpp_reach("end");
}

// arbitrary bytes: no access outside the text, always makes progress
HARNESS(csv_any) {
  size_t n = jpp_pick<size_t>("n", 0, jpp_param("n", 5));
  char* h = new char[n];
  jpp_make_symbolic(h, n, "h");
  util::CsvReader csv{'\t', '\''};
  jpp_check(csv.initFromMemory(StringPiece{h, n}).isOk(), "init");
  size_t lines = 0, total = 0;
  while (csv.nextLine()) {
    ++lines;
    jpp_check(lines <= n, "reading ends");
    if (lines > n) break;
    jpp_check(csv.numFields() > 0, "records have fields");
    for (i32 i = 0; i < csv.numFields(); ++i) total += csv.field(i).size();
  }
  jpp_check(total <= n, "fields contain only the text");
  jpp_observe(lines);
  jpp_observe(total);
  delete[] h;
  jpp_reach("end");
}
