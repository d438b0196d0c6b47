// Dictionary: trie, import and read back of rows, match features.
#include "jpp.h"
#include <string.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include "core/dic/dic_builder.h"
#include "core/dic/dictionary.h"
#include "core/dic/darts_trie.h"
#include "core/spec/spec_dsl.h"
#include "core/spec/spec_types.h"
using namespace jumanpp;
using namespace jumanpp::core;
using dic::TraverseStatus;
typedef std::string Str;
typedef std::vector<Str> Strs;

static StringPiece sp(const Str& s) { return StringPiece{s.data(), s.size()}; }
static StringPiece cs(const char* s) { return StringPiece{s, strlen(s)}; }

// ---- trie ----
static void checkTrie(const Strs& keys, int L) {
  int K = (int)keys.size();
  dic::DoubleArrayBuilder b;
  for (int i = 0; i < K; ++i) b.add(sp(keys[i]), 100 + i * 3);
  jpp_check(b.build().isOk(), "builds");
  dic::DoubleArray da;
  jpp_check(da.loadFromMemory(b.result()).isOk(), "loads");
  // look up a byte string, byte by byte and in one step
  char q[4];
  auto t = da.traversal();
  for (int i = 1; i <= L; ++i) {
    q[i - 1] = (char)jpp_any<unsigned char>("q");
    auto st = t.step(StringPiece{q + i - 1, (size_t)1});
    int found = -1;
    bool prefix = false;
    for (int k = 0; k < K; ++k) {
      if (keys[k].size() < (size_t)i || memcmp(keys[k].data(), q, i) != 0) continue;
      prefix = true;
      if (keys[k].size() == (size_t)i) found = k;
    }
    auto want = found >= 0 ? TraverseStatus::Ok : prefix ? TraverseStatus::NoLeaf : TraverseStatus::NoNode;
    jpp_check(st == want, "a key is found, a proper prefix is no key, nothing else is found");
    if (found >= 0) jpp_check(t.value() == 100 + found * 3, "with its value");
    auto t2 = da.traversal();
    auto st2 = t2.step(StringPiece{q, (size_t)i});
    jpp_check(st2 == want, "one step over several bytes agrees");
    if (found >= 0) jpp_check(t2.value() == t.value(), "and finds the same value");
    if (want == TraverseStatus::NoNode) break;
  }
  jpp_reach("end");
}

HARNESS(trie) {
  const int K = jpp_pick<int>("keys", 1, (int)jpp_param("keys", 2));
  const int L = (int)jpp_param("len", 3);
  static const unsigned char alpha[] = {'a', 'b', 0xE3, 0xFF};
  Strs keys;
  for (int i = 0; i < K; ++i) {
    int n = jpp_pick<int>("len", 1, i == 0 ? L : 2);
    Str s;
    for (int j = 0; j < n; ++j) s.push_back((char)alpha[jpp_pick<int>("c", i == 0 ? 0 : 1, i == 0 ? 1 : 3)]);
    // the builder wants distinct keys
    for (auto& k : keys)
      if (k == s) return;
    keys.push_back(s);
  }
  checkTrie(keys, L);
}

// fixed key sets, every query byte
HARNESS(trie_bytes) {
  static const char* sets[4][6] = {{"a"}, {"a", "ab", "abc"}, {"\xe3\x81\x82", "\xe3\x81\x84", "\xe3\x82\xa2", "\x01"}, {"b", "ab", "a\xff", "\xff\xff", "\x7f", "\x80"}};
  int s = jpp_pick<int>("set", 0, 3);
  Strs keys;
  for (int i = 0; i < 6; ++i)
    if (sets[s][i]) keys.push_back(sets[s][i]);
  // added in any rotation
  std::rotate(keys.begin(), keys.begin() + jpp_pick<int>("rot", 0, (int)keys.size() - 1), keys.end());
  checkTrie(keys, 3);
}

// ---- import and read back ----
struct Row {
  Str c[5];  // by field: surface, pos, base, kv, list
};
enum { SURF, POS, BASE, KV, LIST };

static Strs split(const Str& s, char sep) {
  // items are separated by one separator; a trailing separator adds no item
  Strs r;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find(sep, i);
    if (e == Str::npos) e = s.size();
    r.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return r;
}

struct Dict {
  spec::AnalysisSpec sp;
  dic::DictionaryBuilder db;
  dic::DictionaryHolder dh;
  Str csv;

  // order: the order in which the fields are declared; column: csv column of each field
  bool build(const std::vector<Row>& rows, const int* order, const int* column, char listSep, int align, int unkRow, bool baseOwn) {
    {
      spec::dsl::ModelSpecBuilder b;
      spec::dsl::FieldBuilder* f[5] = {};
      static const char* names[5] = {"surf", "pos", "base", "kv", "list"};
      Str ls(1, listSep);
      for (int i = 0; i < 5; ++i) {
        int k = order[i];
        f[k] = &b.field(column[k], cs(names[k]));
        switch (k) {
          case SURF: f[k]->strings().trieIndex(); break;
          case POS: f[k]->strings().emptyValue("*"); break;
          case BASE: f[k]->strings(); break;
          case KV: f[k]->kvLists(); break;
          case LIST: f[k]->stringLists(); f[k]->listSeparator(sp_(ls)); break;
        }
      }
      if (align) f[SURF]->align(align);
      if (!baseOwn) f[BASE]->stringStorage(*f[SURF]);
      if (unkRow > 0) b.unk("u", unkRow).chunking(chars::CharacterClass::KATAKANA).outputTo({*f[SURF]});
      b.unigram({*f[SURF], *f[POS]});
      jpp_check(b.build(&sp).isOk(), "spec builds");
    }
    jpp_check(db.importSpec(&sp).isOk(), "spec imports");
    for (auto& r : rows) {
      Str cells[5];
      for (int i = 0; i < 5; ++i) cells[column[i] - 1] = r.c[i];
      for (int i = 0; i < 5; ++i) {
        if (i) csv += ',';
        csv += cells[i];
      }
      csv += '\n';
    }
    if (!db.importCsv("d", ::sp(csv)).isOk()) return false;
    jpp_check(dh.load(db.result()).isOk(), "dictionary loads");
    return true;
  }
  static StringPiece sp_(const Str& s) { return StringPiece{s.data(), s.size()}; }

  const dic::DictionaryField* field(int k) {
    static const char* names[5] = {"surf", "pos", "base", "kv", "list"};
    auto f = dh.fieldByName(cs(names[k]));
    jpp_check(f != nullptr, "field is there");
    return f;
  }

  static Str str(const dic::DictionaryField* f, i32 ptr) {
    StringPiece r;
    jpp_check(f->strings.readAt(ptr, &r), "string is readable");
    return r.str();
  }

  // everything stored for one entry's field value
  Str value(int k, util::ArraySlice<i32> feats, util::ArraySlice<i32> data) {
    auto f = field(k);
    i32 v = f->idxInEntry >= 0 ? feats.at(f->idxInEntry) : data.at(~f->idxInEntry);
    if (k <= BASE) return str(f, v);
    Strs items;
    if (k == LIST) {
      auto l = f->postions.listAt(v);
      i32 p = 0;
      while (!l.empty()) {
        jpp_check(l.readOneCumulative(&p), "list item");
        items.push_back(str(f, p));
      }
    } else {
      auto l = f->postions.kvListAt(v);
      while (l.hasNext()) {
        jpp_check(l.moveNext(), "kv item");
        Str s = str(f, l.key());
        if (l.hasValue()) s += ":" + str(f, l.value());
        items.push_back(s);
      }
    }
    std::sort(items.begin(), items.end());
    Str r;
    for (auto& i : items) r += "[" + i + "]";
    return r;
  }
};

static Str expected(const Row& r, int k, char listSep) {
  if (k == POS) return r.c[k] == "*" ? "" : r.c[k];
  if (k <= BASE) return r.c[k];
  auto items = split(r.c[k], k == LIST ? listSep : ' ');
  std::sort(items.begin(), items.end());
  Str s;
  for (auto& i : items) s += "[" + i + "]";
  return s;
}

static void checkRows(Dict& d, const std::vector<Row>& rows, int unkRow, char listSep) {
  std::map<Str, std::vector<Str>> want;  // surface -> rendered rows
  for (size_t i = 0; i < rows.size(); ++i) {
    if ((int)i + 1 == unkRow) continue;
    Str s;
    for (int k = 1; k < 5; ++k) s += expected(rows[i], k, listSep) + "|";
    want[rows[i].c[SURF]].push_back(s);
  }
  static const char* probes[] = {"a", "ab", "b", "abc"};
  for (auto p : probes) {
    auto t = d.dh.entries().traversal();
    auto st = t.step(StringPiece{p, strlen(p)});
    auto it = want.find(p);
    if (it == want.end()) {
      jpp_check(st != TraverseStatus::Ok, "a string that is no surface has no entries");
      continue;
    }
    jpp_check(st == TraverseStatus::Ok, "every surface is found");
    auto es = t.entries();
    std::vector<Str> got;
    std::vector<Str> groups;
    dic::DicEntryBuffer buf;
    i32 n = es.count();
    for (i32 i = 0; i < n; ++i) {
      jpp_check(es.readOnePtr(), "entry pointer");
      jpp_check(es.fillEntryData(&buf), "entry data");
      jpp_check(d.value(SURF, buf.features(), buf.data()) == p, "entries are stored under their own surface");
      int cnt = 0;
      Str pos;
      while (buf.nextData()) {
        Str s;
        for (int k = 1; k < 5; ++k) s += d.value(k, buf.features(), buf.data()) + "|";
        pos = d.value(POS, buf.features(), buf.data());
        got.push_back(s);
        ++cnt;
        jpp_check(cnt <= (int)rows.size(), "alias list ends");
      }
      jpp_check(es.currentPtr().isAlias() == (cnt > 1), "rows merge exactly when they are aliases");
      jpp_check(std::find(groups.begin(), groups.end(), pos) == groups.end(), "rows with equal features share one entry");
      groups.push_back(pos);
    }
    jpp_check(!es.readOnePtr(), "no further entries");
    std::sort(got.begin(), got.end());
    std::sort(it->second.begin(), it->second.end());
    jpp_check(got == it->second, "the rows with this surface read back");
  }
}

static const int ORDERS[3][5] = {{SURF, POS, BASE, KV, LIST}, {POS, LIST, SURF, KV, BASE}, {KV, BASE, LIST, POS, SURF}};
static const int COLUMNS[3][5] = {{1, 2, 3, 4, 5}, {1, 3, 2, 5, 4}, {4, 1, 5, 2, 3}};

HARNESS(dic_rows) {
  int N = jpp_pick<int>("rows", 1, (int)jpp_param("rows", 3));
  int perm = jpp_pick<int>("perm", 0, 2);
  int unk = jpp_pick<int>("unk", 0, 1);
  static const char* surfs[] = {"a", "ab", "b"};
  static const char* poss[] = {"x", "*"};
  static const char* bases[] = {"q", "a", ""};
  std::vector<Row> rows;
  for (int i = 0; i < N; ++i) {
    Row r;
    r.c[SURF] = surfs[jpp_pick<int>("s", 0, 2)];
    r.c[POS] = poss[jpp_pick<int>("p", 0, 1)];
    r.c[BASE] = bases[i % 3];
    r.c[KV] = i == 1 ? "k:v w" : i == 2 ? "w" : "";
    r.c[LIST] = i == 0 ? "l m" : "";
    rows.push_back(r);
  }
  Dict d;
  jpp_check(d.build(rows, ORDERS[perm], COLUMNS[(int)jpp_param("cols", 0)], ' ', perm, unk ? 1 : 0, perm == 2), "rows import");
  checkRows(d, rows, unk ? 1 : 0, ' ');
  jpp_reach("end");
}

HARNESS(dic_columns) {
  int perm = jpp_pick<int>("perm", 0, 2);
  int cols = jpp_pick<int>("cols", 0, 2);
  std::vector<Row> rows;
  static const char* surfs[] = {"a", "ab", "b"};
  for (int i = 0; i < 2; ++i) {
    Row r;
    r.c[SURF] = surfs[jpp_pick<int>("s", 0, 2)];
    r.c[POS] = i == 0 ? "a" : "*";
    r.c[BASE] = "b";
    r.c[KV] = "a b:ab";
    r.c[LIST] = "ab a";
    rows.push_back(r);
  }
  Dict d;
  jpp_check(d.build(rows, ORDERS[perm], COLUMNS[cols], ' ', 0, 0, true), "rows import");
  checkRows(d, rows, 0, ' ');
  jpp_reach("end");
}

// one row with an arbitrary list or key-value cell
HARNESS(dic_cells) {
  int which = jpp_pick<int>("which", 0, 2);
  char sep = which == 2 ? ';' : ' ';
  int n = jpp_pick<int>("len", 0, (int)jpp_param("len", 4));
  const char alpha[] = {'k', 'a', sep, which == 0 ? ':' : 'b'};
  Str cell;
  for (int i = 0; i < n; ++i) cell.push_back(alpha[jpp_pick<int>("c", 0, 3)]);
  std::vector<Row> rows(2);
  rows[0].c[SURF] = "a";
  rows[0].c[which == 0 ? KV : LIST] = cell;
  rows[1].c[SURF] = "b";
  rows[1].c[KV] = "a:k b";
  rows[1].c[LIST] = Str("b") + sep + "k";
  Dict d;
  jpp_check(d.build(rows, ORDERS[0], COLUMNS[0], sep, 0, 0, true), "rows import");
  checkRows(d, rows, 0, sep);
  jpp_reach("end");
}
