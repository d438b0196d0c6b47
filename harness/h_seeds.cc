// Which nodes the lattice gets: dictionary words and every kind of unknown word.
#include "env.h"
#include "core/analysis/charlattice.h"
using namespace jumanpp::core::analysis;

namespace {
struct Row2 { const char* surf; const char* pos; };
struct Seed {
  int start, end;
  Str surf, pos;
  bool unk;
  int place;
  bool operator<(const Seed& o) const {
    return std::tie(start, end, surf, pos, unk, place) < std::tie(o.start, o.end, o.surf, o.pos, o.unk, o.place);
  }
  bool operator==(const Seed& o) const {
    return std::tie(start, end, surf, pos, unk, place) == std::tie(o.start, o.end, o.surf, o.pos, o.unk, o.place);
  }
};
typedef std::vector<Seed> Seeds;

Str csvOf(const std::vector<Row2>& rows) {
  Str s;
  for (auto& r : rows) s += Str(r.surf) + "," + r.pos + "\n";
  return s;
}

// rows[0] is the template of the unknown words and no word itself
bool isKey(const std::vector<Row2>& rows, const Str& s) {
  for (size_t i = 1; i < rows.size(); ++i)
    if (s == rows[i].surf) return true;
  return false;
}
bool isPrefix(const std::vector<Row2>& rows, const Str& s) {
  for (size_t i = 1; i < rows.size(); ++i)
    if (Str(rows[i].surf).compare(0, s.size(), s) == 0) return true;
  return false;
}

Strs pickText(const Strs& alpha, int maxLen, int minLen = 0) {
  int n = jpp_pick<int>("len", minLen, maxLen);
  Strs t;
  for (int i = 0; i < n; ++i) t.push_back(alpha[jpp_pick<int>("ch", 0, (int)alpha.size() - 1)]);
  return t;
}

// over a few characters, or any text with kinds given
Strs textOf(const Strs& alpha, int n, int min) {
  n = (int)jpp_param("n", n);
  min = (int)jpp_param("min", min);
  auto kinds = jpp_param("kinds", 0);
  return kinds ? anyText(n, min, kinds) : pickText(alpha, n, min);
}

// seeds as places with what stands there; the surface is always the text itself
struct Mark {
  int start, end;
  Str pos;
  bool unk;
  int place;
  bool operator<(const Mark& o) const { return std::tie(start, end, pos, unk, place) < std::tie(o.start, o.end, o.pos, o.unk, o.place); }
  bool operator==(const Mark& o) const { return std::tie(start, end, pos, unk, place) == std::tie(o.start, o.end, o.pos, o.unk, o.place); }
};
typedef std::vector<Mark> Marks;
Marks marksOf(AnalyzerOpen* an, const Strs& t, bool unkOnly) {
  Marks r;
  StringField fs, fp;
  jpp_check(an->output().stringField("surf", &fs).isOk(), "surf field");
  jpp_check(an->output().stringField("pos", &fp).isOk(), "pos field");
  NodeWalker w;
  for (auto& s : an->latticeBldr()->seeds()) {
    bool unk = s.entryPtr.isSpecial();
    if (unkOnly && !unk) continue;
    jpp_check(an->output().locate(s.entryPtr, &w), "seed is located");
    while (w.next()) {
      Mark x{s.codepointStart, s.codepointEnd, fp[w].str(), unk, 0};
      jpp_check(0 <= x.start && x.start < x.end && x.end <= (int)t.size(), "inside the text");
      jpp_check(fs[w].str() == join(t, x.start, x.end), "the surface is the text it covers");
      if (unk && an->core().spec().features.numPlaceholders > 0) x.place = an->output().valueOfUnkPlaceholder(s.entryPtr, 0);
      r.push_back(x);
    }
  }
  std::sort(r.begin(), r.end());
  return r;
}

Seeds seedsOf(AnalyzerOpen* an, bool unkOnly) {
  Seeds r;
  StringField fs, fp;
  jpp_check(an->output().stringField("surf", &fs).isOk(), "surf field");
  jpp_check(an->output().stringField("pos", &fp).isOk(), "pos field");
  NodeWalker w;
  for (auto& s : an->latticeBldr()->seeds()) {
    bool unk = s.entryPtr.isSpecial();
    if (unkOnly && !unk) continue;
    jpp_check(an->output().locate(s.entryPtr, &w), "seed is located");
    while (w.next()) {
      Seed x{s.codepointStart, s.codepointEnd, fs[w].str(), fp[w].str(), unk, 0};
      if (unk && an->core().spec().features.numPlaceholders > 0) x.place = an->output().valueOfUnkPlaceholder(s.entryPtr, 0);
      r.push_back(x);
    }
  }
  std::sort(r.begin(), r.end());
  return r;
}

template <typename UnkFn>
void makeEnv(Env& e, const std::vector<Row2>& rows, UnkFn fn) {
  e.build(
      [&](spec::dsl::ModelSpecBuilder& b) {
        auto& s = b.field(1, "surf").strings().trieIndex();
        auto& p = b.field(2, "pos").strings();
        auto& ph = b.feature("notPrefix").placeholder();
        fn(b, s, ph);
        b.unigram({s, p, ph});
      },
      csvOf(rows));
}
}  // namespace

// dictionary words: exactly those which occur in the text
HARNESS(seeds_dic) {
  std::vector<Row2> rows = {{"UNK", "u"}, {"あ", "x"}, {"あい", "x"}, {"あい", "y"}, {"あい", "x"}, {"いa", "x"}, {"aーい", "z"}, {"ーー", "x"}, {"い", "y"}};
  Env e;
  makeEnv(e, rows, [](spec::dsl::ModelSpecBuilder& b, spec::dsl::FieldBuilder& s, spec::dsl::FeatureBuilder& f) {
    b.unk("u", 1).single(chars::CharacterClass::COLON).writeFeatureTo(f).outputTo({s});
  });
  auto an = e.analyzer(1);
  auto t = anyText((int)jpp_param("n", 3), (int)jpp_param("min", 0), jpp_param("kinds", 10));  
  Str text = join(t, 0, (int)t.size());
  jpp_check(an->resetForInput(sp(text)).isOk(), "input accepted");
  jpp_check(an->makeNodeSeedsFromDic().isOk(), "dictionary words");
  Marks want;
  for (int i = 0; i < (int)t.size(); ++i)
    for (int j = i + 1; j <= (int)t.size(); ++j)
      for (size_t r = 1; r < rows.size(); ++r)
        if (join(t, i, j) == rows[r].surf) want.push_back(Mark{i, j, rows[r].pos, false, 0});
  std::sort(want.begin(), want.end());
  jpp_check(marksOf(an, t, false) == want, "exactly the words which occur in the text");
  jpp_reach("end");
}

// runs of one character class
HARNESS(unk_chunking) {
  std::vector<Row2> rows = {{"UNK", "u"}, {"ア", "x"}, {"アイー", "x"}, {"イア", "u"}, {"あア", "y"}};
  Env e;
  makeEnv(e, rows, [](spec::dsl::ModelSpecBuilder& b, spec::dsl::FieldBuilder& s, spec::dsl::FeatureBuilder& f) {
    b.unk("u", 1).chunking(chars::CharacterClass::KATAKANA).writeFeatureTo(f).outputTo({s});
  });
  auto an = e.analyzer(1);
  auto t = anyText((int)jpp_param("n", 3), (int)jpp_param("min", 0), jpp_param("kinds", 10));  
  Str text = join(t, 0, (int)t.size());
  jpp_check(an->resetForInput(sp(text)).isOk(), "input accepted");
  jpp_check(an->makeNodeSeedsFromDic().isOk(), "dictionary words");
  jpp_check(an->makeUnkNodes1().isOk(), "unknown words");
  Marks want;
  auto& cps = an->input().codepoints();
  for (int i = 0; i < (int)t.size(); ++i)
    for (int j = i + 1; j <= (int)t.size() && cps[j - 1].hasClass(chars::CharacterClass::KATAKANA); ++j) {
      Str s = join(t, i, j);
      if (!isKey(rows, s)) want.push_back(Mark{i, j, "u", true, isPrefix(rows, s) ? 0 : 1});
    }
  std::sort(want.begin(), want.end());
  jpp_check(marksOf(an, t, true) == want, "every part of a run which is no dictionary word");
  jpp_reach("end");
}

HARNESS(unk_single) {
  std::vector<Row2> rows = {{"UNK", "u"}, {"ア", "x"}, {"イア", "x"}, {"あ", "y"}};
  Env e;
  makeEnv(e, rows, [](spec::dsl::ModelSpecBuilder& b, spec::dsl::FieldBuilder& s, spec::dsl::FeatureBuilder& f) {
    b.unk("u", 1).single(chars::CharacterClass::KATAKANA).writeFeatureTo(f).outputTo({s});
  });
  auto an = e.analyzer(1);
  auto t = anyText((int)jpp_param("n", 3), (int)jpp_param("min", 0), jpp_param("kinds", 10));  
  Str text = join(t, 0, (int)t.size());
  jpp_check(an->resetForInput(sp(text)).isOk(), "input accepted");
  jpp_check(an->makeNodeSeedsFromDic().isOk(), "dictionary words");
  jpp_check(an->makeUnkNodes1().isOk(), "unknown words");
  Marks want;
  auto& cps = an->input().codepoints();
  for (int i = 0; i < (int)t.size(); ++i)
    if (cps[i].hasClass(chars::CharacterClass::KATAKANA) && !isKey(rows, t[i])) want.push_back(Mark{i, i + 1, "u", true, isPrefix(rows, t[i]) ? 0 : 1});
  std::sort(want.begin(), want.end());
  jpp_check(marksOf(an, t, true) == want, "every single character which is no dictionary word");
  jpp_reach("end");
}

// a pattern repeated twice
HARNESS(unk_onomatopoeia) {
  std::vector<Row2> rows = {{"UNK", "u"}, {"あ", "x"}, {"ああい", "x"}, {"あいあい", "y"}, {"いあい", "x"}};
  if (jpp_param("plain", 0)) rows = {{"UNK", "u"}, {"か", "x"}, {"あいう", "x"}};
  Env e;
  makeEnv(e, rows, [](spec::dsl::ModelSpecBuilder& b, spec::dsl::FieldBuilder& s, spec::dsl::FeatureBuilder& f) {
    b.unk("u", 1).onomatopoeia(chars::CharacterClass::FAMILY_KANA).writeFeatureTo(f).outputTo({s});
  });
  auto an = e.analyzer(1);
  Strs alpha = {"あ", "い", "ア"};
  if (jpp_param("plain", 0)) alpha = {"う", "い"};
  auto t = textOf(alpha, 5, 3);
  if (jpp_param("rest", 0))  // followed by characters of any kind
    for (auto& c : pickText({"う", "い", "山"}, (int)jpp_param("rest", 0), (int)jpp_param("rest", 0))) t.push_back(c);
  Str text = join(t, 0, (int)t.size());
  jpp_check(an->resetForInput(sp(text)).isOk(), "input accepted");
  jpp_check(an->makeNodeSeedsFromDic().isOk(), "dictionary words");
  jpp_check(an->makeUnkNodes1().isOk(), "unknown words");
  Marks want;
  auto& cps = an->input().codepoints();
  for (int i = 0; i < (int)t.size(); ++i)
    for (int h = 2; h <= 4; ++h) {
      if (i + 2 * h > (int)t.size()) break;
      Str a = join(t, i, i + h), b = join(t, i + h, i + 2 * h);
      if (a != b) continue;
      bool ok = cps[i].hasClass(chars::CharacterClass::FAMILY_KANA);
      for (int k = i; k < i + h; ++k) ok = ok && cps[k].hasClass(cps[i].charClass);
      if (ok && !isKey(rows, a + b)) want.push_back(Mark{i, i + 2 * h, "u", true, isPrefix(rows, a + b) ? 0 : 1});
    }
  std::sort(want.begin(), want.end());
  jpp_check(marksOf(an, t, true) == want, "every repeated pattern of 2 to 4 kana of one class");
  jpp_reach("end");
}

// numbers
namespace {
bool startsWith(const Strs& t, int at, const Strs& p) {
  if (at + (int)p.size() > (int)t.size()) return false;
  for (size_t i = 0; i < p.size(); ++i)
    if (t[at + i] != p[i]) return false;
  return true;
}
const Strs PRE[] = {{"数"}, {"何"}, {"幾"}};
const Strs INF[] = {{"ぶ", "ん", "の"}, {"分", "の"}};
const Strs SUF[] = {{"キ", "ロ"}, {"メ", "ガ"}, {"ギ", "ガ"}, {"テ", "ラ"}, {"ミ", "リ"}};
}  // namespace

HARNESS(unk_numeric) {
  std::vector<Row2> rows = {{"UNK", "u"}, {"１", "x"}, {"１１", "u"}, {"十", "u"}, {"１．１", "x"}, {"数", "x"}};
  Env e;
  makeEnv(e, rows, [](spec::dsl::ModelSpecBuilder& b, spec::dsl::FieldBuilder& s, spec::dsl::FeatureBuilder& f) {
    b.unk("u", 1).numeric(chars::CharacterClass::FAMILY_DIGITS).writeFeatureTo(f).outputTo({s});
  });
  auto an = e.analyzer(1);
  Strs alpha;
  switch (jpp_param("alpha", 0)) {
    case 0: alpha = {"１", "，", "．", "あ"}; break;
    case 1: alpha = {"１", "数", "キ", "ロ", "十"}; break;
    default: alpha = {"十", "分", "の", "．"};
  }
  auto t = textOf(alpha, 3, 0);
  int n = (int)t.size();
  Str text = join(t, 0, n);
  jpp_check(an->resetForInput(sp(text)).isOk(), "input accepted");
  jpp_check(an->makeNodeSeedsFromDic().isOk(), "dictionary words");
  jpp_check(an->makeUnkNodes1().isOk(), "unknown words");
  auto& cp = an->input().codepoints();
  typedef chars::CharacterClass CC;
  const CC num = CC::FAMILY_DIGITS;
  // the number starting at i: its length
  auto suffixAt = [&](int at) -> int {
    if (!cp[at - 1].hasClass(CC::FAMILY_EXCEPTION)) return 0;
    for (auto& x : SUF)
      if (startsWith(t, at, x)) return (int)x.size();
    return 0;
  };
  auto numberAt = [&](int i) -> int {
    int p = i;
    while (p < n) {
      if (cp[p].hasClass(num)) {
        ++p;
        continue;
      }
      int len = 0;
      // 数十, 数キロ
      for (auto& x : PRE)
        if (!len && startsWith(t, p, x) && p + 1 < n) {
          int s = suffixAt(p + 1);
          if (s || cp[p + 1].hasClass(CC::FIGURE_DIGIT)) len = 1 + s;
        }
      // １分の１
      for (auto& x : INF) {
        int q = p + (int)x.size();
        if (!len && p > i && startsWith(t, p, x) && q < n && cp[p - 1].hasClass(num) && cp[q].hasClass(num)) len = (int)x.size();
      }
      // １キロ
      if (!len && p > i) len = suffixAt(p);
      // １，１１１
      if (!len && p > i && cp[p].hasClass(CC::COMMA)) {
        int f = 0;
        while (p + 1 + f < n && cp[p + 1 + f].hasClass(CC::FIGURE)) ++f;
        if (f == 3) len = 1;
      }
      // １．１
      if (!len && p > i && cp[p].hasClass(CC::FAMILY_NUM_PERIOD) && p + 1 < n && cp[p - 1].hasClass(num) && cp[p + 1].hasClass(num)) len = 1;
      if (!len) break;
      p += len;
    }
    return p - i;
  };
  Marks want;
  for (int i = 0; i < n; ++i) {
    int len = numberAt(i);
    if (len == 0) continue;
    Str s = join(t, i, i + len);
    bool same = false;
    for (size_t r = 1; r < rows.size(); ++r) same = same || (s == rows[r].surf && Str("u") == rows[r].pos);
    if (!same) want.push_back(Mark{i, i + len, "u", true, isPrefix(rows, s) ? 0 : 1});
  }
  std::sort(want.begin(), want.end());
  auto got = marksOf(an, t, true);
  jpp_check(got == want, "the longest number from every character");
  jpp_reach("end");
}

// spelling variants of dictionary words
namespace {
struct Alt {
  Str text;  // empty: deleted
  int flags;
};
enum { ORIGINAL = 1, SMALL = 2, REPLACE = 4, DELETE = 8, PROLONG = 16, DEL_LAST = 32, DEL_PROLONG = 64, DEL_HATSUON = 128, DEL_SMALL = 256, EROW = 512 };

// the part of the tables used here
Str vowelOf(const Str& c) { return c == "か" ? "あ" : c == "ね" || c == "え" || c == "い" || c == "け" ? "い" : c == "く" ? "う" : ""; }
Str eVowelOf(const Str& c) { return c == "ね" || c == "え" || c == "け" ? "え" : ""; }
Str largeOf(const Str& c) { return c == "ぁ" ? "あ" : c == "ぇ" ? "え" : c == "ぃ" ? "い" : ""; }
Str smallAfter(const Str& c) { return c == "か" ? "ぁ" : c == "け" ? "ぇ" : c == "ね" || c == "い" ? "ぃ" : c == "く" ? "ぅ" : ""; }
bool isChoon(const Str& c) { return c == "ー" || c == "〜"; }
bool isKana(const Str& c) { return c != "x" && c != "山" && !isChoon(c); }
bool isKatakana(const Str& c) { return c == "ア" || c == "ッ"; }
// a long vowel mark is both hiragana and katakana
bool sameKana(const Str& a, const Str& b) { return isChoon(a) || (isKana(a) && isKatakana(a) == isKatakana(b)); }

std::vector<std::vector<Alt>> altsOf(const Strs& t) {
  std::vector<std::vector<Alt>> r(t.size());
  bool prevDel = false;
  for (size_t p = 0; p < t.size(); ++p) {
    const Str& c = t[p];
    bool del = false;
    if (c != "x") {
      if (p > 0 && isChoon(c) && vowelOf(t[p - 1]) != "") {
        r[p].push_back(Alt{vowelOf(t[p - 1]), REPLACE | PROLONG});
        if (eVowelOf(t[p - 1]) != "") r[p].push_back(Alt{eVowelOf(t[p - 1]), REPLACE | PROLONG | EROW});
      } else if (largeOf(c) != "")
        r[p].push_back(Alt{largeOf(c), REPLACE | SMALL});
      if (p > 0) {
        const Str& b = t[p - 1];
        if (isChoon(c)) {
          if (prevDel || b != "x") {
            // a long vowel mark itself counts as katakana unless it is a wave dash
            if (prevDel || !isChoon(b) || b == "ー") del = true;
          }
          if (del) r[p].push_back(Alt{"", DELETE | DEL_PROLONG});
        } else if (c == "っ" || c == "ッ") {
          bool last = p + 1 == t.size();
          if (prevDel || last)
            del = true;
          else {
            const Str& a = t[p + 1];
            if (a == "x" || a == c) del = true;
            else if (sameKana(a, c) && sameKana(b, c)) del = true;
          }
          if (del) r[p].push_back(Alt{"", DELETE | DEL_HATSUON});
        }
        if (!del && ((smallAfter(b) != "" && smallAfter(b) == c) || (prevDel && largeOf(c) != "" && c == b))) {
          del = true;
          r[p].push_back(Alt{"", DELETE | DEL_SMALL});
        }
      }
    }
    prevDel = del;
  }
  return r;
}
}  // namespace

HARNESS(unk_normalize) {
  std::vector<Row2> rows = {{"UNK", "u"}, {"ね", "a"}, {"ねえ", "b"}, {"ねい", "c"}, {"ねっか", "d"}, {"ねか", "e"}, {"か", "f"}, {"かあか", "g"}, {"かか", "h"}, {"xか", "i"}, {"ねx", "j"}, {"かー", "k"}, {"山", "l"}, {"山か", "m"}};
  Env e;
  makeEnv(e, rows, [](spec::dsl::ModelSpecBuilder& b, spec::dsl::FieldBuilder& s, spec::dsl::FeatureBuilder& f) {
    b.unk("u", 1).normalize().writeFeatureTo(f).outputTo({s});
  });
  auto an = e.analyzer(1);
  Strs alpha;
  switch (jpp_param("alpha", 0)) {
    case 0: alpha = {"ね", "か", "ー", "え", "っ"}; break;
    case 1: alpha = {"か", "ぁ", "ー", "x"}; break;
    default: alpha = {"か", "っ", "ー", "山", "x"};
  }
  auto t = textOf(alpha, 4, 1);
  int n = (int)t.size();
  Str text = join(t, 0, n);
  jpp_check(an->resetForInput(sp(text)).isOk(), "input accepted");
  jpp_check(an->makeNodeSeedsFromDic().isOk(), "dictionary words");
  jpp_check(an->makeUnkNodes1().isOk(), "unknown words");
  auto alts = altsOf(t);
  // every spelling
  struct State { int end; Str text; int flags; bool lastDel; };
  Seeds want;           // flags in place
  for (int i = 0; i < n; ++i) {
    std::vector<State> st{{i + 1, t[i], ORIGINAL, false}};
    for (size_t k = 0; k < st.size(); ++k) {
      State s = st[k];
      if (s.flags != ORIGINAL)
        for (size_t r = 1; r < rows.size(); ++r)
          if (s.text == rows[r].surf) want.push_back(Seed{i, s.end, join(t, i, s.end), rows[r].pos, true, s.flags | (s.lastDel ? DEL_LAST : 0)});
      if (s.end == n) continue;
      st.push_back(State{s.end + 1, s.text + t[s.end], s.flags, false});
      for (auto& a : alts[s.end]) st.push_back(State{s.end + 1, s.text + a.text, s.flags | a.flags, a.text.empty()});
    }
  }
  auto got = seedsOf(an, true);
  for (auto& g : got) {
    bool ok = std::find(want.begin(), want.end(), g) != want.end();
    jpp_check(ok, "every variant is a spelling of a dictionary word with its changes");
  }
  // the rows differ in pos; of several ways to the same row one is kept
  for (auto& x : got) x.place = 0;
  for (auto& x : want) x.place = 0;
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  jpp_check(std::unique(got.begin(), got.end()) == got.end(), "no variant twice");
  want.erase(std::unique(want.begin(), want.end()), want.end());
  jpp_check(got == want, "all variants of dictionary words are found");
  jpp_reach("end");
}
