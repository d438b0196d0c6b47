// Output formats of the jumandic tools against the words of the best path.
#include <stdio.h>
#include "env.h"
#include "core/impl/segmented_format.h"
#include "jumandic/shared/jumandic_ids.h"
#include "jumandic/shared/jumandic_spec.h"
#include "jumandic/shared/juman_format.h"
#include "jumandic/shared/lattice_format.h"
#include "jumandic/shared/mdic_format.h"
#include "jumandic/shared/morph_format.h"
#include "jumandic/shared/subset_format.h"
#include "util/csv_reader.h"
namespace jo = jumanpp::jumandic::output;
namespace {
struct Row {
  Str surf, pos, sub, form, type, base, read, canon, feats;
};
const char* const NAMES[] = {"surface", "pos", "subpos", "conjform", "conjtype", "baseform", "reading"};
Str orNone(const Str& s) { return s == "*" ? Str() : s; }
Str field(const Row& r, int i) {
  switch (i) {
    case 0: return r.surf;
    case 1: return orNone(r.pos);
    case 2: return orNone(r.sub);
    case 3: return orNone(r.form);
    case 4: return orNone(r.type);
    case 5: return r.base;
    default: return r.read;
  }
}
bool sameWord(const Row& a, const Row& b) {
  for (int i = 0; i < 7; ++i)
    if (field(a, i) != field(b, i)) return false;
  // these two features are parts of a word, too
  for (auto f : {"濁音化D", "連用形名詞化"}) {
    auto has = [&](const Str& s) { Str x = " " + s + " "; return x.find(Str(" ") + f + " ") != Str::npos || x.find(Str(" ") + f + ":") != Str::npos; };
    if (has(a.feats) != has(b.feats)) return false;
  }
  return true;
}
std::vector<Row> templates() {
  return {{"×", "特殊", "記号", "*", "*", "×", "×", "*", "NIL"},
          {"カタ", "名詞", "普通名詞", "*", "*", "カタ", "カタ", "*", "自動:カ"},
          {"漢", "名詞", "サ変名詞", "*", "*", "漢", "漢", "*", "NIL"},
          {"ひら", "未定義語", "その他", "*", "*", "ひら", "ひら", "ひら/よみ", "NIL"},
          {"al", "名詞", "組織名", "*", "*", "al", "al", "al/al", "英語 x:y"},
          {"１", "名詞", "数詞", "*", "*", "１", "１", "*", "カテゴリ:数量"},
          {"ono", "副詞", "*", "*", "*", "ono", "ono", "*", "NIL"},
          {"未", "未定義語", "カタカナ", "*", "*", "未", "未", "*", "NIL"}};
}

// a word as it has to be printed: the entries which share its features
struct Word {
  int start, len;  // in characters
  std::vector<Row> rows;
  bool special;
  u32 flags;
  LatticeNodePtr node;
};

// an additional scorer: every way of a word has one of four scores
struct OtherComputer : ScoreComputer {
  const float* s;
  Status scoreLattice(Lattice* l, const ExtraNodesContext*, u32 idx) override {
    for (u32 b = 2; b < l->createdBoundaryCount(); ++b) {
      auto bnd = l->boundary(b);
      for (u32 r = 0; r < bnd->localNodeCount(); ++r) {
        auto ns = bnd->scores()->nodeScores((int)r);
        for (u32 left = 0; left < ns.left(); ++left)
          for (u32 bm = 0; bm < ns.beam(); ++bm) ns.beamLeft((int)bm, (int)left).at(idx) = s[(b + r + left * 2 + bm) & 3];
      }
    }
    return Status::Ok();
  }
};
struct OtherFactory : ScorerFactory {
  const float* s;
  Status load(const ::jumanpp::core::model::ModelInfo&) override { return Status::Ok(); }
  Status makeInstance(std::unique_ptr<ScoreComputer>* res) override {
    auto c = new OtherComputer;
    c->s = s;
    res->reset(c);
    return Status::Ok();
  }
};

struct FmtEnv : Env {
  std::vector<Row> rows;
  Strs text;
  std::vector<float> w;
  float others[4];
  OtherFactory of;
  std::unique_ptr<HashedFeaturePerceptron> hfp;
  ScorerDef sd;
  Analyzer an2;

  static Str line(const Row& r) {
    auto q = [](const Str& s) {
      if (s.find_first_of(",\"\n\r") == Str::npos) return s;
      Str x = "\"";
      for (char c : s) { if (c == '"') x += '"'; x += c; }
      return x + '"';
    };
    return q(r.surf) + ",0,0,0," + q(r.pos) + "," + q(r.sub) + "," + q(r.form) + "," + q(r.type) + "," + q(r.base) + "," + q(r.read) + "," + q(r.canon) + "," + q(r.feats) + "\n";
  }
  void make(const std::vector<Row>& words) {
    rows = templates();
    for (auto& x : words) rows.push_back(x);
    Str csv;
    for (auto& r : rows) csv += line(r);
    build([](spec::dsl::ModelSpecBuilder& b) { jumandic::SpecFactory::fillSpec(b); }, csv);
  }
  void scorer(int nw, int lim) {
    w.assign(nw, 0);
    for (auto& x : w) x = (float)jpp_range<int>("w", -lim, lim);
    hfp.reset(new HashedFeaturePerceptron{util::ArraySlice<float>{w.data(), w.size()}});
    sd.feature = hfp.get();
    sd.scoreWeights.assign(1, jpp_param("other", 0) ? 0.5f : 1.0f);
    if (jpp_param("other", 0)) {
      for (auto& x : others) x = (float)jpp_range<int>("other", -lim, lim);
      of.s = others;
      sd.others.push_back(&of);
      sd.scoreWeights.push_back(2.0f);
    }
    jpp_check(an2.initialize(an.get(), &sd).isOk(), "analyzer");
  }
  bool analyze(const Strs& t) {
    text = chars_of(join(t, 0, (int)t.size()));
    Str all = join(t, 0, (int)t.size());
    return an2.analyze(sp(all)).isOk();
  }
  Str raw(const char* f, i32 ptr) {
    StringPiece p;
    jpp_check(dh.fieldByName(cs(f))->strings.readAt(ptr, &p), "string");
    return p.str();
  }
  // the word at a node of the lattice
  Word word(LatticeNodePtr ptr) {
    auto st = an->lattice()->boundary(ptr.boundary)->starts();
    auto& ni = st->nodeInfo().at(ptr.position);
    auto vals = st->entryData().row(ptr.position);
    Word r;
    r.node = ptr;
    r.start = ptr.boundary - 2;
    r.len = ni.numCodepoints();
    r.special = ni.entryPtr().isSpecial();
    r.flags = r.special ? (u32)an->extraNodesContext()->placeholderData(ni.entryPtr(), 0) : 0;
    Str span = join(text, r.start, r.start + r.len);
    bool has[7];
    Str s[7];
    for (int i = 0; i < 7; ++i) {
      i32 v = vals.at(i);
      has[i] = v >= 0;
      if (has[i]) s[i] = raw(NAMES[i], v);
    }
    jpp_check(r.special || s[0] == span, "a dictionary word has the text it stands for");
    size_t count = has[5] ? rows.size() : templates().size();
    for (size_t k = 0; k < count; ++k) {
      auto& row = rows[k];
      bool same = true;
      for (int i = 0; i < 7 && same; ++i)
        if (has[i]) same = s[i] == field(row, i);
      if (same && !r.rows.empty()) {
        Row x = row;
        if (!has[0]) x.surf = span;
        if (!has[5]) x.base = span;
        if (!has[6]) x.read = span;
        jpp_check(sameWord(x, r.rows[0]), "one word");
        r.rows.push_back(x);
      } else if (same) {
        r.rows.push_back(row);
        if (!has[0]) r.rows[0].surf = span;
        if (!has[5]) r.rows[0].base = span;
        if (!has[6]) r.rows[0].read = span;
      }
    }
    jpp_check(!r.rows.empty(), "the word is one of the dictionary's");
    return r;
  }
  // words of the i-th best analysis
  std::vector<Word> path(int i) {
    std::vector<Word> r;
    auto l = an->lattice();
    auto nb = l->createdBoundaryCount();
    if (nb <= 3) return r;
    auto& el = l->boundary(nb - 1)->starts()->beamData().at(i);
    for (auto p = el.ptr.previous; p->boundary >= 2; p = p->previous) r.push_back(word(p->latticeNodePtr()));
    std::reverse(r.begin(), r.end());
    return r;
  }
};

struct Ids { int pos, sub, type, form; };
Ids idsOf(const Row& r) {
  Ids x{0, 0, 0, 0};
  for (int i = 0; i < jumandic::posInfoCount; ++i) {
    auto& p = jumandic::posInfo[i];
    if (p.part1 == sp(r.pos) && p.part2 == sp(r.sub)) { x.pos = p.id1; x.sub = p.id2; }
  }
  for (int i = 0; i < jumandic::conjInfoCount; ++i) {
    auto& p = jumandic::conjInfo[i];
    if (p.part1 == sp(r.type) && p.part2 == sp(r.form)) { x.type = p.id1; x.form = p.id2; }
    if (p.part1 == sp(r.type) && r.form == "*") x.type = p.id1;
  }
  return x;
}
Str num(int i) { return std::to_string(i); }
Str esc(const Str& s, bool space) { return s == "\t" ? Str("\\t") : space && s == " " ? Str("\\␣") : s; }
Str normText(u32 f) {
  static const struct { u32 bit; char c; } T[] = {{4, 'R'}, {2, 's'}, {16, 'p'}, {0x200, 'e'}, {8, 'D'}, {64, 'P'}, {0x100, 'S'}, {0x80, 'H'}, {32, 'L'}};
  Str r = "非標準表記:";
  for (auto& t : T) if (f & t.bit) r += t.c;
  return r;
}

// compares a text with what it has to be, from left to right
struct Cmp {
  StringPiece got;
  size_t pos = 0;
  bool ok = true;
  explicit Cmp(StringPiece g) : got(g) {
    if (jpp_param("show", 0)) { Str s = "\n" + g.str(); jpp_print(s.c_str(), 0); }
  }
  bool at(const Str& s) const { return s.size() <= got.size() - pos && memcmp(got.begin() + pos, s.data(), s.size()) == 0; }
  Cmp& lit(const Str& s) {
    if (!ok) return *this;
    ok = at(s);
    if (ok) pos += s.size();
    else if (jpp_param("show", 0)) { Str x = "expected " + s + " at " + got.str().substr(pos, 40); jpp_print(x.c_str(), pos); }
    return *this;
  }
  // these in any order, every one but the last one followed by a separator
  Cmp& list(Strs items, const Str& sep, bool last) {
    while (ok && !items.empty()) {
      bool found = false;
      for (size_t i = 0; i < items.size() && !found; ++i) {
        Str s = items[i] + (items.size() > 1 || last ? sep : Str());
        bool longer = false;
        for (size_t j = 0; j < items.size(); ++j)
          if (items[j].size() > items[i].size() && at(items[j])) longer = true;
        if (longer || !at(s)) continue;
        found = true;
        pos += s.size();
        items.erase(items.begin() + i);
      }
      ok = found;
      if (!ok && jpp_param("show", 0)) { Str x = "expected a feature at " + got.str().substr(pos, 40); jpp_print(x.c_str(), pos); }
    }
    return *this;
  }
  bool end() const { return ok && pos == got.size(); }
};
Strs split(const Str& s, char c) {
  Strs r;
  Str x;
  for (char k : s + c) {
    if (k != c) { x += k; continue; }
    if (!x.empty()) r.push_back(x);
    x.clear();
  }
  return r;
}
Strs featsOf(const Row& r) { return r.feats == "NIL" ? Strs() : split(r.feats, ' '); }

void jumanText(Cmp& c, const std::vector<Word>& ws, const Str& comment) {
  if (!comment.empty()) c.lit("# " + comment + "\n");
  for (auto& w : ws) {
    bool first = true;
    for (auto& x : w.rows) {
      if (!first) c.lit("@ ");
      first = false;
      auto id = idsOf(x);
      c.lit(esc(x.surf, true) + " " + esc(x.read, true) + " " + esc(x.base, true) + " " + x.pos + " " + num(id.pos) + " " + x.sub + " " + num(id.sub) + " " + x.type + " " + num(id.type) + " " + x.form + " " + num(id.form) + " ");
      auto f = featsOf(x);
      bool canon = x.canon != "*", norm = w.flags != 0;
      if (!w.special && f.empty() && !canon) { c.lit("NIL\n"); continue; }
      c.lit("\"");
      if (canon) c.lit("代表表記:" + x.canon + (!f.empty() || norm ? " " : ""));
      c.list(f, " ", norm);
      if (norm) c.lit(normText(w.flags));
      c.lit("\"\n");
    }
  }
  c.lit("EOS\n");
}
std::vector<Row> words(int k) {
  switch (k) {
    case 0:
      return {{"は", "助詞", "副助詞", "*", "*", "は", "は", "*", "NIL"},
              {"なり", "動詞", "*", "基本連用形", "子音動詞ラ行", "なる", "なり", "成る/なる", "自他動詞:他:成す/なす;他:する/する"},
              {"なり", "接尾辞", "動詞性接尾辞", "基本連用形", "子音動詞ラ行", "なる", "なり", "*", "NIL"},
              {"なり", "動詞", "*", "基本連用形", "子音動詞ラ行", "なる", "なり", "鳴る/なる", "自他動詞:他:鳴らす/ならす"},
              {"なり", "動詞", "*", "基本連用形", "子音動詞ラ行", "なる", "なり", "*", "NIL"},
              {"り", "名詞", "*", "*", "*", "り", "り", "*", "NIL"},
              {"りな", "動詞", "*", "*", "子音動詞ラ行", "りな", "りな", "*", "NIL"},
              {" ", "特殊", "空白", "*", "*", " ", " ", "*", "NIL"}};
    case 2:
      return {{"は", "助詞", "副助詞", "*", "*", "は", "は", "*", "NIL"},
              {"は", "名詞", "普通名詞", "*", "*", "は", "は", "歯/は", "NIL"},
              {"な", "助詞", "終助詞", "*", "*", "な", "な", "*", "NIL"},
              {"り", "名詞", "普通名詞", "*", "*", "り", "り", "*", "NIL"},
              {"り", "動詞", "*", "*", "*", "り", "り", "*", "NIL"}};
    default:
      return {{"ね", "名詞", "普通名詞", "*", "*", "ね", "ね", "根/ね", "カテゴリ:植物 漢字"},
              {"ねえ", "感動詞", "*", "*", "*", "ねえ", "ねえ", "*", "NIL"},
              {"ねか", "動詞", "*", "未然形", "母音動詞", "ねる", "ねか", "寝る/ねる", "NIL"},
              {"ねか", "動詞", "*", "未然形", "母音動詞", "ねる", "ねか", "練る/ねる", "x y:z w"},
              {"か", "助詞", "終助詞", "*", "*", "か", "か", "か/か", "NIL"},
              {"か", "判定詞", "*", "基本形", "判定詞", "だ", "か", "*", "濁音化D"}};
  }
}
Strs alphaOf(int k) {
  if (jpp_param("any", 0)) return {"は", "な", "り", "?"};
  if (k == 0) return {"は", "な", "り", " ", "\t", "カ"};
  if (k == 2) return {"は", "な", "り"};
  return {"ね", "え", "か", "ー", "っ", "a"};
}
Strs anyOf(const char* nm, const Strs& alpha, int lo, int hi) {
  int n = lo == hi ? lo : jpp_pick<int>(nm, lo, hi);
  Strs t;
  for (int i = 0; i < n; ++i) {
    t.push_back(alpha[jpp_pick<int>("c", 0, (int)alpha.size() - 1)]);
    if (t.back() == "?") t.back() = Str(1, (char)jpp_range<unsigned char>("any", 1, 0x7f));  // any one-byte character
  }
  return t;
}
Str anyComment() {
  int n = jpp_pick<int>("clen", 0, (int)jpp_param("clen", 1));
  Str s;
  for (int i = 0; i < n; ++i) s.push_back(jpp_any<char>("comment"));
  return s;
}
}  // namespace

// a format after format of two texts
template <typename F, typename Fn>
void formats(FmtEnv& e, F& f, Fn check) {
  int kind = (int)jpp_param("kind", 0);
  int rounds = (int)jpp_param("rounds", 1);
  for (int r = 0; r < rounds; ++r) {
    auto t = anyOf("len", alphaOf(kind), (int)jpp_param("lo", 0), (int)jpp_param(r + 1 < rounds ? "n0" : "n", 2));
    Str c = anyComment();
    jpp_check(e.analyze(t), "every text is analysed");
    jpp_check(f.format(e.an2, sp(c)).isOk(), "formatted");
    if (jpp_param("show", 0)) { Str s = join(t, 0, (int)t.size()); jpp_print(s.c_str(), 0); }
    Cmp m{f.result()};
    check(m, c);
    jpp_check(m.end(), "the text of the words");
  }
  jpp_reach("end");
}

HARNESS(fmt_juman) {
  FmtEnv e;
  int kind = (int)jpp_param("kind", 0);
  e.make(words(kind));
  e.analyzer(1);
  e.scorer((int)jpp_param("nw", 2), 1);
  auto f = std::unique_ptr<jo::JumanFormat>(new jo::JumanFormat);
  jpp_check(f->initialize(e.an->output()).isOk(), "format");
  formats(e, *f, [&](Cmp& m, const Str& c) { jumanText(m, e.path(0), c); });
}

namespace {
void morphText(Cmp& m, const std::vector<Word>& ws, const Str& c, bool full) {
  for (auto& w : ws) {
    auto& r = w.rows[0];
    if (full) m.lit(r.surf + "_" + r.read + "_" + r.base + "_" + r.pos + "_" + r.sub + "_" + r.type + "_" + r.form + " ");
    else m.lit(r.surf + "_" + r.pos + ":" + r.sub + " ");
  }
  if (!c.empty()) m.lit("# " + c);
  m.lit("\n");
}
}  // namespace
HARNESS(fmt_morph) {
  FmtEnv e;
  e.make(words((int)jpp_param("kind", 0)));
  e.analyzer(1);
  e.scorer((int)jpp_param("nw", 2), 1);
  bool full = jpp_pick<int>("full", 0, 1) == 1;
  auto f = std::unique_ptr<jo::MorphFormat>(new jo::MorphFormat(full));
  jpp_check(f->initialize(e.an->output()).isOk(), "format");
  formats(e, *f, [&](Cmp& m, const Str& c) { morphText(m, e.path(0), c, full); });
}

HARNESS(fmt_segment) {
  FmtEnv e;
  e.make(words((int)jpp_param("kind", 0)));
  e.analyzer(1);
  e.scorer((int)jpp_param("nw", 2), 1);
  auto f = std::unique_ptr<output::SegmentedFormat>(new output::SegmentedFormat);
  int n = jpp_pick<int>("slen", 0, 2);
  Str sep;
  for (int i = 0; i < n; ++i) sep.push_back(jpp_any<char>("sep"));
  jpp_check(f->initialize(e.an->output(), *e.core, sp(sep)).isOk(), "format");
  formats(e, *f, [&](Cmp& m, const Str&) {
    auto ws = e.path(0);
    for (size_t i = 0; i < ws.size(); ++i) m.lit((i ? sep : Str()) + join(e.text, ws[i].start, ws[i].start + ws[i].len));
    m.lit("\n");
  });
}

// Numbers which depend on symbolic values are printed as their sixteen
// nibbles: equal numbers, and only those, have the same text.
namespace {
Str nibbles(double d) {
  u64 v;
  memcpy(&v, &d, 8);
  Str s = "~";
  for (int k = 60; k >= 0; k -= 4) s.push_back((char)(0x40 + (v >> k & 15)));
  return s;
}
}  // namespace
extern "C" __attribute__((used, noinline)) void jpp_write_double(fmt::BasicWriter<char>* w, double d, const void*) {
  Str s = nibbles(d);
  w->buffer().append(s.data(), s.data() + s.size());
}
namespace {
Str fnum(float f) {
  if (jpp_symbolic_mode()) return nibbles(f);
  char b[64];
  snprintf(b, sizeof b, "%g", (double)f);
  return b;
}
void latticeText(FmtEnv& e, Cmp& m, const Str& c, int topN) {
  if (!c.empty()) m.lit("# " + c + "\n");
  if (e.text.empty()) { m.lit("EOS\n"); return; }
  auto l = e.an->lattice();
  auto eos = l->boundary(l->createdBoundaryCount() - 1)->starts()->beamData();
  struct N { Word w; std::vector<int> ranks; std::vector<LatticeNodePtr> prev; std::vector<ConnectionPtr> via; int id; };
  std::vector<N> ns;
  auto before = [](const LatticeNodePtr& a, const LatticeNodePtr& b) { return a.boundary != b.boundary ? a.boundary < b.boundary : a.position < b.position; };
  if (c.empty()) m.lit("# MA-SCORE\t");
  for (int i = 0; i < topN && i < (int)eos.size() && !EntryBeam::isFake(eos.at(i)); ++i) {
    if (c.empty()) m.lit("rank" + num(i + 1) + ":" + fnum(eos.at(i).totalScore) + " ");
    for (auto p = eos.at(i).ptr.previous; p->boundary >= 2; p = p->previous) {
      auto ptr = p->latticeNodePtr();
      N* n = nullptr;
      for (auto& x : ns) if (x.w.node == ptr) n = &x;
      if (!n) { ns.push_back(N{e.word(ptr), {}, {}, {}, 0}); n = &ns.back(); }
      n->ranks.push_back(i);
      n->via.push_back(*p);
      auto q = p->previous->latticeNodePtr();
      bool have = false;
      for (auto& x : n->prev) have = have || x == q;
      if (!have) n->prev.push_back(q);
    }
  }
  if (c.empty()) m.lit("\n");
  std::sort(ns.begin(), ns.end(), [&](const N& a, const N& b) { return before(a.w.node, b.w.node); });
  int id = 0;
  for (auto& n : ns) n.id = ++id;
  for (auto& n : ns) {
    std::sort(n.prev.begin(), n.prev.end(), before);
    Str ids, ranks;
    for (auto& p : n.prev) {
      int k = 0;
      for (auto& x : ns) if (x.w.node == p) k = x.id;
      ids += (ids.empty() ? "" : ";") + num(k);
    }
    for (auto r : n.ranks) ranks += (ranks.empty() ? "" : ";") + num(r + 1);
    for (auto& x : n.w.rows) {
      auto d = idsOf(x);
      m.lit("-\t" + num(n.id) + "\t" + ids + "\t" + num(n.w.start) + "\t" + num(n.w.start + n.w.len - 1) + "\t" + esc(x.surf, false) + "\t");
      m.lit((x.canon != "*" ? x.canon : x.base + "/" + x.read) + "\t" + esc(x.read, false) + "\t" + esc(x.base, false) + "\t");
      m.lit(x.pos + "\t" + num(d.pos) + "\t" + x.sub + "\t" + num(d.sub) + "\t" + x.type + "\t" + num(d.type) + "\t" + x.form + "\t" + num(d.form) + "\t");
      m.list(featsOf(x), "|", true);
      if (n.w.flags) m.lit(normText(n.w.flags) + "|");
      // the scores of one of its connections
      auto& ws = e.sd.scoreWeights;
      bool any = false;
      for (auto& p : n.via) {
        auto s = l->boundary(p.boundary)->scores()->forPtr(p);
        float total = s[0] * ws[0];
        Str t = "特徴量スコア:" + fnum(total) + "|";
        if (ws.size() == 2) {
          float lm = s[1] * ws[1];
          t += "言語モデルスコア:" + fnum(lm) + "|";
          total += lm;
        }
        t += "形態素解析スコア:" + fnum(total) + "|ランク:" + ranks + "\n";
        if (!m.ok || !m.at(t)) continue;
        m.lit(t);
        any = true;
        break;
      }
      m.ok = m.ok && any;
    }
  }
  m.lit("EOS\n");
}
}  // namespace
HARNESS(fmt_lattice) {
  FmtEnv e;
  e.make(words((int)jpp_param("kind", 0)));
  if (jpp_param("other", 0)) e.cfg.globalBeamSize = 3;
  e.analyzer((int)jpp_param("beam", 2), jpp_param("other", 0) ? 2 : 1);
  e.scorer((int)jpp_param("nw", 2), 1);
  int topN = jpp_pick<int>("topN", 1, (int)jpp_param("beam", 2) + 1);
  auto f = std::unique_ptr<jo::LatticeFormat>(new jo::LatticeFormat(topN));
  jpp_check(f->initialize(e.an->output()).isOk(), "format");
  formats(e, *f, [&](Cmp& m, const Str& c) { latticeText(e, m, c, topN); });
}

// the words of the text as dictionary lines
namespace {
bool parseCsv(const Str& s, std::vector<Strs>* rows) {
  size_t i = 0;
  while (i < s.size()) {
    Strs r;
    for (;;) {
      Str f;
      if (i < s.size() && s[i] == '"') {
        ++i;
        for (;; ++i) {
          if (i >= s.size()) return false;
          if (s[i] == '"') {
            if (i + 1 < s.size() && s[i + 1] == '"') ++i;
            else break;
          }
          f += s[i];
        }
        ++i;
      } else {
        while (i < s.size() && s[i] != ',' && s[i] != '\n' && s[i] != '"') f += s[i++];
      }
      r.push_back(f);
      if (i >= s.size()) return false;
      if (s[i] == ',') { ++i; continue; }
      if (s[i] != '\n') return false;
      ++i;
      break;
    }
    rows->push_back(r);
  }
  return true;
}
bool sameFeats(const Row& r, const Str& f) {
  auto a = featsOf(r), b = f == "NIL" ? Strs() : split(f, ' ');
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  return a == b;
}
}  // namespace
HARNESS(fmt_subset) {
  FmtEnv e;
  static const char* SPECIAL[] = {"a", ",", "\"", "\"\"", "a,\"b", "\n", "\r", "\"a", "a\"", "＃"};
  auto ch = [](const char* n) { return Str(SPECIAL[jpp_pick<int>(n, 0, (int)jpp_param("special", 9))]); };
  int where = jpp_pick<int>("where", 0, 4);
  Str x = ch("special");
  Strs alpha = {"は", "な", "a", "カ"};
  std::vector<Row> ws = {{"は", "助詞", "副助詞", "*", "*", "は", "は", "*", "NIL"},
                         {"な", "動詞", "*", "基本連用形", "子音動詞ラ行", "なる", "なり", "成る/なる", "自他動詞:他 x:y"},
                         {"な", "動詞", "*", "基本連用形", "子音動詞ラ行", "なる", "なり", "*", "NIL"},
                         {"な", "助詞", "*", "*", "*", "な", "な", "*", "x"}};
  switch (where) {
    case 0: ws[1].canon = x; break;
    case 1: ws[1].feats = "k:" + x + " " + x; break;
    case 2: ws[1].base = ws[2].base = x; break;
    case 3: ws[1].sub = ws[2].sub = x; ws[3].feats = x + ":y"; break;
    default: ws[0].surf = ws[0].read = x; alpha[0] = x; break;
  }
  e.make(ws);
  e.analyzer(1);
  e.scorer(2, 0);
  auto t = anyOf("len", alpha, 0, (int)jpp_param("n", 2));
  Str c = anyComment();
  jpp_check(e.analyze(t), "every text is analysed");
  jo::MdicFormat f;
  jpp_check(f.initialize(e.an->output()).isOk(), "format");
  jpp_check(f.format(e.an2, sp(c)).isOk(), "formatted");
  jo::SubsetFormat f2;
  jpp_check(f2.initialize(e.an->output()).isOk(), "format");
  jpp_check(f2.format(e.an2, sp(c)).isOk(), "formatted");
  Cmp m{f2.result()};
  m.lit("#### MRPH output ####\n");
  morphText(m, e.path(0), c, true);
  m.lit("\n\n### SUBSET OF DICTIONARY\n").lit(f.result().str());
  jpp_check(m.end(), "words and the dictionary");
  Str got = f.result().str();
  if (jpp_param("show", 0)) jpp_print(got.c_str(), 0);
  std::vector<Strs> lines;
  jpp_check(parseCsv(got, &lines), "lines of a dictionary");
  // every dictionary word of the lattice
  std::vector<EntryPtr> seen;
  std::vector<Row> want;
  auto l = e.an->lattice();
  for (u32 b = 2; b + 1 < l->createdBoundaryCount(); ++b) {
    auto st = l->boundary(b)->starts();
    for (u32 i = 0; i < st->numEntries(); ++i) {
      auto ep = st->nodeInfo().at(i).entryPtr();
      if (!ep.isDic() || std::find(seen.begin(), seen.end(), ep) != seen.end()) continue;
      seen.push_back(ep);
      for (auto& r : e.word(LatticeNodePtr{(u16)b, (u16)i}).rows) want.push_back(r);
    }
  }
  jpp_check(want.size() == lines.size(), "every word once");
  for (size_t i = 0; i < lines.size(); ++i) {
    auto& g = lines[i];
    jpp_check(g.size() == 12, "all columns of a dictionary line");
    jpp_check(g[1] == "0" && g[2] == "0" && g[3] == "0", "unused columns");
    bool found = false;
    for (size_t k = 0; k < want.size() && !found; ++k) {
      auto& r = want[k];
      if (g[0] != r.surf || g[8 + 0] != r.base) continue;
      found = orNone(g[4]) == orNone(r.pos) && orNone(g[5]) == orNone(r.sub) && orNone(g[6]) == orNone(r.form) && orNone(g[7]) == orNone(r.type) && g[9] == r.read && orNone(g[10]) == orNone(r.canon) && sameFeats(r, g[11]);
      if (found) want.erase(want.begin() + k);
    }
    jpp_check(found, "the line of a word");
  }
  jpp_reach("end");
}

// quoting of any field
HARNESS(fmt_quoted) {
  int n = jpp_pick<int>("len", 0, (int)jpp_param("n", 4));
  std::vector<char> v(n);
  for (auto& c : v) c = jpp_any<char>("byte");
  Str s(v.begin(), v.end());
  util::io::FastPrinter p;
  jo::fmt::printMaybeQuoted(p, sp(s));
  p << ",0\n";
  std::vector<Strs> rows;
  jpp_check(parseCsv(p.result().str(), &rows), "a field of a dictionary line");
  jpp_check(rows.size() == 1 && rows[0].size() == 2 && rows[0][1] == "0", "one field");
  jpp_check(rows[0][0].size() == s.size(), "the same text");
  for (int i = 0; i < n; ++i) jpp_check(rows[0][0][i] == s[i], "the same text");
  // it is the same for the reader of dictionaries
  util::CsvReader csv;
  Str got = p.result().str();
  jpp_check(csv.initFromMemory(sp(got)).isOk(), "reader");
  jpp_check(csv.nextLine() && csv.numFields() == 2, "one line");
  auto f = csv.field(0);
  jpp_check(f.size() == s.size(), "the same text");
  for (int i = 0; i < n; ++i) jpp_check(f.begin()[i] == s[i], "the same text");
  jpp_reach("end");
}

// ids of parts of speech
HARNESS(fmt_ids) {
  FmtEnv e;
  int step = (int)jpp_param("step", 40);
  int from = jpp_pick<int>("from", 0, ((int)jumandic::conjInfoCount - 1) / step) * step;
  int pstep = 4, pfrom = (from / step * pstep) % (int)jumandic::posInfoCount;
  std::vector<Row> ws;
  auto add = [&](const Str& pos, const Str& sub, const Str& type, const Str& form) {
    Str s = "x" + num((int)ws.size());
    ws.push_back(Row{s, pos, sub, form, type, s, s, "*", "NIL"});
  };
  for (int i = pfrom; i < pfrom + pstep && i < (int)jumandic::posInfoCount; ++i) add(jumandic::posInfo[i].part1.str(), jumandic::posInfo[i].part2.str(), "*", "*");
  for (int i = from; i < from + step && i < (int)jumandic::conjInfoCount; ++i) add("動詞", "*", jumandic::conjInfo[i].part1.str(), jumandic::conjInfo[i].part2.str());
  add("ほか", "*", "*", "*");
  add("ほか", "ない", "ない型", "ない形");
  add("名詞", "ない", "母音動詞", "ない形");
  add("名詞", "*", "母音動詞", "*");
  e.make(ws);
  jumandic::JumandicIdResolver res;
  jpp_check(res.initialize(e.dh).isOk(), "resolver");
  auto ptrs = [&](const char* f) {
    std::vector<std::pair<Str, i32>> r;
    dic::impl::StringStorageTraversal t{e.dh.fieldByName(cs(f))->strings};
    StringPiece s;
    while (t.next(&s)) r.emplace_back(s.str(), t.position());
    return r;
  };
  auto star = [](const Str& s) { return s.empty() ? Str("*") : s; };
  for (auto& a : ptrs("pos"))
    for (auto& b : ptrs("subpos")) {
      auto got = res.dicToJuman(jumandic::JumandicPosId{a.second, b.second, 0, 0});
      auto want = idsOf(Row{"", star(a.first), star(b.first), "*", "*", "", "", "", ""});
      jpp_check(got.pos == want.pos && got.subpos == want.sub && got.conjType == 0 && got.conjForm == 0, "ids of a part of speech");
    }
  for (auto& a : ptrs("conjtype"))
    for (auto& b : ptrs("conjform")) {
      auto got = res.dicToJuman(jumandic::JumandicPosId{0, 0, a.second, b.second});
      auto want = idsOf(Row{"", "*", "*", star(b.first), star(a.first), "", "", "", ""});
      jpp_check(got.conjType == want.type && got.conjForm == want.form, "ids of a conjugation");
    }
  jpp_reach("end");
}
