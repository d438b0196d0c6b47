// Partially annotated examples: writing them and what they mean.
#pragma once
#include "env.h"
#include "core/analysis/unk_nodes_creator.h"
#include "core/input/partial_example.h"
#include "core/input/partial_example_io.h"
using namespace jumanpp::core::input;
namespace {
// a column which is no feature comes first: columns, fields and features have different numbers
const char* const CSV =
    "z1,ああ,N,x\n"
    "z2,ああ,V,x\n"
    "z3,あ,N,y\n"
    "z1,い,P,x\n"
    "z1,あい,V,y\n"
    "z1,いあ,N,x\n";
void pexSpec(spec::dsl::ModelSpecBuilder& b) {
  b.field(1, "z").strings();
  auto& s = b.field(2, "s").strings().trieIndex();
  auto& p = b.field(3, "p").strings();
  auto& q = b.field(4, "q").strings().stringStorage(p);
  b.unigram({q});
  b.unigram({p});
  b.unigram({s});
  b.bigram({s}, {s});
  b.trigram({p}, {p}, {p});
  b.unk("any", 1).single(chars::CharacterClass::FAMILY_ANYTHING).outputTo({s});
  b.train().field(p, 1.0f).field(q, 0.5f).field(s, 0.25f);
}

struct RTag { int field; Str value; };
struct RWord { int start, len; std::vector<RTag> tags; };
// an annotation: the text with places where words have to begin and where they must not
struct Annot {
  Str comment;
  Strs text;
  std::vector<int> forbid, force;  // in characters, in the order of the lines
  std::vector<RWord> words;
  bool ok = true;
  bool any() const { return !text.empty(); }
};
const char* const NAMES[] = {"s", "p", "q"};
const char* const VALUES[] = {"N", "V", "P", "x", "y", "ああ", "あ", "い", "new", ""};

// the dictionary value of a tag: position in the columns, by the real index
struct Index {
  TrainFieldsIndex tio;
  int value(const RTag& t) {
    for (auto& f : tio.fields())
      if (f.name == cs(NAMES[t.field])) {
        for (auto& kv : *f.str2int)
          if (kv.first == sp(t.value)) return kv.second;
        return hashUnkString(sp(t.value));
      }
    jpp_check(false, "field is known");
    return 0;
  }
  int column(const RTag& t) {
    for (auto& f : tio.fields())
      if (f.name == cs(NAMES[t.field])) return f.dicFieldIdx;
    return -1;
  }
};

// writes one line and adds its meaning to the annotation
void plainLine(Annot* a, Str* out, const Strs& cs) {
  for (auto& c : cs) {
    *out += c;
    if (c == "&") a->forbid.push_back((int)a->text.size());
    else a->text.push_back(c);
  }
  *out += "\n";
  a->force.push_back((int)a->text.size());
}
void wordLine(Annot* a, Str* out, const Strs& w, const std::vector<RTag>& tags) {
  RWord r{(int)a->text.size(), (int)w.size(), tags};
  *out += "\t";
  for (auto& c : w) {
    *out += c;
    a->text.push_back(c);
  }
  for (auto& t : tags) *out += Str("\t") + NAMES[t.field] + ":" + t.value;
  *out += "\n";
  for (int i = 1; i < r.len; ++i) a->forbid.push_back(r.start + i);
  a->force.push_back((int)a->text.size());
  a->words.push_back(r);
}
std::vector<RTag> someTags(int kind) {
  switch (kind) {
    case 1: return {{1, "N"}};
    case 2: return {{2, "x"}, {1, "V"}};
    case 3: return {{1, "new"}};
    case 4: return {{0, "あい"}, {2, "y"}};
    case 5: return {{2, ""}};
    case 6: return {{0, "none"}};
    default: return {};
  }
}
// a character of a line: anything but the characters with a meaning for lines
Str lineChar() {
  if (jpp_pick<int>("wide", 0, 1)) {
    Str c;
    c.push_back((char)jpp_range<unsigned char>("b0", 0xE1, 0xEF));
    for (int j = 1; j < 3; ++j) c.push_back((char)jpp_range<unsigned char>("b", 0x80, 0xBF));
    return c;
  }
  unsigned char b = jpp_range<unsigned char>("b0", 0x20, 0x7f);
  return Str(1, (char)b);
}
Strs lineChars(int lo, int hi) {
  Strs r;
  int n = jpp_pick<int>("chars", lo, hi);
  for (int i = 0; i < n; ++i) r.push_back(lineChar());
  return r;
}
// one example of a few lines; the blank line is not written
void example(Annot* a, Str* out, int lines, int chars) {
  int n = jpp_pick<int>("lines", 0, lines);
  for (int i = 0; i < n; ++i) {
    switch (jpp_pick<int>("line", 0, 2)) {
      case 0: {
        auto c = lineChars(1, chars);
        // "# " starts a comment
        if (c[0] == "#" && c.size() > 1 && c[1] == " ") {
          a->comment.clear();
          for (auto& x : c) *out += x;
          *out += "\n";
          for (size_t k = 2; k < c.size(); ++k) a->comment += c[k];
        } else {
          plainLine(a, out, c);
        }
        break;
      }
      case 1: {
        Strs w(jpp_pick<int>("chars", 0, 1), "あ");
        w.push_back(lineChar());
        wordLine(a, out, w, someTags(jpp_pick<int>("tags", 0, 6)));
        break;
      }
      default: {
        Str c;
        c += lineChar();
        *out += "# " + c + "\n";
        a->comment = c;
      }
    }
  }
}
void checkRead(const Annot& a, const PartialExample& e, Index* ix, bool atEnd) {
  Str t;
  for (auto& c : a.text) t += c;
  jpp_check(e.surface() == sp(t), "text of the example");
  jpp_check(e.exampleInfo().comment == sp(a.comment), "comment of the example");
  auto fb = e.forbidBreak();
  jpp_check(fb.size() == a.forbid.size(), "number of places where words must not be divided");
  for (size_t i = 0; i < fb.size(); ++i) jpp_check(fb.at(i) == a.forbid[i] + 2, "place where words must not be divided");
  auto bs = e.boundaries();
  // the end of the text is no constraint
  size_t nb = a.force.empty() ? 0 : a.force.size() - 1;
  jpp_check(bs.size() == nb || (atEnd && bs.size() == nb + 1), "number of given boundaries");
  for (size_t i = 0; i < bs.size(); ++i) jpp_check(bs.at(i) == a.force[i] + 2, "given boundary");
  auto ns = e.nodes();
  jpp_check(ns.size() == a.words.size(), "number of annotated words");
  for (size_t i = 0; i < ns.size(); ++i) {
    auto& w = a.words[i];
    jpp_check(ns.at(i).boundary == w.start + 2 && ns.at(i).length == w.len, "place of an annotated word");
    jpp_check(sp(ns.at(i).surface) == sp(join(a.text, w.start, w.start + w.len)), "surface of an annotated word");
    jpp_check(ns.at(i).tags.size() == w.tags.size(), "number of tags");
    for (size_t k = 0; k < w.tags.size(); ++k) {
      jpp_check(ns.at(i).tags[k].field == ix->column(w.tags[k]), "field of a tag");
      jpp_check(ns.at(i).tags[k].value == ix->value(w.tags[k]), "value of a tag");
    }
  }
}
// what the annotation says about the word [s, t) with this node data
int violates(const Annot& a, Index* ix, int s, int t, const util::ArraySlice<i32>& data) {
  for (int f : a.forbid)
    if (f == s || f == t) return 2;
  for (int f : a.force)
    if (f > s && f < t) return 2;
  for (auto& w : a.words)
    if (w.start == s) {
      if (w.len != t - s) return 2;
      for (auto& tag : w.tags)
        if (data.at(ix->column(tag)) != ix->value(tag)) return 1;
      break;
    }
  return 0;
}
// lines over the words of the dictionary; symbolic: characters which are no words are possible
void matchExample(Annot* a, Str* out, int lines, int chars) {
  int n = jpp_pick<int>("lines", 1, lines);
  for (int i = 0; i < n; ++i) {
    int k = jpp_pick<int>("chars", 1, chars);
    Strs cs;
    for (int j = 0; j < k; ++j) {
      const char* x[] = {"あ", "い", "&"};
      cs.push_back(x[jpp_pick<int>("char", 0, 2)]);
    }
    if (jpp_pick<int>("word", 0, 1)) {
      bool mark = false;
      for (auto& c : cs) mark |= c == "&";
      jpp_assume(!mark);
      wordLine(a, out, cs, someTags(jpp_pick<int>("tags", 0, 6)));
    } else {
      plainLine(a, out, cs);
    }
  }
}
}  // namespace
