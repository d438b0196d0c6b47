// Partially annotated examples: reading them, matching nodes, analysis with them.
#include <sstream>
#include "pex.h"
#include "core/input/pex_stream_reader.h"
#include "core/input/stream_reader.h"

// two examples of one file, read into the same or into another object
HARNESS(pex_read) {
  Env e;
  e.build(pexSpec, CSV);
  Index ix;
  jpp_check(ix.tio.initialize(*e.core).isOk(), "training fields");
  Annot a[2];
  Str data;
  int n = (int)jpp_param("examples", 1);
  int lines = (int)jpp_param("lines", 2);
  for (int i = 0; i < n; ++i) {
    example(&a[i], &data, lines, (int)jpp_param("chars", 2));
    if (i < n - 1) data += "\n";
  }
  bool blank = jpp_pick<int>("blank", 0, 1);
  if (blank) data += "\n";
  PartialExampleReader rdr;
  jpp_check(rdr.initialize(&ix.tio).isOk(), "reader initializes");
  jpp_check(rdr.setData(sp(data)).isOk(), "data");
  PartialExample pe[2];
  bool same = n > 1 && jpp_pick<int>("same", 0, 1);
  for (int i = 0; i < n; ++i) {
    bool eof = false;
    auto& p = pe[same ? 0 : i];
    jpp_check(rdr.readExample(&p, &eof).isOk(), "example is read");
    bool last = i == n - 1 && !blank;
    jpp_check(eof == last, "end of the file is reported with the example which is not followed by an empty line");
    checkRead(a[i], p, &ix, last);
    jpp_reach(last ? "end" : "blank");
  }
  if (blank) {
    bool eof = false;
    jpp_check(rdr.readExample(&pe[0], &eof).isOk() && eof, "nothing left");
    jpp_check(pe[0].surface().empty() && pe[0].nodes().empty() && pe[0].forbidBreak().empty() && pe[0].exampleInfo().comment.empty(), "nothing is read at the end of the file");
  }
}

// every node of the lattice of the text
HARNESS(pex_match) {
  Env e;
  e.build(pexSpec, CSV);
  Index ix;
  jpp_check(ix.tio.initialize(*e.core).isOk(), "training fields");
  Annot a;
  Str data;
  matchExample(&a, &data, (int)jpp_param("lines", 2), (int)jpp_param("chars", 2));
  data += "\n";
  PartialExampleReader rdr;
  jpp_check(rdr.initialize(&ix.tio).isOk(), "reader initializes");
  jpp_check(rdr.setData(sp(data)).isOk(), "data");
  PartialExample pe;
  bool eof = true;
  jpp_check(rdr.readExample(&pe, &eof).isOk() && !eof, "example is read");
  auto an = e.analyzer(2);
  jpp_check(an->resetForInput(pe.surface()).isOk() && an->prepareNodeSeeds().isOk() && an->buildLattice().isOk(), "lattice");
  auto l = an->lattice();
  int len = (int)a.text.size();
  for (int s = 0; s < len; ++s) {
    auto r = l->boundary(s + 2)->starts();
    for (int p = 0; p < r->numEntries(); ++p) {
      int t = s + r->nodeInfo().at(p).numCodepoints();
      int want = violates(a, &ix, s, t, r->entryData().row(p));
      auto v = pe.checkViolation(r, s + 2, p);
      int got = v.isNone() ? 0 : v.kind == ViolationKind::Tag ? 1 : 2;
      jpp_check(got == want, "a word is checked against the annotation");
      jpp_check(pe.doesNodeMatch(l, s + 2, p) == (want == 0), "a word matches the annotation or not");
      jpp_check(pe.doesNodeMatch(r, s + 2, p) == (want == 0), "a word matches the annotation or not");
      if (want == 0) jpp_reach("match");
      if (want == 1) jpp_reach("tag");
      if (want == 2) jpp_reach("place");
    }
  }
  for (int s = 0; s <= len; ++s) {
    bool f = false;
    for (int x : a.forbid) f |= x == s;
    jpp_check(pe.validBoundary(s + 2) == !f, "a boundary is possible");
  }
}

namespace {
struct PexEnv : Env {
  std::vector<float> w;
  std::unique_ptr<HashedFeaturePerceptron> hfp;
  ScorerDef sd;
  Analyzer an2;
  void scorer(int nw, int lim, int beam) {
    w.assign(nw, 0);
    for (auto& x : w) x = (float)jpp_range<int>("w", -lim, lim);
    hfp.reset(new HashedFeaturePerceptron{util::ArraySlice<float>{w.data(), w.size()}});
    sd.feature = hfp.get();
    sd.scoreWeights.assign(1, 1.0f);
    analyzer(beam);
    jpp_check(an2.initialize(an.get(), &sd).isOk(), "analyzer");
  }
};
}  // namespace

// analysis of annotated text: as few words as possible contradict the annotation
HARNESS(pex_stream) {
  PexEnv e;
  e.build(pexSpec, CSV);
  Index ix;
  jpp_check(ix.tio.initialize(*e.core).isOk(), "training fields");
  Annot a[2];
  Str data;
  int n = (int)jpp_param("examples", 1);
  for (int i = 0; i < n; ++i) {
    if (jpp_pick<int>("comment", 0, 1)) {
      a[i].comment = i ? "two" : "one";
      data += "# " + a[i].comment + "\n";
    }
    matchExample(&a[i], &data, (int)jpp_param("lines", 2), (int)jpp_param("chars", 2));
    data += "\n";
  }
  e.scorer((int)jpp_param("nw", 1), 3, (int)jpp_param("beam", 2));
  PexStreamReader first, rdr;
  // the reader can be given another mark for places where no boundary is possible
  bool other = jpp_pick<int>("mark", 0, 1);
  jpp_check((other ? first.initialize(*e.core, U'|') : first.initialize(*e.core)).isOk(), "reader initializes");
  if (other)
    for (auto& c : data) if (c == '&') c = '|';
  bool copied = jpp_pick<int>("copied", 0, 1);
  if (copied) jpp_check(rdr.initialize(first).isOk(), "reader initializes from another one");
  auto& r = copied ? rdr : first;
  std::stringstream in(data);
  for (int i = 0; i < n; ++i) {
    jpp_check(r.readExample(&in).isOk(), "example is read");
    Str t;
    for (auto& c : a[i].text) t += c;
    jpp_check(r.surface() == sp(t), "text of the example");
    jpp_check(r.comment() == sp(a[i].comment), "comment of the example");
    jpp_check(r.analyzeWith(&e.an2).isOk(), "example is analysed");
    auto l = e.an->lattice();
    int len = (int)a[i].text.size();
    if (len == 0) continue;
    // the least penalty of all ways through the lattice
    auto cost = [&](int s, int p) -> int {
      auto rb = l->boundary(s + 2)->starts();
      int v = violates(a[i], &ix, s, s + rb->nodeInfo().at(p).numCodepoints(), rb->entryData().row(p));
      return v == 0 ? 0 : v == 1 ? 1000 : 10000;
    };
    std::vector<int> best(len + 1, 1000000);
    best[len] = 0;
    for (int s = len - 1; s >= 0; --s) {
      auto rb = l->boundary(s + 2)->starts();
      for (int p = 0; p < rb->numEntries(); ++p)
        best[s] = std::min(best[s], cost(s, p) + best[s + rb->nodeInfo().at(p).numCodepoints()]);
    }
    auto& top = l->boundary(len + 2)->starts()->beamData().at(0);
    int sum = 0, at = len;
    for (auto p = top.ptr.previous; p->boundary >= 2; p = p->previous) {
      sum += cost(p->boundary - 2, p->right);
      auto& ni = l->boundary(p->boundary)->starts()->nodeInfo().at(p->right);
      jpp_check(p->boundary - 2 + ni.numCodepoints() == at, "words follow each other");
      at = p->boundary - 2;
    }
    jpp_check(at == 0, "the analysis begins at the beginning");
    jpp_check(sum == best[0], "the analysis contradicts the annotation as little as possible");
    if (sum == 0) jpp_reach("agrees");
    else jpp_reach("contradicts");
  }
}

// plain text, one line after another
HARNESS(plain_stream) {
  Env e;
  e.build(pexSpec, CSV);
  int n = (int)jpp_param("lines", 2);
  Str data;
  struct Want { Str text, comment; };
  std::vector<Want> want;
  Str comment;
  bool open = false;
  for (int i = 0; i < n; ++i) {
    Strs c = lineChars(0, (int)jpp_param("chars", 3));
    Str line;
    for (auto& x : c) line += x;
    bool isComment = c.size() > 2 && c[0] == "#" && c[1] == " ";
    if (line.size() > 2 && line[0] == '#' && line[1] == ' ') jpp_check(isComment, "comment");
    bool last = i == n - 1;
    bool newline = !last || jpp_pick<int>("newline", 0, 1);
    data += line;
    if (newline) data += "\n";
    if (isComment) {
      comment = line.substr(2);
      open = true;
    } else {
      want.push_back({line, comment});
      comment.clear();
      open = false;
    }
  }
  (void)open;
  bool limits = jpp_pick<int>("limits", 0, 1);
  u64 maxText = jpp_range<u64>("max", 0, 9), maxComment = jpp_range<u64>("maxc", 0, 9);
  PlainStreamReader r;
  if (limits) r.setMaxSizes(maxText, maxComment);
  std::stringstream in(data);
  for (auto& w : want) {
    Status s = r.readExample(&in);
    // the mark of the comment counts as well
    bool ok = !limits || (w.text.size() <= maxText && (w.comment.empty() || w.comment.size() + 2 <= maxComment));
    jpp_check(s.isOk() == ok, "too long lines are refused");
    if (!s.isOk()) { jpp_reach("long"); return; }
    jpp_check(r.comment() == sp(w.comment), "comment of the line");
    jpp_reach("read");
  }
}
