// The lattice: what is connected, how paths are scored, what is kept, what is returned.
#include "env.h"
#include "core/analysis/score_plugin.h"
#include "core/impl/feature_impl_ngram_partial.h"
#include "core/impl/feature_impl_combine.h"
#include <set>
using namespace jumanpp::core::analysis;

namespace {
const int MAXW = 64;
struct Shape { const char* csv; const char* text; };
const Shape SHAPES[] = {
    // first row: template of unknown words
    {"UNK,u\na,x\na,y\nab,x\nb,y\nc,x\nbc,y\n", "abc"},
    {"UNK,u\na,x\nab,x\nb,y\nb,z\n", "abab"},
    {"UNK,u\nab,x\nb,y\nbc,y\nc,x\nc,y\n", "abc"},          // b, bc start where nothing ends
    {"UNK,u\na,x\na,y\na,z\nb,x\nb,y\nb,z\n", "ab"},
    {"UNK,u\na,x\naa,y\naaa,z\n", "aaa"},
    {"UNK,u\na,x\na,y\nb,y\n", "ab"},
    {"UNK,u\na,x\na,y\nb,x\nb,y\nb,z\nb,w\n", "ab"},
};

// a model with nu, nb and nt n-gram features
struct Lat : Env {
  float w[MAXW];
  HashedFeaturePerceptron hfp;
  ScorerDef sd;
  Str text;
  Strs chars;
  void make(const Str& csv, int nu, int nb, int nt) {
    build(
        [&](spec::dsl::ModelSpecBuilder& b) {
          auto& s = b.field(1, "surf").strings().trieIndex();
          auto& p = b.field(2, "pos").strings();
          b.unk("u", 1).chunking(chars::CharacterClass::KATAKANA).outputTo({s});
          if (nu > 0) b.unigram({s});
          if (nu > 1) b.unigram({p});
          if (nu > 2) b.unigram({s, p});
          if (nb > 0) b.bigram({p}, {p});
          if (nb > 1) b.bigram({s}, {p});
          if (nb > 2) b.bigram({s, p}, {s});
          if (nb > 3) b.bigram({p}, {s});
          if (nt > 0) b.trigram({p}, {p}, {p});
          if (nt > 1) b.trigram({s}, {p}, {p});
          if (nt > 2) b.trigram({s}, {s}, {s});
        },
        csv);
  }
  void weights(int n, int lim) {
    for (int i = 0; i < n; ++i) w[i] = (float)jpp_range<int>("w", -lim, lim);
    hfp.setWeightsTo(util::ArraySlice<float>{w, (size_t)n});
    sd.feature = &hfp;
    sd.scoreWeights.assign(1, 1.0f);
  }
};

struct Lattices {
  AnalyzerOpen* an;
  const float* w;
  int nw;
  Lattice* l() { return an->lattice(); }
  float local(LatticeNodePtr t2, LatticeNodePtr t1, LatticeNodePtr t0) {
    auto& f = an->core().features();
    static u32 buf[64];
    size_t n = an->core().spec().features.ngram.size();
    auto pats = [&](LatticeNodePtr p) { return l()->boundary(p.boundary)->starts()->patternFeatureData().row(p.position); };
    util::MutableArraySlice<u32> res{buf, n};
    f.ngramDynamic->apply(res, pats(t2), pats(t1), pats(t0));
    float r = 0;
    for (size_t i = 0; i < n; ++i) r += w[buf[i] & (unsigned)(nw - 1)];
    return r;
  }
  int bnds() { return (int)l()->createdBoundaryCount(); }
  int beamLen(LatticeNodePtr p) {
    auto row = l()->boundary(p.boundary)->starts()->beamData().row(p.position);
    int n = 0;
    while (n < (int)row.size() && !EntryBeam::isFake(row.at(n))) ++n;
    for (int i = n; i < (int)row.size(); ++i) jpp_check(EntryBeam::isFake(row.at(i)), "nothing behind the end of a beam");
    return n;
  }
  const ConnectionBeamElement& beam(LatticeNodePtr p, int i) { return l()->boundary(p.boundary)->starts()->beamData().row(p.position).at(i); }
  LatticeNodePtr prevNode(const ConnectionBeamElement& e) { return e.ptr.previous->latticeNodePtr(); }
};

struct Cand {
  float total, local;
  int left, beam;
  const ConnectionPtr* prev;
};

// the beam of a node: the best k of the candidates, best first
void checkBeam(Lattices& L, LatticeNodePtr node, const std::vector<Cand>& cands, int k) {
  int n = L.beamLen(node);
  jpp_check(n == std::min<int>(k, cands.size()), "as many ways as fit the beam");
  std::vector<bool> used(cands.size(), false);
  for (int i = 0; i < n; ++i) {
    auto& e = L.beam(node, i);
    jpp_check(e.ptr.boundary == node.boundary && e.ptr.right == node.position, "the beam element is of its node");
    int at = -1;
    for (size_t c = 0; c < cands.size(); ++c)
      if (cands[c].left == e.ptr.left && cands[c].beam == e.ptr.beam) at = (int)c;
    jpp_check(at >= 0 && !used[at], "every beam element is another way to the node");
    used[at] = true;
    jpp_check(e.ptr.previous == cands[at].prev, "the previous element is the one the way came from");
    jpp_check(e.totalScore == cands[at].total, "the score is that of the previous element plus the new features");
    if (i > 0) jpp_check(L.beam(node, i - 1).totalScore >= e.totalScore, "the better way first");
  }
  if (n > 0)
    for (size_t c = 0; c < cands.size(); ++c)
      if (!used[c]) jpp_check(cands[c].total <= L.beam(node, n - 1).totalScore, "no better way is left out");
}

void run(Lat& m, AnalyzerOpen* an, ScorePlugin* plug = nullptr) {
  jpp_check(an->resetForInput(sp(m.text)).isOk(), "input accepted");
  if (plug) an->setPlugin(plug);
  jpp_check(an->prepareNodeSeeds().isOk(), "seeds");
  jpp_check(an->buildLattice().isOk(), "lattice");
  jpp_check(an->bootstrapAnalysis().isOk(), "bootstrap");
  jpp_check(an->computeScores(&m.sd).isOk(), "scores");
}

// every way through the lattice
void allPaths(Lattices& L, LatticeNodePtr t2, LatticeNodePtr t1, float sum, std::vector<float>* out) {
  int here = t1.boundary;
  int last = L.bnds() - 1;
  if (here == last) {
    out->push_back(sum);
    return;
  }
  int next = here < 2 ? here + 1 : L.l()->boundary(here)->starts()->nodeInfo().at(t1.position).end() + 2;
  auto st = L.l()->boundary(next)->starts();
  for (size_t i = 0; i < st->numEntries(); ++i) {
    LatticeNodePtr t0{(u16)next, (u16)i};
    allPaths(L, t1, t0, sum + L.local(t2, t1, t0), out);
  }
}

Lat* makeModel() {
  static Lat* m = nullptr;
  m = new Lat;
  auto& sh = SHAPES[jpp_param("shape", 0)];
  m->make(sh.csv, (int)jpp_param("nu", 2), (int)jpp_param("nb", 1), (int)jpp_param("nt", 1));
  m->text = sh.text;
  m->chars = chars_of(m->text);
  m->weights((int)jpp_param("nw", 8), (int)jpp_param("lim", 3));
  return m;
}
}  // namespace

namespace {
// an additional scorer: any score for a connection
struct AnyScores {
  float v[8];
  AnyScores(const char* name, int lim) {
    for (auto& f : v) f = (float)jpp_range<int>(name, -lim, lim);
  }
  float at(int b, int right, int left, int beam) const { return v[(b * 5 + right * 3 + left + beam * 2) & 7]; }
};
struct FakeComputer : ScoreComputer {
  const AnyScores* s;
  Status scoreLattice(Lattice* l, const ExtraNodesContext*, u32 idx) override {
    for (u32 b = 2; b < l->createdBoundaryCount(); ++b) {
      auto bnd = l->boundary(b);
      for (u32 r = 0; r < bnd->localNodeCount(); ++r) {
        auto ns = bnd->scores()->nodeScores((int)r);
        for (u32 left = 0; left < ns.left(); ++left)
          for (u32 bm = 0; bm < ns.beam(); ++bm) ns.beamLeft((int)bm, (int)left).at(idx) = s->at((int)b, (int)r, (int)left, (int)bm);
      }
    }
    return Status::Ok();
  }
};
struct FakeFactory : ScorerFactory {
  const AnyScores* s;
  Status load(const ::jumanpp::core::model::ModelInfo&) override { return Status::Ok(); }
  Status makeInstance(std::unique_ptr<ScoreComputer>* res) override {
    auto c = new FakeComputer;
    c->s = s;
    res->reset(c);
    return Status::Ok();
  }
};
// a plugin: any change for a way to a node
struct FakePlugin : ScorePlugin {
  float v[8];
  mutable int calls = 0;
  FakePlugin(int lim) {
    for (auto& f : v) f = (float)jpp_range<int>("plug", -lim, lim);
  }
  float at(const Lattice* l, const ConnectionPtr& p) const {
    auto& i0 = l->boundary(p.boundary)->starts()->nodeInfo().at(p.right);
    auto left = l->boundary(p.boundary)->ends()->nodePtrs().at(p.left);
    return v[(p.boundary + p.right * 3 + left.boundary * 5 + left.position * 2 + p.previous->left * 7 + p.previous->beam + i0.end()) & 7];
  }
  bool updateScore(const Lattice* l, const ConnectionPtr& p, float* score) const override {
    ++calls;
    *score += at(l, p);
    return true;
  }
};

struct Ext : Lattices {
  const FakePlugin* plug = nullptr;
  explicit Ext(const Lattices& l) : Lattices(l) {}
  // n-gram score and the change by the plugin
  float step(int b, int left, int right, int bm, const ConnectionBeamElement& prev) {
    auto lefts = l()->boundary(b)->ends()->nodePtrs();
    float f = local(prevNode(prev), lefts.at(left), LatticeNodePtr{(u16)b, (u16)right});
    if (plug) f += plug->at(l(), ConnectionPtr{(u16)b, (u16)left, (u16)right, (u16)bm, &prev.ptr});
    return f;
  }
  // the score of an element without the additional scorers
  float pre(const ConnectionPtr* p) {
    if (p->boundary < 2) return 0;
    auto ns = l()->boundary(p->boundary)->scores()->nodeScores(p->right);
    return pre(p->previous) + ns.beamLeft(p->beam, p->left).at(0);
  }
};
struct Hyp { int left, beam; const ConnectionBeamElement* el; float pre; };

// how a node's beam is made from hypotheses; false when it is not
bool beamIs(Ext& L, LatticeNodePtr node, const std::vector<Hyp>& h, int k) {
  int n = L.beamLen(node);
  if (n != std::min<int>(k, h.size())) return false;
  std::vector<bool> used(h.size(), false);
  float last = 0;
  for (int i = 0; i < n; ++i) {
    auto& e = L.beam(node, i);
    int at = -1;
    for (size_t c = 0; c < h.size(); ++c)
      if (h[c].left == e.ptr.left && h[c].beam == e.ptr.beam) at = (int)c;
    if (at < 0 || used[at] || e.ptr.previous != &h[at].el->ptr || e.ptr.boundary != node.boundary || e.ptr.right != node.position) return false;
    used[at] = true;
    float p = h[at].pre + L.step(node.boundary, h[at].left, node.position, h[at].beam, *h[at].el);
    if (!(p == L.pre(&e.ptr))) return false;
    if (i > 0 && last < p) return false;
    last = p;
  }
  for (size_t c = 0; c < h.size() && n > 0; ++c)
    if (!used[c] && last < h[c].pre + L.step(node.boundary, h[c].left, node.position, h[c].beam, *h[c].el)) return false;
  return true;
}
}  // namespace

// the full beam search
HARNESS(beam_full) {
  Lat& m = *makeModel();
  int k = (int)jpp_param("beam", 2);
  auto an = m.analyzer(k);
  FakePlugin fp(jpp_param("plug", 0) ? (int)jpp_param("lim", 3) : 0);
  jpp_check(an->initScorers(m.sd).isOk(), "scorers");
  run(m, an, jpp_param("plug", 0) ? &fp : nullptr);
  Lattices L{an, m.w, (int)jpp_param("nw", 8)};
  for (int b = 2; b < L.bnds(); ++b) {
    auto bnd = L.l()->boundary(b);
    auto lefts = bnd->ends()->nodePtrs();
    for (u32 t0 = 0; t0 < bnd->localNodeCount(); ++t0) {
      LatticeNodePtr node{(u16)b, (u16)t0};
      std::vector<Cand> cands;
      for (size_t li = 0; li < lefts.size(); ++li) {
        int len = L.beamLen(lefts.at(li));
        for (int bi = 0; bi < len; ++bi) {
          auto& e = L.beam(lefts.at(li), bi);
          float loc = L.local(L.prevNode(e), lefts.at(li), node);
          if (jpp_param("plug", 0)) loc += fp.at(L.l(), ConnectionPtr{(u16)b, (u16)li, (u16)t0, (u16)bi, &e.ptr});
          jpp_check(bnd->scores()->nodeScores((int)t0).beamLeft(bi, (int)li).at(0) == loc, "the score of the n-gram features");
          cands.push_back(Cand{e.totalScore + loc, loc, (int)li, bi, &e.ptr});
        }
      }
      checkBeam(L, node, cands, k);
    }
  }
  jpp_reach("end");
}

// a beam wide enough for every path finds the best path and returns it
HARNESS(best_path) {
  Lat& m = *makeModel();
  int k = (int)jpp_param("beam", 16);
  int g = (int)jpp_param("gbeam", 0);
  m.cfg.globalBeamSize = g;
  m.cfg.rightGbeamCheck = (int)jpp_param("check", 0);
  m.cfg.rightGbeamSize = (int)jpp_param("right", 0);
  auto an = m.analyzer(k);
  jpp_check(an->initScorers(m.sd).isOk(), "scorers");
  run(m, an);
  Lattices L{an, m.w, (int)jpp_param("nw", 8)};
  std::vector<float> all;
  allPaths(L, LatticeNodePtr{0, 0}, LatticeNodePtr{1, 0}, 0, &all);
  LatticeNodePtr eos{(u16)(L.bnds() - 1), 0};
  jpp_check(L.beamLen(eos) == std::min<int>(k, all.size()), "every path is kept");
  float top = L.beam(eos, 0).totalScore;
  for (float f : all) jpp_check(f <= top, "no path has a better score than the best one");
  AnalysisPath p;
  jpp_check(p.fillIn(an->lattice()).isOk(), "path");
  LatticeNodePtr t2{0, 0}, t1{1, 0};
  float sum = 0;
  int at = 0;
  while (p.nextBoundary()) {
    jpp_check(p.totalNodesInChunk() == 1, "one word at a place");
    auto bp = p.nextBeamPtr();
    jpp_check(bp != nullptr, "there is a word");
    auto t0 = bp->ptr.latticeNodePtr();
    auto& info = L.l()->boundary(t0.boundary)->starts()->nodeInfo().at(t0.position);
    jpp_check(p.currentBoundary() == t0.boundary, "the place of the word");
    jpp_check(info.start() == at && t0.boundary == at + 2, "words follow each other");
    at = info.end();
    sum += L.local(t2, t1, t0);
    jpp_check(sum == bp->totalScore, "the score up to the word");
    t2 = t1;
    t1 = t0;
    jpp_check(p.nextNodePtr() == nullptr, "no second word");
  }
  jpp_check(at == (int)m.chars.size(), "the words cover the text");
  sum += L.local(t2, t1, eos);
  jpp_check(sum == top, "the returned path has the best score");
  jpp_reach("end");
}

// the global beam: the best hypotheses at a place are connected to its words
HARNESS(beam_global) {
  Lat& m = *makeModel();
  int k = (int)jpp_param("beam", 2), G = (int)jpp_param("gbeam", 2), C = (int)jpp_param("check", 0), R = (int)jpp_param("right", 0);
  bool second = jpp_param("second", 0) != 0;
  m.cfg.globalBeamSize = G;
  m.cfg.rightGbeamCheck = C;
  m.cfg.rightGbeamSize = R;
  AnyScores any("other", second ? (int)jpp_param("lim", 3) : 0);
  FakeFactory ff;
  ff.s = &any;
  int w1 = 2, w2 = 3;
  if (second) {
    m.sd.others.push_back(&ff);
    m.sd.scoreWeights = {(float)w1, (float)w2};
  }
  FakePlugin fp(jpp_param("plug", 0) ? (int)jpp_param("lim", 3) : 0);
  auto an = m.analyzer(k, second ? 2 : 1);
  jpp_check(an->initScorers(m.sd).isOk(), "scorers");
  if (jpp_param("later", 0)) {
    // the sizes may be changed between analyses
    run(m, an);
    C = (int)jpp_param("check2", 0);
    R = (int)jpp_param("right2", 0);
    G = (int)jpp_param("gbeam2", 3);
    jpp_check(an->setGlobalBeam(G, C, R), "the sizes change");
    jpp_check(!an->setGlobalBeam(G, C, R), "the sizes do not change again");
  }
  jpp_check(an->resetForInput(sp(m.text)).isOk(), "input accepted");
  if (jpp_param("plug", 0)) an->setPlugin(&fp);
  jpp_check(an->prepareNodeSeeds().isOk(), "seeds");
  jpp_check(an->buildLattice().isOk(), "lattice");
  jpp_check(an->bootstrapAnalysis().isOk(), "bootstrap");
  jpp_check(an->computeScores(&m.sd).isOk(), "scores");
  Ext L(Lattices{an, m.w, (int)jpp_param("nw", 8)});
  if (jpp_param("plug", 0)) L.plug = &fp;
  int last = L.bnds() - 1;
  for (int b = 2; b <= last; ++b) {
    auto bnd = L.l()->boundary(b);
    if (bnd->localNodeCount() == 0) continue;
    auto lefts = bnd->ends()->nodePtrs();
    std::vector<Hyp> all, gb;
    for (size_t li = 0; li < lefts.size(); ++li)
      for (int bi = 0, len = L.beamLen(lefts.at(li)); bi < len; ++bi) {
        auto& e = L.beam(lefts.at(li), bi);
        all.push_back(Hyp{(int)li, bi, &e, L.pre(&e.ptr)});
      }
    auto gbeam = bnd->ends()->globalBeam();
    jpp_check(gbeam.size() == (size_t)std::min<int>(G, all.size()), "as many hypotheses as fit the global beam");
    std::vector<bool> used(all.size(), false);
    for (size_t i = 0; i < gbeam.size(); ++i) {
      int at = -1;
      for (size_t c = 0; c < all.size(); ++c)
        if (all[c].el == gbeam.at(i)) at = (int)c;
      jpp_check(at >= 0 && !used[at], "every element of the global beam is another hypothesis");
      used[at] = true;
      gb.push_back(all[at]);
      if (i) jpp_check(gb[i - 1].pre >= gb[i].pre, "the better hypothesis first");
    }
    for (size_t c = 0; c < all.size(); ++c)
      if (!used[c]) jpp_check(all[c].pre <= gb.back().pre, "no better hypothesis is left out");
    int nodes = (int)bnd->localNodeCount();
    int F = C > 0 ? std::min<int>(std::min<int>(C, nodes), gb.size()) : (int)gb.size();
    int keep = C > 0 ? std::min<int>(R, nodes) : nodes;
    std::vector<Hyp> head(gb.begin(), gb.begin() + F);
    std::vector<float> presc(nodes, 0);
    if (keep < nodes)
      for (int t = 0; t < nodes; ++t)
        for (auto& h : head) presc[t] += L.step(b, h.left, t, h.beam, *h.el);
    for (int t = 0; t < nodes && (b < last || !second); ++t) {
      LatticeNodePtr node{(u16)b, (u16)t};
      auto ns = bnd->scores()->nodeScores(t);
      int better = 0, same = 0;
      if (keep < nodes)
        for (int o = 0; o < nodes; ++o)
          if (o != t) {
            if (presc[o] > presc[t]) ++better;
            else if (presc[o] == presc[t]) ++same;
          }
      bool mayKeep = better < keep, mayCut = better + same >= keep;
      bool isAll = mayKeep && beamIs(L, node, gb, k);
      jpp_check(isAll || (mayCut && beamIs(L, node, head, k)), "the best words get all hypotheses, others only the first ones");
      auto& hs = isAll ? gb : head;
      for (auto& h : hs) jpp_check(ns.beamLeft(h.beam, h.left).at(0) == L.step(b, h.left, t, h.beam, *h.el), "the score of the connection");
    }
    if (!second)
      for (auto& h : all) jpp_check(h.el->totalScore == h.pre, "the total is the sum of the scores");
    else
      for (size_t c = 0; c < all.size(); ++c)
        if (used[c] && b > 2) {
          auto& p = all[c].el->ptr;
          auto prev = reinterpret_cast<const ConnectionBeamElement*>(p.previous);
          float s0 = L.l()->boundary(p.boundary)->scores()->nodeScores(p.right).beamLeft(p.beam, p.left).at(0);
          jpp_check(all[c].el->totalScore == prev->totalScore + s0 * (float)w1 + any.at(p.boundary, p.right, p.left, p.beam) * (float)w2,
                    "the total is the weighted sum of all scores");
        }
    if (second && b == last) {
      LatticeNodePtr eos{(u16)b, 0};
      int n = L.beamLen(eos);
      jpp_check(n == std::min<int>(k, gb.size()), "as many results as fit the beam");
      std::vector<float> tot;
      for (auto& h : gb) {
        float s0 = L.step(b, h.left, 0, h.beam, *h.el);
        tot.push_back(h.el->totalScore + s0 * (float)w1 + any.at(b, 0, h.left, h.beam) * (float)w2);
      }
      std::vector<bool> u2(gb.size(), false);
      for (int i = 0; i < n; ++i) {
        auto& e = L.beam(eos, i);
        int at = -1;
        for (size_t c = 0; c < gb.size(); ++c)
          if (gb[c].left == e.ptr.left && gb[c].beam == e.ptr.beam) at = (int)c;
        jpp_check(at >= 0 && !u2[at] && e.ptr.previous == &gb[at].el->ptr, "every result is another hypothesis");
        u2[at] = true;
        jpp_check(e.totalScore == tot[at], "the result has the weighted sum of all scores");
        if (i) jpp_check(L.beam(eos, i - 1).totalScore >= e.totalScore, "the better result first");
      }
      for (size_t c = 0; c < gb.size(); ++c)
        if (!u2[c]) jpp_check(tot[c] <= L.beam(eos, n - 1).totalScore, "no better result is left out");
    }
  }
  jpp_reach("end");
}

// words, places and connections
HARNESS(connect) {
  Str words[] = {"a", "ab", "bc", "アb", "c"};
  Env m;
  m.build(
      [&](spec::dsl::ModelSpecBuilder& b) {
        auto& s = b.field(1, "surf").strings().trieIndex();
        auto& p = b.field(2, "pos").strings();
        b.unk("u", 1).single(chars::CharacterClass::KATAKANA).outputTo({s});
        b.unk("low", 2).single(chars::CharacterClass::ALPH).lowPriority().outputTo({s});
        b.unigram({s});
        b.bigram({p}, {p});
      },
      "UNK,u\nLOW,l\na,x\nab,x\nbc,y\nアb,x\nc,x\nab,z\n");
  Strs t = anyText((int)jpp_param("n", 3), 0, 10);
  int n = (int)t.size();
  Str text = join(t, 0, n);
  auto an = m.analyzer(2);
  float w[1] = {(float)jpp_range<int>("w", -9, 9)};
  HashedFeaturePerceptron hfp{util::ArraySlice<float>{w, 1}};
  ScorerDef sd;
  sd.feature = &hfp;
  sd.scoreWeights.assign(1, 1.0f);
  jpp_check(an->initScorers(sd).isOk(), "scorers");
  jpp_check(an->resetForInput(sp(text)).isOk(), "input accepted");
  auto& cps = an->input().codepoints();
  struct Span { int s, e, times; bool low; };
  std::vector<Span> all;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j <= n; ++j) {
      Str x = join(t, i, j);
      int times = 0;
      for (auto& y : words) times += x == y ? 1 : 0;
      if (x == "ab") times = 2;
      bool single = j == i + 1 && times == 0;
      if (single && cps[i].hasClass(chars::CharacterClass::KATAKANA)) times = 1;
      if (times) all.push_back(Span{i, j, times, false});
      if (single && cps[i].hasClass(chars::CharacterClass::ALPH)) all.push_back(Span{i, j, 1, true});
    }
  auto reach = [&](bool low) {
    std::vector<bool> r(n + 1, false);
    r[0] = true;
    for (int i = 0; i < n; ++i)
      for (auto& s : all)
        if (s.s == i && r[i] && (low || !s.low)) r[s.e] = true;
    return r;
  };
  bool plain = reach(false)[n], low = reach(true)[n];
  Status st = an->prepareNodeSeeds();
  jpp_check(st.isOk() == (plain || low), "a lattice exactly when words can cover the text");
  if (!st) {
    jpp_reach("none");
    return;
  }
  jpp_check(an->buildLattice().isOk(), "lattice");
  jpp_check(an->bootstrapAnalysis().isOk(), "bootstrap");
  jpp_check(an->computeScores(&sd).isOk(), "scores");
  Lattices L{an, w, 1};
  jpp_check(L.bnds() == n + 3, "a boundary for each place between characters and three more");
  std::vector<int> seen(all.size(), 0);
  StringField fpos;
  jpp_check(an->output().stringField("pos", &fpos).isOk(), "pos field");
  NodeWalker wk;
  for (int b = 0; b < L.bnds(); ++b) {
    auto bnd = L.l()->boundary(b);
    int ends = 0;
    auto e = bnd->ends()->nodePtrs();
    // what ends here
    for (auto& s : all)
      if (s.e + 2 == b && (!plain || !s.low)) ends += s.times;
    if (b == 1 || b == 2) ends = 1;
    jpp_check((int)e.size() == ends, "every word is listed where it ends");
    for (size_t i = 0; i < e.size(); ++i) {
      auto& p = e.at(i);
      for (size_t k = 0; k < i; ++k) jpp_check(!(e.at(k) == p), "listed once");
      auto info = L.l()->boundary(p.boundary)->starts()->nodeInfo();
      jpp_check(p.position < info.size(), "a node of its boundary");
      if (b < 3) jpp_check(p.boundary == b - 1 && p.position == 0, "the start of the sentence comes first");
      else jpp_check(p.boundary >= 2 && info.at(p.position).end() + 2 == b, "the word ends here");
    }
    auto starts = bnd->starts()->nodeInfo();
    if (b < 2 || b == L.bnds() - 1) {
      jpp_check(starts.size() == 1 && starts.at(0).entryPtr() == (b < 2 ? EntryPtr::BOS() : EntryPtr::EOS()), "the ends of the sentence");
      continue;
    }
    for (size_t i = 0; i < starts.size(); ++i) {
      auto& x = starts.at(i);
      jpp_check(x.start() == b - 2, "the word starts here");
      bool found = false;
      for (size_t k = 0; k < all.size(); ++k)
        if (all[k].s == x.start() && all[k].e == x.end()) {
          jpp_check(an->output().locate(x.entryPtr(), &wk) && wk.next(), "the node is located");
          bool last = fpos[wk] == "l";
          if (all[k].low != last) continue;
          found = true;
          ++seen[k];
        }
      jpp_check(found, "only words of the text");
    }
  }
  for (size_t k = 0; k < all.size(); ++k)
    jpp_check(seen[k] == (all[k].low && plain ? 0 : all[k].times), "every word of the text, the last resort only when needed");
  if (n > 0) {
    // the result covers the text
    AnalysisPath p;
    jpp_check(p.fillIn(an->lattice()).isOk(), "path");
    int at = 0;
    while (p.nextBoundary()) {
      ConnectionPtr c;
      jpp_check(p.nextNode(&c), "a word");
      auto& x = L.l()->boundary(c.boundary)->starts()->nodeInfo().at(c.right);
      jpp_check(x.start() == at, "words follow each other");
      at = x.end();
    }
    jpp_check(at == n, "the words cover the text");
  }
  jpp_reach(plain ? "plain" : "low");
}

namespace {
struct Shot {
  std::vector<uint64_t> v;
  void take(AnalyzerImpl* an) {
    auto l = an->lattice();
    v.push_back(l->createdBoundaryCount());
    for (u32 b = 0; b < l->createdBoundaryCount(); ++b) {
      auto bnd = l->boundary(b);
      auto s = bnd->starts();
      for (auto& x : s->nodeInfo()) {
        v.push_back((uint64_t)(uint32_t)x.entryPtr().rawValue());
        v.push_back(((uint64_t)x.start() << 20) + x.end());
      }
      for (auto p : bnd->ends()->nodePtrs()) v.push_back(((uint64_t)p.boundary << 20) + p.position);
      if (l->createdBoundaryCount() <= 3) continue;
      for (u32 i = 0; i < s->numEntries(); ++i)
        for (auto& e : s->beamData().row(i)) {
          if (EntryBeam::isFake(e)) break;
          float f = e.totalScore;
          u32 bits;
          memcpy(&bits, &f, 4);
          v.push_back(bits);
          v.push_back(((uint64_t)(uint16_t)e.ptr.boundary << 48) + ((uint64_t)(uint16_t)e.ptr.left << 32) + ((uint64_t)(uint16_t)e.ptr.right << 16) + (uint16_t)e.ptr.beam);
        }
    }
  }
};
}  // namespace

// an analyzer remembers nothing of earlier texts
HARNESS(reuse) {
  Lat m;
  m.make("UNK,u\na,x\nab,x\nb,y\nc,x\nア,x\n", 0, 1, 1);
  m.weights(4, 3);
  m.cfg.maxInputBytes = 9;
  m.cfg.globalBeamSize = (int)jpp_param("gbeam", 0);
  // bytes, not necessarily characters
  Str first(jpp_pick<int>("len1", 0, (int)jpp_param("n", 4)), 0);
  for (auto& c : first) c = (char)jpp_any<unsigned char>("byte");
  if (jpp_param("long", 0)) first += "abababab";
  Str second = join(anyText((int)jpp_param("k", 2), 0, 10), 0, 99);
  Analyzer old, fresh;
  ScoringConfig sc{2, 1};
  jpp_check(old.initialize(m.core.get(), m.cfg, sc, &m.sd).isOk(), "analyzer");
  jpp_check(fresh.initialize(m.core.get(), m.cfg, sc, &m.sd).isOk(), "analyzer");
  FakePlugin fp(0);
  fp.v[0] = 3;
  bool plug = jpp_param("plug", 0) != 0;
  Status s0 = old.analyze(sp(first), plug ? &fp : nullptr);
  if (first.size() > 9) jpp_check(!s0, "a text which is too long is refused");
  Status s1 = old.analyze(sp(second));
  Status s2 = fresh.analyze(sp(second));
  jpp_check(s1.isOk() == s2.isOk(), "the same texts are accepted");
  if (!s1) {
    jpp_reach("refused");
    return;
  }
  Shot a, b;
  a.take(old.impl());
  b.take(fresh.impl());
  jpp_check(a.v == b.v, "the same result as without the earlier text");
  jpp_reach(s0 ? "again" : "after a refused one");
}

// the beams grow with the length of the text
HARNESS(auto_beam) {
  Lat m;
  m.make("UNK,u\na,x\na,y\na,z\naa,x\n", 2, 1, 1);
  m.weights((int)jpp_param("nw", 2), 3);
  int base = jpp_pick<int>("base", 1, 3), step = jpp_pick<int>("step", 0, 3), max = jpp_pick<int>("max", 1, 4);
  bool global = jpp_pick<int>("global", 0, 1) != 0;
  m.cfg.autoBeamBase = base;
  m.cfg.autoBeamStep = step;
  m.cfg.autoBeamMax = max;
  m.cfg.globalBeamSize = global ? max : 0;
  auto an = m.analyzer(2);
  jpp_check(an->initScorers(m.sd).isOk(), "scorers");
  for (int r = 0; r < 2; ++r) {
    int n = jpp_pick<int>("len", 1, 4);
    m.text = Str(n, 'a');
    run(m, an);
    int want = step == 0 ? 2 : std::min(base + n / step, max);
    int g = step == 0 ? max : want;
    Lattices L{an, m.w, 8};
    for (int b = 2; b < L.bnds(); ++b) {
      auto bnd = L.l()->boundary(b);
      int ways = 0;
      auto lefts = bnd->ends()->nodePtrs();
      for (auto p : lefts) ways += L.beamLen(p);
      if (global) {
        jpp_check((int)bnd->ends()->globalBeam().size() == std::min(g, ways), "the global beam has the size for the text");
        ways = std::min(ways, g);
      }
      for (u32 i = 0; i < bnd->localNodeCount(); ++i)
        jpp_check(L.beamLen(LatticeNodePtr{(u16)b, (u16)i}) == std::min(want, ways), "the beam has the size for the text");
    }
    jpp_check(an->autoBeamSizes() == (step == 0 ? 0 : want), "the size is reported");
  }
  jpp_reach("end");
}

// which settings are refused
HARNESS(analyzer_config) {
  Lat m;
  m.make("UNK,u\na,x\n", 1, 0, 0);
  m.weights(1, 0);
  AnyScores any("other", 0);
  FakeFactory ff;
  ff.s = &any;
  int nw = jpp_pick<int>("weights", 0, 3), others = jpp_pick<int>("others", 0, 2), scorers = jpp_pick<int>("scorers", 0, 3), beam = jpp_pick<int>("beam", 0, 2);
  int G = jpp_pick<int>("global", 0, 1), C = jpp_pick<int>("check", 0, 1), R = jpp_pick<int>("right", 0, 1);
  bool feature = jpp_pick<int>("feature", 0, 1) != 0;
  m.sd.scoreWeights.assign(nw, 1.0f);
  if (!feature) m.sd.feature = nullptr;
  for (int i = 0; i < others; ++i) m.sd.others.push_back(&ff);
  m.cfg.globalBeamSize = G;
  m.cfg.rightGbeamCheck = C;
  m.cfg.rightGbeamSize = R;
  bool ok = feature && scorers == others + 1 && nw == others + 1 && beam > 0 && !(C > 0 && R == 0) && (others == 0 || G > 0);
  Analyzer an;
  jpp_check(an.initialize(m.core.get(), m.cfg, ScoringConfig{beam, scorers}, &m.sd).isOk() == ok, "only settings which fit are accepted");
  if (ok) jpp_check(an.analyze(cs("a")).isOk(), "then it works");
  jpp_reach(ok ? "ok" : "refused");
}
