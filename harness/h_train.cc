// Training: examples, gold paths, losses and updates.
#include <map>
#include <set>
#include "env.h"
#include "core/impl/feature_computer.h"
#include "core/input/partial_example_io.h"
#include "core/training/gold_example.h"
#include "core/training/loss.h"
#include "core/training/partial_trainer.h"
#include "core/training/trainer.h"
#include "core/analysis/unk_nodes_creator.h"
using namespace jumanpp::core::input;
using namespace jumanpp::core::training;
namespace {
const char* const CSV =
    "zz,××,U,x\n"
    "z1,ああ,N,x\n"
    "z2,ああ,V,x\n"
    "z3,あ,N,y\n"
    "z1,い,P,x\n"
    "z1,あい,V,y\n"
    "z1,いあ,N,x\n"
    "z1,い,N,y\n"
    "z2,あ,N,y\n"
    "z2,\"a_,b\"\"\",N,x\n";
// columns, fields, features and fields of examples have different numbers
void trainSpec(spec::dsl::ModelSpecBuilder& b) {
  auto& z = b.field(1, "z").strings();
  auto& s = b.field(2, "s").strings().trieIndex();
  auto& p = b.field(3, "p").strings();
  auto& q = b.field(4, "q").strings().stringStorage(p);
  b.unigram({q});
  b.unigram({p});
  b.unigram({s, p});
  b.bigram({s}, {s});
  b.bigram({p}, {p});
  b.trigram({p}, {p}, {p});
  b.unk("any", 1).chunking(chars::CharacterClass::FAMILY_ANYTHING).outputTo({s});
  auto& t = b.train().field(p, 1.0f).field(q, 0.5f).field(s, 0.25f);
  // a field which is no feature can be ignored in training
  if (jpp_param("ignored", 0)) t.field(z, 0.0f);
}
const int NF = 3;
const float WEIGHT[NF] = {1.0f, 0.5f, 0.25f};
const char* const FNAME[NF] = {"p", "q", "s"};

struct GWord { Str f[NF]; Str z; };
// words of examples: of the dictionary, of the dictionary with other fields, unknown ones
const GWord GWORDS[] = {{{"N", "x", "ああ"}, "z1"}, {{"V", "x", "ああ"}, "z1"}, {{"N", "y", "あ"}, "z3"}, {{"P", "x", "い"}, "z1"}, {{"N", "y", "い"}, "q"},
                        {{"V", "y", "い"}, "z1"},   {{"V", "x", "あい"}, "z1"}, {{"U", "x", "うう"}, "z1"}, {{"U", "x", "いう"}, "z1"}, {{"N", "x", "う"}, "z1"}};
const int NGWORDS = 10;
struct Train : Env {
  TrainFieldsIndex tio;
  void make() {
    build(trainSpec, CSV);
    jpp_check(tio.initialize(*core).isOk(), "training fields");
  }
  // the number of a string in the dictionary, -1 for other strings
  i32 value(int f, const Str& v) {
    for (auto& kv : *tio.fields()[f].str2int)
      if (kv.first == sp(v)) return kv.second;
    return -1;
  }
  int column(int f) { return core->spec().training.fields[f].dicIdx; }
};
Str quoted(const Str& s, const char* special) {
  if (s.find_first_of(special) == Str::npos) return s;
  Str r = "\"";
  for (char c : s) { if (c == '"') r += c; r += c; }
  return r + '"';
}
}  // namespace

// what a reader makes out of annotated sentences
HARNESS(full_read) {
  Train e;
  e.make();
  bool dbl = jpp_pick<int>("double", 0, 1);
  int n = (int)jpp_param("examples", 2);
  int maxw = (int)jpp_param("words", 2);
  struct Ex { std::vector<GWord> words; Str comment; int line; };
  std::vector<Ex> exs;
  Str data;
  int line = 0;
  bool closed = true;
  auto more = {GWord{{"N", "x", "a_,b\""}, "z1"}, GWord{{"n w", "x", "うう"}, "z1"}, GWord{{"N", "w\"", "う"}, "z1"}};
  for (int i = 0; i < n; ++i) {
    Ex x;
    x.line = line;
    bool comment = jpp_pick<int>("comment", 0, 1);
    if (comment) x.comment = i ? "c 2" : "c";
    int nw = jpp_pick<int>("words", dbl ? 0 : 1, maxw);
    if (dbl && nw == 0 && !comment) nw = 1;
    if (comment && !dbl) { data += "# " + x.comment + "\n"; ++line; }
    for (int k = 0; k < nw; ++k) {
      int w = jpp_pick<int>("word", 0, 5);
      GWord g = w < 3 ? GWORDS[w * 3] : *(more.begin() + (w - 3));
      x.words.push_back(g);
      Str word;
      for (int f = 0; f < NF; ++f) word += (f ? (dbl ? "_" : ",") : "") + quoted(g.f[f], dbl ? "_\"" : ",\"");
      if (dbl) {
        data += (k ? " " : "") + quoted(word, " \"");
      } else {
        data += word + "\n";
        ++line;
      }
    }
    if (dbl) {
      if (comment) data += (nw ? " # " : "# ") + x.comment;
      data += "\n";
    } else {
      closed = i < n - 1 || jpp_pick<int>("closed", 0, 1);
      if (closed) data += jpp_pick<int>("eos", 0, 1) ? "EOS\n" : "\n";
    }
    ++line;
    exs.push_back(x);
  }
  FullExampleReader r;
  r.setTrainingIo(&e.tio);
  jpp_check((dbl ? r.initDoubleCsv(sp(data)) : r.initCsv(sp(data))).isOk(), "reader initializes");
  for (int pass = 0; pass < 2; ++pass) {
    FullyAnnotatedExample ex;
    for (auto& x : exs) {
      ex.reset();
      jpp_check(r.lineNumber() == x.line, "line of the example");
      jpp_check(r.readFullExample(&ex).isOk(), "example is read");
      jpp_check(!r.finished(), "there was an example");
      jpp_check(ex.numNodes() == (int)x.words.size(), "number of words");
      if (dbl || x.comment.empty()) jpp_check(ex.comment() == sp(x.comment), "comment");
      else jpp_check(ex.comment() == sp("# " + x.comment) || ex.comment() == sp(x.comment), "comment");
      Str all;
      int at = 0;
      for (int k = 0; k < ex.numNodes(); ++k) {
        auto& g = x.words[k];
        auto node = ex.nodeAt(k);
        int len = (int)chars_of(g.f[2]).size();
        jpp_check(node.position == at && node.length == len, "place of a word");
        jpp_check(node.data.size() == e.tio.fields().size(), "number of fields");
        Str unknown;
        for (int f = 0; f < NF; ++f) {
          i32 v = e.value(f, g.f[f]);
          if (v < 0) {
            jpp_check(node.data.at(f) < 0, "a string which is not in the dictionary");
            unknown = g.f[f];
            jpp_reach("unknown");
          } else {
            jpp_check(node.data.at(f) == v, "a string of the dictionary");
          }
        }
        jpp_check(node.surface == sp(unknown), "text of an unknown string");
        at += len;
        all += g.f[2];
      }
      jpp_check(ex.surface() == sp(all), "text of the example");
      jpp_reach(dbl ? "double" : "csv");
    }
    ex.reset();
    jpp_check(r.readFullExample(&ex).isOk() && r.finished() && ex.numNodes() == 0, "there are no more examples");
    r.resetInput(sp(data));
    jpp_check(!r.finished(), "reading starts again");
  }
}

// words with too few fields are refused, whatever was read before
HARNESS(full_short) {
  Train e;
  e.make();
  bool dbl = jpp_pick<int>("double", 0, 1);
  int nw = jpp_pick<int>("words", 1, (int)jpp_param("words", 2));
  int bad = jpp_pick<int>("bad", -1, nw - 1);
  int keep = jpp_pick<int>("fields", 1, NF - 1);
  Str data;
  for (int k = 0; k < nw; ++k) {
    auto& g = GWORDS[3 * jpp_pick<int>("word", 0, 2)];
    Str word;
    for (int f = 0; f < (k == bad ? keep : NF); ++f) word += (f ? (dbl ? "_" : ",") : "") + Str(g.f[f]);
    data += dbl ? (k ? " " : "") + word : word + "\n";
  }
  data += dbl ? "\n" : "\n";
  FullExampleReader r;
  r.setTrainingIo(&e.tio);
  jpp_check((dbl ? r.initDoubleCsv(sp(data)) : r.initCsv(sp(data))).isOk(), "reader initializes");
  FullyAnnotatedExample ex;
  ex.reset();
  bool ok = r.readFullExample(&ex).isOk();
  jpp_check(ok == (bad < 0), "words with too few fields are refused");
  if (ok) jpp_check(ex.numNodes() == nw, "words with enough fields are read");
  jpp_reach(ok ? "whole" : "short");
}

namespace {
// the text of an example in the csv format
Str csvOf(const std::vector<GWord>& ws, bool z) {
  Str r;
  for (auto& w : ws) {
    for (int f = 0; f < NF; ++f) r += (f ? "," : "") + w.f[f];
    if (z) r += "," + w.z;
    r += "\n";
  }
  return r + "\n";
}
struct TrainAn : Train {
  bool z;
  std::vector<float> sym, w;
  std::unique_ptr<HashedFeaturePerceptron> hfp;
  ScorerDef sd;
  FullExampleReader rdr;
  TrainingConfig conf;
  std::vector<GWord> words;
  int exponent = 6;

  void scorer(int nw, int lim) {
    for (int i = 0; i < nw; ++i) sym.push_back((float)jpp_range<int>("w", -lim, lim));
    for (int i = 0; i < (1 << exponent); ++i) w.push_back(sym[(i * 7 >> 2) % nw]);
    hfp.reset(new HashedFeaturePerceptron{util::ArraySlice<float>{w.data(), w.size()}});
    sd.feature = hfp.get();
    sd.scoreWeights.assign(1, 1.0f);
    conf.featureNumberExponent = exponent;
  }
  void pickWords(int maxw) {
    int n = jpp_pick<int>("words", 1, maxw);
    for (int i = 0; i < n; ++i) words.push_back(GWORDS[jpp_pick<int>("word", 0, NGWORDS - 1)]);
  }
  Str text() {
    Str r;
    for (auto& g : words) r += g.f[2];
    return r;
  }
  bool fits(const GWord& g, const util::ArraySlice<i32>& data, bool special) {
    for (int f = 0; f < NF; ++f) {
      i32 v = value(f, g.f[f]);
      if (v < 0) v = hashUnkString(sp(g.f[f]));
      // unknown words can have the fields of their template
      if (special && f < 2 && value(2, g.f[2]) < 0) continue;
      if (data.at(column(f)) != v) return false;
    }
    return true;
  }
};
}  // namespace

// every annotated word is a node of the lattice
HARNESS(gold_path) {
  TrainAn e;
  e.make();
  e.z = jpp_param("ignored", 0) != 0;
  e.pickWords((int)jpp_param("words", 3));
  // the lattice of the text alone
  auto plain = new AnalyzerOpen{e.core.get(), ScoringConfig{1, 1}, e.cfg};
  Str text = e.text(), csv = csvOf(e.words, e.z);
  int len = (int)chars_of(text).size();
  jpp_check(plain->resetForInput(sp(text)).isOk(), "reset");
  bool whole = plain->prepareNodeSeeds().isOk();
  jpp_check(whole && plain->buildLattice().isOk(), "lattice of the text");
  e.scorer(1, 1);
  auto an = e.analyzer(2);
  jpp_check(an->initScorers(e.sd).isOk(), "scorers");
  Trainer t{an, &e.core->spec().training, e.conf};
  e.rdr.setTrainingIo(&e.tio);
  jpp_check(e.rdr.initCsv(sp(csv)).isOk() && e.rdr.readFullExample(&t.example()).isOk(), "example");
  for (int rep = 0; rep < 2; ++rep) {
    t.resetState();
    jpp_check(t.prepare().isOk(), "the example can be prepared");
    auto path = t.goldenPath().nodes();
    jpp_check(path.size() == e.words.size(), "one node per word");
    bool added = false;
    int at = 0;
    for (size_t i = 0; i < e.words.size(); ++i) {
      auto& g = e.words[i];
      int gl = (int)chars_of(g.f[2]).size();
      auto ptr = path.at(i);
      jpp_check(ptr.boundary == at + 2, "a word begins where the one before ends");
      auto st = an->lattice()->boundary(ptr.boundary)->starts();
      jpp_check(ptr.position < st->numEntries(), "node of a word");
      auto& ni = st->nodeInfo().at(ptr.position);
      jpp_check(ni.numCodepoints() == gl, "length of a word");
      jpp_check(e.fits(g, st->entryData().row(ptr.position), ni.entryPtr().isSpecial()), "fields of a word");
      // only words which are not there are added
      auto ps = plain->lattice()->boundary(ptr.boundary)->starts();
      bool there = false;
      for (int p = 0; p < ps->numEntries(); ++p) {
        auto& pi = ps->nodeInfo().at(p);
        there |= pi.numCodepoints() == gl && e.fits(g, ps->entryData().row(p), pi.entryPtr().isSpecial());
      }
      added |= !there;
      int copies = 0;
      for (int p = 0; p < st->numEntries(); ++p) {
        auto& pi = st->nodeInfo().at(p);
        bool same = pi.numCodepoints() == gl && e.fits(g, st->entryData().row(p), false);
        copies += same;
      }
      jpp_check(copies <= 1, "a word is not added twice");
      jpp_reach(there ? "there" : "added");
      at += gl;
    }
    jpp_check(at == len, "words cover the text");
    jpp_check(t.wasGoldAdded() == added, "words are added when they are not in the lattice");
    // the other words are still there
    for (int b = 0; b < len; ++b) {
      auto ps = plain->lattice()->boundary(b + 2)->starts();
      auto st = an->lattice()->boundary(b + 2)->starts();
      jpp_check(st->numEntries() >= ps->numEntries(), "words of the text");
      for (int p = 0; p < ps->numEntries(); ++p) {
        jpp_check(st->nodeInfo().at(p).numCodepoints() == ps->nodeInfo().at(p).numCodepoints(), "word of the text");
        for (int c = 0; c < NF; ++c) jpp_check(st->entryData().row(p).at(c) == ps->entryData().row(p).at(c), "fields of a word of the text");
      }
    }
  }
}

namespace {
using features::NgramFeatureRef;
using features::NgramFeaturesComputer;
struct Step {
  int boundary;
  bool gold = false, top = false;
  LatticeNodePtr g, t;
  const ConnectionBeamElement* el = nullptr;
  int goldNo = -1;
  float mismatch = 0, violation = 0;
  bool diff = false, inBeam = false;
  bool error() const { return !(gold && top) || diff || violation > 0.001f; }
};
std::vector<u32> ngrams(AnalyzerImpl* an, const std::vector<LatticeNodePtr>& path, int i) {
  std::vector<u32> r(an->core().spec().features.ngram.size());
  NgramFeaturesComputer c{an->lattice(), an->core().features()};
  auto at = [&](int k) { return k >= 0 ? path[k] : LatticeNodePtr{(u16)(k == -1 ? 1 : 0), 0}; };
  NgramFeatureRef ref{at(i - 2), at(i - 1), at(i)};
  c.calculateNgramFeatures(ref, &r);
  return r;
}
}  // namespace

// the loss and the update are made of what differs between the best and the annotated words
HARNESS(train_loss) {
  TrainAn e;
  e.make();
  e.z = jpp_param("ignored", 0) != 0;
  e.pickWords((int)jpp_param("words", 2));
  if (jpp_param("fixed", 0)) jpp_assume(e.words.size() == jpp_param("words", 2));
  e.scorer((int)jpp_param("nw", 2), (int)jpp_param("lim", 2));
  e.conf.mode = (TrainingMode)jpp_pick<int>("mode", 0, 2);
  int beam = jpp_pick<int>("beam", 1, (int)jpp_param("beam", 2));
  auto an = e.analyzer(beam);
  jpp_check(an->initScorers(e.sd).isOk(), "scorers");
  Trainer t{an, &e.core->spec().training, e.conf};
  e.rdr.setTrainingIo(&e.tio);
  Str csv = csvOf(e.words, e.z);
  jpp_check(e.rdr.initCsv(sp(csv)).isOk() && e.rdr.readFullExample(&t.example()).isOk(), "example");
  t.resetState();
  jpp_check(t.prepare().isOk(), "the example can be prepared");
  jpp_check(t.compute(&e.sd).isOk(), "scores");
  t.computeTrainingLoss();

  // reference
  auto l = an->lattice();
  int eos = l->createdBoundaryCount() - 1;
  std::vector<LatticeNodePtr> gold(t.goldenPath().nodes().begin(), t.goldenPath().nodes().end()), top;
  std::vector<const ConnectionBeamElement*> els;
  auto& last = l->boundary(eos)->starts()->beamData().at(0);
  for (auto p = last.ptr.previous; p->boundary >= 2; p = p->previous) {
    top.push_back(p->latticeNodePtr());
    els.push_back(reinterpret_cast<const ConnectionBeamElement*>(p));
  }
  std::reverse(top.begin(), top.end());
  std::reverse(els.begin(), els.end());
  gold.push_back(LatticeNodePtr{(u16)eos, 0});
  top.push_back(LatticeNodePtr{(u16)eos, 0});
  els.push_back(&last);
  std::vector<Step> steps;
  size_t gi = 0, ti = 0;
  float gscore = 0;
  std::vector<float> gsum;
  for (size_t i = 0; i < gold.size(); ++i) {
    auto fs = ngrams(an, gold, (int)i);
    for (u32 f : fs) gscore += e.w[f & (e.w.size() - 1)];
    gsum.push_back(gscore);
  }
  while (gi < gold.size() || ti < top.size()) {
    Step s;
    int gb = gi < gold.size() ? gold[gi].boundary : 1 << 20, tb = ti < top.size() ? top[ti].boundary : 1 << 20;
    s.boundary = std::min(gb, tb);
    if (gb == s.boundary) {
      s.gold = true;
      s.goldNo = (int)gi;
      s.g = gold[gi];
      s.inBeam = gi == 0;
      if (gi > 0)
        for (auto& be : l->boundary(gb)->starts()->beamData().row(s.g.position)) {
          if (EntryBeam::isFake(be)) break;
          s.inBeam |= be.ptr.previous->boundary == gold[gi - 1].boundary && be.ptr.previous->right == gold[gi - 1].position;
        }
      ++gi;
    }
    if (tb == s.boundary) {
      s.top = true;
      s.t = top[ti];
      s.el = els[ti];
      s.violation = s.el->totalScore - (gi > 0 ? gsum[gi - 1] : 0.f);
      ++ti;
    }
    if (s.gold && s.top && s.boundary != eos) {
      auto d = l->boundary(gb)->starts()->entryData();
      for (int f = 0; f < NF; ++f)
        if (d.row(s.g.position).at(e.column(f)) != d.row(s.t.position).at(e.column(f))) {
          s.diff = true;
          s.mismatch += WEIGHT[f];
        }
    }
    if (!s.top) s.violation = 0;
    steps.push_back(s);
  }
  int n = (int)steps.size(), till = n;
  if (e.conf.mode == TrainingMode::FalloffBeam) {
    for (int i = 0; i < n; ++i)
      if (steps[i].gold && !steps[i].inBeam) { till = std::min(i + 2, n - 1); break; }
  } else if (e.conf.mode == TrainingMode::MaxViolation) {
    int best = 0;
    float v = 0;
    for (int i = 0; i < n; ++i)
      if (steps[i].top && steps[i].violation > v) { best = i; v = steps[i].violation; }
    till = std::min(best + 2, n - 1);
  }
  float loss = 0, full = WEIGHT[0] + WEIGHT[1] + WEIGHT[2];
  bool same = true;
  for (auto& s : steps) {
    float x = s.gold && s.top ? s.mismatch : full;
    loss += x;
    same &= x == 0;
  }
  loss /= n * full;
  jpp_check(t.lossValue() == loss, "loss");
  jpp_check((t.lossValue() == 0) == same, "there is no loss only when the best words are the annotated ones");
  jpp_check(t.lossValue() >= 0 && t.lossValue() <= 1, "loss is a ratio");
  // annotated minus best
  std::map<u32, int> want;
  u32 mask = (1u << e.exponent) - 1;
  for (int i = 0; i < n && i < till; ++i) {
    auto& s = steps[i];
    if (!s.error()) continue;
    if (s.gold) for (u32 f : ngrams(an, gold, s.goldNo)) want[f & mask] += 1;
    if (s.top) {
      int k = 0;
      while (top[k].boundary != s.boundary) ++k;
      for (u32 f : ngrams(an, top, k)) want[f & mask] -= 1;
    }
  }
  std::map<u32, float> got;
  for (auto& f : t.featureDiff()) {
    jpp_check(got.count(f.feature) == 0, "every feature once");
    got[f.feature] = f.score;
  }
  int pos = 0, neg = 0;
  for (auto& kv : want) (kv.second > 0 ? pos : neg) += std::abs(kv.second);
  float sum = 0, up = 0, down = 0;
  for (auto& kv : want) {
    float v = got.count(kv.first) ? got[kv.first] : 0;
    if (got.count(kv.first)) got[kv.first] = 0;
    sum += v;
    if (kv.second == 0) jpp_check(v == 0, "features of both are not updated");
    if (kv.second > 0) {
      jpp_check(v > 0 || neg > 0, "annotated features get better");
      jpp_check(v >= 0, "annotated features do not get worse");
      if (v > 0 && up == 0) up = v / kv.second;
      jpp_check(std::abs(v - up * kv.second) < 0.01f, "annotated features get better evenly");
    }
    if (kv.second < 0) {
      jpp_check(v <= 0, "features of the best words do not get better");
      if (pos > 0) jpp_check(v < 0, "features of the best words get worse");
      if (v < 0 && down == 0) down = v / kv.second;
      jpp_check(std::abs(v - down * kv.second) < 0.01f, "features of the best words get worse evenly");
    }
  }
  for (auto& kv : got) jpp_check(kv.second == 0, "other features are not updated");
  if (pos > 0 && neg > 0) {
    jpp_check(std::abs(sum) < 0.01f, "the update is balanced");
    jpp_check(std::abs(up - 1) < 0.01f ? down > 0 && down < 2.01f : up > 0 && up < 1 && std::abs(down - 1) < 0.01f, "size of the update");
    jpp_reach("update");
  }
  jpp_reach(same ? "same" : "differ");
}
