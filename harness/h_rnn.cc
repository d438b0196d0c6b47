// Scores of the recurrent language model.
#include "env.h"
#include "fakefs.h"
#include <math.h>
#include "core/analysis/analyzer.h"
#include "core/analysis/output.h"
#include "core/analysis/rnn_scorer_gbeam.h"
#include "core/env.h"
#include "core/impl/model_io.h"
#include "core/impl/perceptron_io.h"
#include "rnn/mikolov_rnn.h"
#include "util/serialization.h"
namespace mk = jumanpp::rnn::mikolov;
using core::analysis::rnn::RnnInferenceConfig;

namespace {
struct FileHeader {
  u64 version = 60000;
  u64 maxent = 0;
  u32 order = 1;
  u8 nce = 1;
  float lnz = 9;
  u8 reversed = 0;
  Str type = "sigmoid";
  template <typename T>
  static void put(Str* s, const T& o) { s->append((const char*)&o, sizeof(T)); }
  Str bytes() const {
    Str s;
    put(&s, version);
    put(&s, maxent);
    put(&s, order);
    put(&s, nce);
    put(&s, lnz);
    put(&s, reversed);
    Str t = type;
    t.resize(64);
    s += t;
    put(&s, (u32)1);
    put(&s, (u32)0);
    return s;
  }
};

// a model of its own
struct Net {
  Strs words;
  int L = 2, order = 3;
  u64 H = 13;  // size of the table without the words
  float lnz = 9;
  std::vector<float> emb, nce, mat, me;
  // whole numbers, contexts of 0 and 1 only; some numbers are any
  void whole(int any, int lim) {
    auto f = [](size_t i, int m, int n) { return (float)((int)((i * 37 + (size_t)m) % 29) % n - n / 2); };
    int V = (int)words.size();
    std::vector<float> sym;
    for (int i = 0; i < any; ++i) sym.push_back((float)jpp_range<int>("number", -lim, lim));
    // the first number of a context is 1, the others are 1 or almost 0
    for (int i = 0; i < V * L; ++i) emb.push_back(i % L ? f(i, 3, 5) * 256 + 128 : 384), nce.push_back(i % L ? f(i, 11, 3) : 8 + i / L);
    for (int i = 0; i < L * L; ++i) mat.push_back(i < L ? 0 : f(i, 7, 7) * 512);
    for (u64 i = 0; i < H + (u64)V; ++i) me.push_back(any ? sym[i % any] : f(i, 5, 5));
  }
  void fill() {
    auto f = [](size_t i, int m, float s) { return (float)((int)((i * 37 + (size_t)m) % 29) - 14) * s; };
    int V = (int)words.size();
    for (int i = 0; i < V * L; ++i) emb.push_back(f(i, 3, 0.125f)), nce.push_back(f(i, 11, 0.25f));
    for (int i = 0; i < L * L; ++i) mat.push_back(f(i, 7, 0.1f));
    for (u64 i = 0; i < H + (u64)V; ++i) me.push_back(f(i, 5, 0.0625f));
  }
  Str file() const {
    FileHeader h;
    h.version = 60000 + L;
    h.maxent = me.size();
    h.order = (u32)order;
    h.lnz = lnz;
    Str s = h.bytes();
    for (auto* v : {&emb, &nce, &mat, &me}) s.append((const char*)v->data(), v->size() * sizeof(float));
    return s;
  }
  Str dict() const {
    Str s;
    for (size_t i = 0; i < words.size(); ++i) s += words[i] + " " + std::to_string(i + 3) + "\n";
    return s;
  }
  int id(const Str& w) const {
    for (size_t i = 0; i < words.size(); ++i)
      if (words[i] == w) return (int)i;
    return 1;
  }
  typedef std::vector<float> Vec;
  Vec next(const Vec& c, int word) const {
    Vec r;
    for (int i = 0; i < L; ++i) {
      float s = 0;
      for (int j = 0; j < L; ++j) s += mat[i * L + j] * c[j];
      s += emb[word * L + i];
      r.push_back(1 / (1 + expf(-s)));
    }
    return r;
  }
  // history: the words before, the last one first
  float score(const Vec& ctx, const std::vector<int>& hist, int word, float bias) const {
    float r = 0;
    for (int i = 0; i < L; ++i) r += nce[word * L + i] * ctx[i];
    for (int a = 0; a < order; ++a) {
      u64 x = mk::PRIMES[0] * mk::PRIMES[1];
      for (int b = 1; b <= a; ++b) {
        int h = b - 1 < (int)hist.size() ? hist[b - 1] : 0;
        x += mk::PRIMES[((u64)a * mk::PRIMES[b] + (u64)b) % mk::PRIMES_SIZE] * (u64)(h + 1);
      }
      r += me[(x % H + (u64)word) % H];
    }
    return r - bias;
  }
};
bool exact = false;
bool near(float a, float b) { return exact ? a == b : fabsf(a - b) <= 1e-3f * (1 + fabsf(b)); }

const char* const CSV =
    "UNK,u\n"
    "a,x\na,y\nab,x\nb,y\nb,x\nba,y\naba,x\n";

struct Lm : Env {
  Net net;
  RnnInferenceConfig rc;
  std::vector<float> w;
  std::unique_ptr<HashedFeaturePerceptron> hfp;
  ScorerDef sd;
  RnnScorerGbeamFactory rnn;
  bool two = false;
  void make() {
    two = jpp_param("two", 0) != 0;
    build(
        [&](spec::dsl::ModelSpecBuilder& b) {
          auto& s = b.field(1, "surf").strings().trieIndex();
          auto& p = b.field(2, "pos").strings();
          b.unk("d", 1).chunking(chars::CharacterClass::FIGURE).outputTo({s});
          b.unigram({s, p});
          b.bigram({p}, {p});
          b.trigram({s}, {p}, {s});
        },
        CSV);
    static const float WS[][4] = {{0.25f, -0.5f, 0.75f, 0.125f}, {-1, 0.5f, 0.25f, -0.125f}, {0, 0, 0, 0}};
    int k = jpp_pick<int>("weights", 0, (int)jpp_param("weights", 2));
    w.assign(WS[k], WS[k] + 4);
    hfp.reset(new HashedFeaturePerceptron{util::ArraySlice<float>{w.data(), w.size()}});
    sd.feature = hfp.get();
    net.words.push_back("</s>");
    net.words.push_back("<unk>");
    static const char* W1[] = {"a", "b", "1", "ab", "22"};
    static const char* W2[] = {"a_x", "b_y", "1_u", "b_x", "ab_x"};
    for (int i = 0; i < 5; ++i)
      if ((i > 2 && !jpp_param("words", 0)) || jpp_pick<int>("word", 0, 1)) net.words.push_back(two ? W2[i] : W1[i]);
    net.order = jpp_pick<int>("order", 1, (int)jpp_param("orders", 3));
    net.L = jpp_pick<int>("layer", (int)jpp_param("layer", 2), (int)jpp_param("layers", 2));
    if (jpp_param("whole", 0)) {
      exact = true;
      int any = (int)jpp_param("any", 0), lim = (int)jpp_param("lim", 1), nw = (int)jpp_param("nw", 1);
      net.whole(any, lim);
      std::vector<float> sym;
      for (int i = 0; i < nw; ++i) sym.push_back((float)jpp_range<int>("w", -lim, lim));
      for (int i = 0; i < 4; ++i) w[i] = nw ? sym[i % nw] : (float)(i * 3 % 4 - 1);
    } else {
      net.fill();
    }
    std::vector<Str> f(1, "surf");
    if (two) f.push_back("pos");
    rc.rnnFields = f;
    rc.nceBias = 2.5f;
    rc.unkConstantTerm = -1.5f;
    rc.unkLengthPenalty = -0.75f;
    rc.perceptronWeight = 0.5f;
    rc.rnnWeight = 0.25f;
    if (jpp_param("whole", 0)) rc.unkConstantTerm = -3.f, rc.unkLengthPenalty = -2.f, rc.nceBias = 1.f, rc.perceptronWeight = 2.f, rc.rnnWeight = 1.f;
    sd.scoreWeights = {rc.perceptronWeight, rc.rnnWeight};
  }
};

struct PathWord { LatticeNodePtr node; const ConnectionPtr* ptr; u16 left, beam; };
Str wordOf(AnalyzerImpl* an, const Str& text, LatticeNodePtr p, bool two, int* len) {
  auto& info = an->lattice()->boundary(p.boundary)->starts()->nodeInfo().at(p.position);
  *len = info.numCodepoints();
  Str r = text.substr(p.boundary - 2, *len);
  if (two) {
    auto& om = an->output();
    NodeWalker nw;
    StringField f;
    jpp_check(om.stringField("pos", &f).isOk() && om.locate(p, &nw) && nw.next(), "word");
    r += "_" + f[nw].str();
  }
  return r;
}

// all the scores and the order of the analyses
void checkScores(AnalyzerImpl* an, const Net& net, const RnnInferenceConfig& rc, const Str& text, bool two, int k) {
  auto lat = an->lattice();
  u32 last = lat->createdBoundaryCount() - 1;
  auto gbeam = lat->boundary(last)->ends()->globalBeam();
  auto raw = reinterpret_cast<const BeamCandidate*>(lat->lastGbeamRaw());
  float w0 = rc.perceptronWeight, w1 = rc.rnnWeight;
  std::vector<float> totals;
  for (size_t g = 0; g < gbeam.size(); ++g) {
    std::vector<const ConnectionPtr*> path;
    for (auto p = &gbeam.at(g)->ptr; p->boundary > 1; p = p->previous) path.push_back(p);
    Net::Vec ctx(net.L, 0.f);
    ctx = net.next(ctx, 0);
    std::vector<int> hist(1, 0);
    float total = 0;
    for (size_t i = path.size() + 1; i-- > 0;) {
      LatticeNodePtr node{(u16)last, 0};
      u16 left = raw[g].left(), beam = raw[g].beam();
      int len = 0, id = 0;
      bool unk = false;
      if (i > 0) {
        auto p = path[i - 1];
        node = p->latticeNodePtr();
        left = p->left;
        beam = p->beam;
        id = net.id(wordOf(an, text, node, two, &len));
        unk = id == 1;
      }
      auto sc = lat->boundary(node.boundary)->scores()->nodeScores(node.position).beamLeft(beam, left);
      float want = unk ? (float)rc.unkConstantTerm + (float)rc.unkLengthPenalty * (float)len : net.score(ctx, hist, id, rc.nceBias);
      jpp_check(near(sc.at(1), want), "the score of a word is the one of the language model");
      if (unk) jpp_reach("unknown");
      total += w0 * sc.at(0) + w1 * sc.at(1);
      ctx = net.next(ctx, id);
      hist.insert(hist.begin(), id);
    }
    totals.push_back(total);
  }
  jpp_check(!totals.empty(), "there are analyses");
  auto beam = lat->boundary(last)->starts()->beamData().row(0);
  std::vector<bool> used(totals.size(), false);
  size_t n = 0;
  for (; n < beam.size() && !EntryBeam::isFake(beam.at(n)); ++n) {
    auto& e = beam.at(n);
    int at = -1;
    for (size_t g = 0; g < gbeam.size(); ++g)
      if (raw[g].left() == e.ptr.left && raw[g].beam() == e.ptr.beam) at = (int)g;
    jpp_check(at >= 0 && !used[at], "every analysis is one of the hypotheses");
    used[at] = true;
    jpp_check(near(e.totalScore, totals[at]), "the score of an analysis is the weighted sum of the scores of its words");
    if (n) jpp_check(beam.at(n - 1).totalScore >= e.totalScore, "the better analysis first");
  }
  jpp_check(n == std::min<size_t>(k, totals.size()), "as many analyses as fit the beam");
  for (size_t g = 0; g < totals.size(); ++g)
    if (!used[g]) jpp_check(totals[g] <= beam.at(n - 1).totalScore + (exact ? 0 : 1e-3f), "no better analysis is left out");
}
Str anyOf(const char* alphabet, int n, int lo = 1) {
  Str r;
  int len = jpp_pick<int>("len", lo, n), m = (int)strlen(alphabet) - 1;
  for (int i = 0; i < len; ++i) r.push_back(alphabet[jpp_pick<int>("ch", 0, m)]);
  return r;
}
Status analyse(AnalyzerOpen* a, const Str& text, ScorerDef* sd) {
  JPP_RETURN_IF_ERROR(a->resetForInput(sp(text)));
  JPP_RETURN_IF_ERROR(a->prepareNodeSeeds());
  JPP_RETURN_IF_ERROR(a->buildLattice());
  JPP_RETURN_IF_ERROR(a->bootstrapAnalysis());
  return a->computeScores(sd);
}
}  // namespace

HARNESS(rnn_scores) {
  fakefs::Scope fs;
  static Lm* mp;
  mp = new Lm;
  auto& m = *mp;
  m.make();
  fs.w.put("lm", m.net.dict());
  fs.w.put("lm.nnet", m.net.file());
  jpp_check(m.rnn.make(cs("lm"), m.core->dic(), m.rc).isOk(), "the language model is read");
  m.sd.others.push_back(&m.rnn);
  m.cfg.globalBeamSize = (int)jpp_param("gbeam", 4);
  int k = (int)jpp_param("beam", 3);
  auto an = m.analyzer(k, 2);
  jpp_check(an->initScorers(m.sd).isOk(), "scorers");
  for (int r = 0; r < (int)jpp_param("rounds", 1); ++r) {
    Str text = anyOf("ab1", (int)jpp_param("n", 3));
    jpp_check(analyse(an, text, &m.sd).isOk(), "analysis");
    checkScores(an, m.net, m.rc, text, m.two, k);
  }
  jpp_reach("end");
}

namespace {
struct Saved : Lm {
  model::ModelPart dicPart, percPart;
  util::CodedBuffer percHdr;
  std::vector<float> big;
  void parts() {
    jpp_check(db.fillModelPart(&dicPart, cs("dic")).isOk(), "model of the dictionary");
    big.assign(16, 0.f);
    for (size_t i = 0; i < 16; ++i) big[i] = w[i % 4] + (float)(i / 4) * 0.25f;
    PerceptronInfo pi{4};
    util::serialization::Saver sv{&percHdr};
    sv.save(pi);
    percPart.kind = model::ModelPartKind::Perceprton;
    percPart.comment = "lm";
    percPart.data.push_back(percHdr.contents());
    percPart.data.push_back(StringPiece{(const char*)big.data(), big.size() * sizeof(float)});
  }
};
struct Plain { float bias, uc, ul, w0, w1; };
// some of the settings: 1 the bias, 2 unknown words, 4 the weights
void settings(RnnInferenceConfig* rc, Plain* p, int which, float shift) {
  auto any = [&](const char* what, float v) { return exact ? (float)jpp_range<int>(what, -5, 5) : v + shift; };
  if (which & 1) rc->nceBias = p->bias = any("bias", 2.5f);
  if (which & 2) rc->unkConstantTerm = p->uc = any("unk", -1.5f), rc->unkLengthPenalty = p->ul = any("length", -0.75f);
  if (which & 4) rc->perceptronWeight = p->w0 = exact ? 2 + shift * 8 : 0.5f + shift, rc->rnnWeight = p->w1 = exact ? 1 + shift * 8 : 0.25f + shift;
}
RnnInferenceConfig asConfig(const Plain& p) {
  RnnInferenceConfig r;
  r.nceBias = p.bias;
  r.unkConstantTerm = p.uc;
  r.unkLengthPenalty = p.ul;
  r.perceptronWeight = p.w0;
  r.rnnWeight = p.w1;
  return r;
}
}  // namespace

// language models and their settings are saved together with dictionaries and used from there
HARNESS(rnn_saved) {
  fakefs::Scope fs;
  static Saved* mp;
  mp = new Saved;
  auto& m = *mp;
  m.make();
  m.parts();
  fs.w.put("lm", m.net.dict());
  fs.w.put("lm.nnet", m.net.file());
  int s1 = jpp_pick<int>("saved", 0, 7), s2 = jpp_pick<int>("passed", 0, 7), how = jpp_pick<int>("how", 0, 5);
  jpp_assume(how != 0 || s2 == 0);
  RnnInferenceConfig c1, c2;
  c1.rnnFields = m.rc.rnnFields;
  // the settings which are in use
  Plain p{m.net.lnz, -6.0f, exact ? -2.f : -1.5f, 1, 1}, none;
  if (exact) (how < 4 ? c1 : c2).unkLengthPenalty = p.ul;
  settings(&c1, how < 4 ? &p : &none, s1, 0);
  settings(&c2, &p, s2, 0.375f);
  model::ModelInfo mi;
  mi.parts.push_back(m.dicPart);
  mi.parts.push_back(m.percPart);
  if (how < 5) {
    jpp_check(m.rnn.make(cs("lm"), m.core->dic(), c1).isOk(), "the language model is read");
    jpp_check(m.rnn.makeInfo(&mi, cs("rnn comment")).isOk() && mi.parts.size() == 3, "model of the language model");
  }
  {
    model::ModelSaver ms;
    jpp_check(ms.open(cs("m")).isOk() && ms.save(mi).isOk(), "model is saved");
  }
  {
    JumanppEnv env;
    jpp_check(env.loadModel(cs("m")).isOk(), "model is loaded");
    VersionInfo vi;
    env.fillVersion(&vi);
    jpp_check(env.hasRnnModel() == (how < 5) && vi.rnn == (how < 5 ? "rnn comment" : ""), "parts of the model");
    static Net other;
    other = m.net;
    RnnScorerGbeamFactory* f2 = nullptr;
    switch (how) {
      case 1: env.setRnnConfig(c2); break;
      case 2:
      case 3: {
        RnnInferenceConfig none;
        none.rnnWeight = 0.f;
        env.setRnnConfig(none);
        if (how == 3) {
          if (!(s2 & 4)) c2.rnnWeight = p.w1;
          env.setRnnConfig(c2);
        }
        break;
      }
      case 4:
      case 5:
        // another one is used
        other.emb.assign(other.emb.size(), exact ? 384 : 0.5f);
        other.mat[0] += exact ? 512 : 0.25f;
        std::reverse(other.me.begin(), other.me.end());
        fs.w.put("lm2", other.dict());
        fs.w.put("lm2.nnet", other.file());
        f2 = new RnnScorerGbeamFactory;
        c2.rnnFields = m.rc.rnnFields;
        jpp_check(f2->make(cs("lm2"), env.coreHolder()->dic(), c2).isOk(), "the other language model is read");
        env.setRnnHolder(f2);
        break;
      default: break;
    }
    jpp_check(env.initFeatures(nullptr).isOk(), "features");
    env.setBeamSize(3);
    env.setGlobalBeam(4, 0, 0);
    {
      Analyzer an;
      jpp_check(env.makeAnalyzer(&an).isOk(), "analyser");
      Str text = anyOf("ab1", (int)jpp_param("n", 2));
      jpp_check(an.analyze(sp(text)).isOk(), "analysis");
      if (how == 2) {
        HashedFeaturePerceptron hfp{util::ArraySlice<float>{m.big.data(), m.big.size()}};
        ScorerDef sd;
        sd.feature = &hfp;
        sd.scoreWeights.assign(1, 1.0f);
        m.cfg.globalBeamSize = 4;
        auto a = m.analyzer(3);
        jpp_check(a->initScorers(sd).isOk() && analyse(a, text, &sd).isOk(), "analysis");
        auto last = a->lattice()->createdBoundaryCount() - 1;
        auto r1 = a->lattice()->boundary(last)->starts()->beamData().row(0), r2 = an.impl()->lattice()->boundary(last)->starts()->beamData().row(0);
        for (size_t i = 0; i < r1.size(); ++i) {
          jpp_check(EntryBeam::isFake(r1.at(i)) == EntryBeam::isFake(r2.at(i)), "the same analyses without a language model");
          if (EntryBeam::isFake(r1.at(i))) break;
          jpp_check(near(r1.at(i).totalScore, r2.at(i).totalScore), "the same scores without a language model");
        }
        jpp_reach("disabled");
      } else {
        checkScores(an.impl(), other, asConfig(p), text, m.two, 3);
        jpp_reach("scored");
      }
    }
    delete f2;
  }
  jpp_reach("end");
}

// broken files are refused, complete ones are read as they are
HARNESS(rnn_files) {
  fakefs::Scope fs;
  static Saved* mp;
  mp = new Saved;
  auto& m = *mp;
  m.make();
  Str net = m.net.file(), dict = m.net.dict();
  RnnInferenceConfig rc;
  rc.rnnFields = m.rc.rnnFields;
  FileHeader h;
  h.version = 60000 + m.net.L;
  h.maxent = m.net.me.size();
  h.order = (u32)m.net.order;
  auto head = [&] { net.replace(0, h.bytes().size(), h.bytes()); };
  bool nofile = false;
  switch (jpp_pick<int>("kind", 0, 13)) {
    case 0: {
      fs.w.put("lm", dict);
      fs.w.put("lm.nnet", net);
      mk::MikolovModelReader rd;
      jpp_check(rd.open(cs("lm")).isOk() && rd.parse().isOk(), "complete files are read");
      auto& hd = rd.header();
      jpp_check(hd.layerSize == (u32)m.net.L && hd.maxentOrder == (u32)m.net.order && hd.maxentSize == m.net.me.size() && hd.vocabSize == m.net.words.size() && hd.nceLnz == m.net.lnz, "header");
      jpp_check(rd.words().size() == m.net.words.size(), "words");
      for (size_t i = 0; i < m.net.words.size(); ++i) jpp_check(rd.words()[i] == sp(m.net.words[i]), "words");
      auto same = [](util::ArraySlice<float> a, const std::vector<float>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < b.size(); ++i)
          if (a.at(i) != b[i]) return false;
        return true;
      };
      jpp_check(same(rd.rnnMatrix(), m.net.mat) && same(rd.embeddings(), m.net.emb) && same(rd.nceEmbeddings(), m.net.nce) && same(rd.maxentWeights(), m.net.me), "numbers");
      jpp_reach("read");
      return;
    }
    case 1: net.resize(net.size() - (size_t)jpp_pick<int>("cut", 1, (int)jpp_param("cut", 140))); break;
    case 2: net.resize((size_t)jpp_pick<int>("left", 1, 102)); break;
    case 3: net += Str((size_t)jpp_pick<int>("more", 1, 9), '\0'); break;
    case 4: h.version = jpp_pick<int>("version", 0, 1) ? 50000 + m.net.L : 70000 + m.net.L, head(); break;
    case 5: h.nce = 0, head(); break;
    case 6: h.type = jpp_pick<int>("type", 0, 1) ? "tanh" : "sigmoi", head(); break;
    case 7: dict = "x\n" + dict.substr(dict.find('\n') + 1); break;
    case 8: dict.replace(dict.find("<unk>"), 5, "u"); break;
    case 9: dict += "w\n"; break;
    case 10: rc.rnnFields = Strs{jpp_pick<int>("field", 0, 1) ? "nofield" : "surfa"}; break;
    case 11: h.order = jpp_pick<int>("features", 0, 1) ? 0 : (u32)jpp_pick<int>("many", 5, 7), head(); break;
    case 12: {
      // no place for features besides the words
      int n = jpp_pick<int>("place", 0, 1) ? 0 : (int)m.net.words.size();
      net.resize(net.size() - (m.net.me.size() - n) * sizeof(float));
      h.maxent = (u64)n, head();
      break;
    }
    default: nofile = true;
  }
  int missing = nofile ? jpp_pick<int>("missing", 0, 1) : -1;
  if (missing != 0) fs.w.put("lm", dict);
  if (missing != 1) fs.w.put("lm.nnet", net);
  jpp_check(!m.rnn.make(cs("lm"), m.core->dic(), rc).isOk(), "broken files are refused");
  jpp_reach("refused");
}

// saved language models which are not complete are refused
HARNESS(rnn_parts) {
  fakefs::Scope fs;
  static Saved* mp;
  mp = new Saved;
  auto& m = *mp;
  m.make();
  fs.w.put("lm", m.net.dict());
  fs.w.put("lm.nnet", m.net.file());
  RnnInferenceConfig rc;
  rc.rnnFields = m.rc.rnnFields;
  Plain p;
  settings(&rc, &p, 7, 0);
  model::ModelInfo mi;
  jpp_check(m.rnn.make(cs("lm"), m.core->dic(), rc).isOk() && m.rnn.makeInfo(&mi, cs("c")).isOk(), "the language model is read");
  auto& d = mi.parts[0].data;
  RnnScorerGbeamFactory f2;
  switch (jpp_pick<int>("kind", 0, 4)) {
    case 0: {
      jpp_check(f2.load(mi).isOk(), "complete models are loaded");
      model::ModelInfo m2;
      jpp_check(f2.makeInfo(&m2, cs("c")).isOk() && m2.parts.size() == 1 && m2.parts[0].data.size() == d.size(), "and saved again");
      for (size_t i = 0; i < d.size(); ++i) jpp_check(m2.parts[0].data[i] == d[i], "with the same contents");
      jpp_check(f2.config() == m.rnn.config() && f2.config().rnnFields == rc.rnnFields && f2.config().eosSymbol == rc.eosSymbol && f2.config().unkSymbol == rc.unkSymbol && f2.config().fieldSeparator == rc.fieldSeparator, "settings");
      jpp_reach("loaded");
      return;
    }
    case 1: mi.parts.clear(); break;
    case 2: d.resize(jpp_pick<int>("pieces", 0, (int)d.size() - 1)); break;
    case 3: {
      auto& x = d[jpp_pick<int>("numbers", 3, 6)];
      x = StringPiece{x.begin(), x.end() - jpp_pick<int>("cut", 1, 5)};
      break;
    }
    default: {
      int n = jpp_pick<int>("cut", 1, (int)jpp_param("cut", 60));
      jpp_assume(n <= (int)d[0].size());
      d[0] = StringPiece{d[0].begin(), d[0].end() - n};
    }
  }
  jpp_check(!f2.load(mi).isOk(), "incomplete models are refused");
  jpp_reach("refused");
}
