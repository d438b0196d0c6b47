// Training with partial annotations, the order of training, model updates.
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include "pex.h"
#include "core/training/training_env.h"
#include "core/impl/feature_computer.h"
#include "core/training/partial_trainer.h"
using namespace jumanpp::core::training;

namespace {
// several words at every place
const char* const WORDS =
    "z1,あ,N,y\n"
    "z1,あ,V,x\n"
    "z2,い,P,x\n"
    "z1,い,N,x\n"
    "z1,ああ,N,x\n"
    "z2,ああ,V,x\n"
    "z1,あい,V,y\n"
    "z1,あい,N,y\n"
    "z1,いあ,N,x\n";
typedef std::vector<LatticeNodePtr> Nodes;
struct PartialEnv : Env {
  std::vector<float> w;
  std::unique_ptr<HashedFeaturePerceptron> hfp;
  ScorerDef sd;
  Index ix;
  u32 mask = 63;
  void make() {
    build(pexSpec, WORDS);
    jpp_check(ix.tio.initialize(*core).isOk(), "training fields");
  }
  void scorer(int nw, int lim) {
    std::vector<float> sym;
    for (int i = 0; i < nw; ++i) sym.push_back((float)jpp_range<int>("w", -lim, lim));
    for (u32 i = 0; i <= mask; ++i) w.push_back(sym[(i * 7 >> 2) % nw]);
    hfp.reset(new HashedFeaturePerceptron{util::ArraySlice<float>{w.data(), w.size()}});
    sd.feature = hfp.get();
    sd.scoreWeights.assign(1, 1.0f);
  }
  std::set<u32> ngrams(LatticeNodePtr t2, LatticeNodePtr t1, LatticeNodePtr t0) {
    std::vector<u32> r(core->spec().features.ngram.size());
    features::NgramFeaturesComputer c{an->lattice(), core->features()};
    features::NgramFeatureRef ref{t2, t1, t0};
    c.calculateNgramFeatures(ref, &r);
    std::set<u32> s;
    for (u32 f : r) s.insert(f & mask);
    return s;
  }
};
}  // namespace

// what is changed by an annotation which the best analysis contradicts
HARNESS(partial_update) {
  PartialEnv e;
  e.make();
  Annot a;
  Str data;
  matchExample(&a, &data, (int)jpp_param("lines", 2), (int)jpp_param("chars", 2));
  data += "\n";
  PartialExampleReader rdr;
  jpp_check(rdr.initialize(&e.ix.tio).isOk() && rdr.setData(sp(data)).isOk(), "reader");
  e.scorer((int)jpp_param("nw", 2), (int)jpp_param("lim", 1));
  int beam = jpp_pick<int>("beam", 1, (int)jpp_param("beam", 2));
  auto an = e.analyzer(beam);
  jpp_check(an->initScorers(e.sd).isOk(), "scorers");
  PartialTrainer t{an, e.mask};
  bool eof;
  jpp_check(rdr.readExample(&t.example(), &eof).isOk(), "example");
  for (int round = 0; round < (int)jpp_param("rounds", 1); ++round) {
  jpp_check(t.prepare().isOk(), "prepared");
  jpp_check(t.compute(&e.sd).isOk(), "computed");
  auto l = an->lattice();
  int len = (int)a.text.size(), eos = len + 2;
  auto viol = [&](LatticeNodePtr p) -> int {
    if (p.boundary < 2 || p.boundary >= eos) return 0;
    auto r = l->boundary(p.boundary)->starts();
    int s = p.boundary - 2;
    return violates(a, &e.ix, s, s + r->nodeInfo().at(p.position).numCodepoints(), r->entryData().row(p.position));
  };
  const LatticeNodePtr BOS0{0, 0}, BOS1{1, 0};
  // the best analysis
  Nodes path{BOS0, BOS1};
  {
    Nodes rev;
    rev.push_back(LatticeNodePtr{(u16)eos, 0});
    if (len > 0)
      for (auto p = l->boundary(eos)->starts()->beamData().at(0).ptr.previous; p->boundary >= 2; p = p->previous) rev.push_back(p->latticeNodePtr());
    path.insert(path.end(), rev.rbegin(), rev.rend());
  }
  std::set<u32> pathF, goodF;
  int contradict = 0, words = (int)path.size() - 3, lastBad = -1;
  for (size_t i = 2; i < path.size(); ++i) {
    auto f = e.ngrams(path[i - 2], path[i - 1], path[i]);
    pathF.insert(f.begin(), f.end());
    if (viol(path[i])) { ++contradict; lastBad = (int)i; }
  }
  // all three words in a row which agree with the annotation
  auto before = [&](LatticeNodePtr p) {
    Nodes r;
    if (p.boundary == 1) r.push_back(BOS0);
    if (p.boundary == 2) r.push_back(BOS1);
    if (p.boundary > 2)
      for (auto& q : l->boundary(p.boundary)->ends()->nodePtrs()) r.push_back(q);
    return r;
  };
  for (int b = 2; b <= eos && len > 0; ++b) {
    auto r = l->boundary(b)->starts();
    for (int p = 0; p < r->numEntries(); ++p) {
      LatticeNodePtr t0{(u16)b, (u16)p};
      if (viol(t0)) continue;
      for (auto t1 : before(t0)) {
        if (viol(t1)) continue;
        for (auto t2 : before(t1)) {
          if (viol(t2)) continue;
          auto f = e.ngrams(t2, t1, t0);
          goodF.insert(f.begin(), f.end());
        }
      }
    }
  }
  float sum = 0;
  std::map<u32, float> got;
  bool first = true;
  u32 prev = 0;
  for (auto& f : t.featureDiff()) {
    jpp_check(f.feature <= e.mask, "feature is in the table of weights");
    jpp_check(first || f.feature > prev, "every feature once");
    first = false;
    prev = f.feature;
    got[f.feature] = f.score;
    if (f.score < -0.001f) jpp_check(pathF.count(f.feature) != 0, "only features of the best analysis are lowered");
    if (f.score > 0.001f) jpp_check(goodF.count(f.feature) != 0, "only features of agreeing words are raised");
    sum += f.score;
  }
  jpp_check(sum < 0.01f, "not more is raised than lowered");
  if (sum < -0.01f) {
    bool raised = false;
    for (auto& kv : got) raised |= kv.second > 0.001f;
    jpp_reach("only lowered");
    jpp_check(!raised || contradict > 1, "raising and lowering are balanced");
  }
  if (contradict == 0) {
    jpp_check(got.empty() && t.loss() == 0, "nothing to learn when the best analysis agrees");
    jpp_reach("agrees");
    continue;
  }
  float loss = 0;
  for (int i = 0; i < contradict; ++i) loss += 1.0f / words;
  jpp_check(t.loss() == loss || (got.size() <= 1 && t.loss() == 0), "loss is the share of contradicting words");
  jpp_reach(got.size() > 1 ? "contradicts" : "no other");
  // hypotheses in the beams which agree and stand at the place of the only contradiction
  auto isIn = [&](const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x - 2) != v.end(); };
  // or two words on both sides of a place where no boundary is possible
  bool pair = contradict == 2 && viol(path[lastBad - 1]) && isIn(a.forbid, path[lastBad].boundary) && !isIn(a.forbid, path[lastBad - 1].boundary);
  if (contradict == 1 || pair) {
    auto bad = path[lastBad];
    auto info = l->boundary(bad.boundary)->starts()->nodeInfo().at(bad.position);
    int s = bad.boundary, en = s + info.numCodepoints();
    struct Hyp { Nodes n; int start, end; };
    std::vector<Hyp> hyps;
    for (int b = 2; b < eos; ++b) {
      auto r = l->boundary(b)->starts();
      for (int p = 0; p < r->numEntries(); ++p)
        for (auto& be : r->beamData().row(p)) {
          if (EntryBeam::isFake(be)) break;
          auto& t0 = be.ptr;
          Nodes n{t0.previous->previous->latticeNodePtr(), t0.previous->latticeNodePtr(), t0.latticeNodePtr()};
          if (viol(n[0]) || viol(n[1]) || viol(n[2])) continue;
          hyps.push_back({n, b, b + r->nodeInfo().at(p).numCodepoints()});
        }
    }
    std::vector<Hyp> good;
    const char* kind;
    int span = isIn(a.forbid, s) ? s : isIn(a.forbid, en) ? en : 0;
    int inner = 0;
    for (int x = en - 1; x > s; --x)
      if (isIn(a.force, x)) inner = x;
    if (span) {
      kind = "across";
      for (auto& h : hyps)
        if (h.start < span && h.end > span) good.push_back(h);
    } else if (inner) {
      kind = "boundary";
      for (auto& h : hyps)
        if (h.end == inner) good.push_back(h);
    } else {
      kind = "tag";
      for (auto& h : hyps)
        if (h.start == s) good.push_back(h);
    }
    if (!good.empty() && (int)good.size() <= beam) {
      jpp_reach(kind);
      for (auto& h : good)
        for (u32 f : e.ngrams(h.n[0], h.n[1], h.n[2]))
          if (!pathF.count(f)) jpp_check(got.count(f) && got[f] > 0, "features of agreeing words are raised");
      for (int i = pair ? lastBad - 1 : lastBad; i <= lastBad; ++i)
      for (u32 f : e.ngrams(path[i - 2], path[i - 1], path[i]))
        if (!goodF.count(f)) jpp_check(got.count(f) && got[f] < 0, "features of the contradicting word are lowered");
    }
  }
  }
}

namespace {
// access to private members
template <typename Tag, typename Tag::type M>
struct Open {
  friend typename Tag::type ptr(Tag) { return M; }
};
#define OPEN(NAME, CLS, TYPE, MEMBER)                     \
  struct NAME {                                           \
    typedef TYPE CLS::*type;                              \
    friend type ptr(NAME);                                \
  };                                                      \
  template struct Open<NAME, &CLS::MEMBER>;               \
  TYPE& in(NAME, CLS& x) { return x.*ptr(NAME()); }
typedef util::bounded_queue<ITrainer*> TQueue;
typedef util::bounded_queue<TrainingExecutionResult> RQueue;
typedef const ScorerDef* ScorerPtr;
typedef TQueue* TQueuePtr;
typedef RQueue* RQueuePtr;
OPEN(Io, TrainingEnv, TrainFieldsIndex, trainingIo_)
OPEN(Full, TrainingEnv, FullExampleReader, fullReader_)
OPEN(Part, TrainingEnv, PartialExampleReader, partReader_)
OPEN(Batch, TrainingEnv, TrainerBatch, trainers_)
OPEN(Scw, TrainingEnv, SoftConfidenceWeighted, scw_)
OPEN(Exec, TrainingEnv, TrainingExecutor, executor_)
OPEN(BeamCfg, TrainingEnv, GlobalBeamTrainConfig, globalBeamCfg_)
OPEN(In, TrainingExecutor, TQueue, trainers_)
OPEN(Out, TrainingExecutor, RQueue, results_)
OPEN(ThScore, TrainingExecutorThread, ScorerPtr, scoreConf_)
OPEN(ThIn, TrainingExecutorThread, TQueuePtr, trainers_)
OPEN(ThOut, TrainingExecutorThread, RQueuePtr, results_)
struct Run {
  typedef void (*type)(TrainingExecutorThread*);
  friend type ptr(Run);
};
template struct Open<Run, &TrainingExecutorThread::runMain>;
// the other threads of the trainer run while the main one waits for results
struct Sched {
  TrainingEnv* env = nullptr;
  size_t threads = 1;
  std::vector<ITrainer*> running;
  struct Done { Str id; float loss; u32 beam; };
  std::vector<Done> done;  // in the order of their results
  SoftConfidenceWeighted* ref = nullptr;
  void step() {
    auto& ex = in(Exec(), *env);
    ITrainer* t = nullptr;
    while (running.size() < threads && in(In(), ex).recieve(&t)) {
      jpp_check(t != nullptr, "an example is trained");
      running.push_back(t);
    }
    jpp_check(!running.empty(), "a result is only awaited when there are examples in work");
    size_t k = running.size() > 1 ? (size_t)jpp_pick<int>("next", 0, (int)running.size() - 1) : 0;
    t = running[k];
    running.erase(running.begin() + k);
    // a thread which is given this example and then has to end
    util::bounded_queue<ITrainer*> one;
    one.initialize(2);
    ITrainer* end = nullptr;
    ITrainer* copy = t;
    one.offer(std::move(copy));
    one.offer(std::move(end));
    static_assert(sizeof(std::thread) <= 8, "size");
    void* mem = ::operator new(sizeof(TrainingExecutorThread));
    memset(mem, 0, sizeof(TrainingExecutorThread));
    auto th = static_cast<TrainingExecutorThread*>(mem);
    in(ThScore(), *th) = env->scorerDef();
    in(ThIn(), *th) = &one;
    in(ThOut(), *th) = &in(Out(), ex);
    ptr(Run())(th);
    ::operator delete(mem);
    auto c = t->exampleInfo().comment.str();
    jpp_check(c.size() >= 2, "the example has its comment");
    done.push_back({c.substr(c.size() - 2), t->loss(), t->lattice()->config().globalBeamSize});
    ref->update(t->loss(), t->featureDiff());
  }
};
Sched* sched;
}  // namespace
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) {
  l.unlock();
  jpp_check(sched != nullptr, "nobody waits");
  sched->step();
  l.lock();
}


// every example is used once in every pass, in whatever order the threads finish
HARNESS(epochs) {
  PartialEnv e;
  e.make();
  TrainingArguments args;
  args.batchSize = (u32)jpp_pick<int>("batch", 1, (int)jpp_param("batch", 2));
  args.numThreads = (u32)jpp_pick<int>("threads", 1, (int)jpp_param("threads", 2));
  args.batchMaxIterations = (u32)jpp_pick<int>("iterations", 1, 2);
  args.batchLossEpsilon = jpp_pick<int>("epsilon", 0, 1) ? 1000.f : 0.f;
  args.trainingConfig.featureNumberExponent = 4;
  args.trainingConfig.beamSize = 2;
  args.trainingConfig.inputFormat = InputFormat::Csv;
  args.trainingConfig.randomSeed = 12345;
  Str data, pdata;
  int n = jpp_pick<int>("full", 0, (int)jpp_param("full", 3)), np = jpp_pick<int>("partial", 0, (int)jpp_param("partial", 1));
  const char* ex[] = {"# f0\nN,x,ああ\n\n", "# f1\nP,x,い\nN,y,あ\n\n", "# f2\nV,x,う\n\n", "# f3\nN,x,い\n\n"};
  const char* pex[] = {"# p0\n\tああ\tp:V\n\n", "# p1\nあ\nい\n\n"};
  for (int i = 0; i < n; ++i) data += ex[i];
  for (int i = 0; i < np; ++i) pdata += pex[i];
  // the last ones can be ended by the end of the data
  if (np && jpp_pick<int>("open", 0, 1)) pdata.pop_back();
  if (n && jpp_pick<int>("open", 0, 1)) data.pop_back();
  AnalyzerConfig acfg;
  acfg.pageSize = 8192;
  acfg.storeAllPatterns = true;
  bool gb = jpp_param("beams", 0) != 0;
  if (gb) {
    args.globalBeam.minLeftBeam = 2;
    args.globalBeam.maxLeftBeam = 4;
    args.globalBeam.minRightBeam = 1;
    args.globalBeam.maxRightBeam = 2;
    args.globalBeam.minRightCheck = 1;
    args.globalBeam.maxRightCheck = 3;
    args.globalBeam.fullFirstIter = jpp_pick<int>("first", 0, 1);
    jpp_check(args.globalBeam.validate().isOk(), "settings");
  }
  TrainingEnv env{args, nullptr};
  SoftConfidenceWeighted ref{args.trainingConfig};
  TrainerFullConfig conf{&acfg, e.core.get(), &e.core->spec().training, &args.trainingConfig};
  jpp_check(in(Io(), env).initialize(*e.core).isOk(), "training fields");
  in(Full(), env).setTrainingIo(&in(Io(), env));
  jpp_check(env.loadInputData(sp(data)).isOk(), "data");
  jpp_check(in(Batch(), env).initialize(conf, env.scorerDef(), args.batchSize).isOk(), "trainers");
  jpp_check(in(Part(), env).initialize(&in(Io(), env)).isOk() && in(Part(), env).setData(sp(pdata)).isOk(), "partial data");
  jpp_check(in(Batch(), env).readPartialExamples(&in(Part(), env)).isOk(), "partial examples");
  in(In(), in(Exec(), env)).initialize(args.numThreads * 2);
  in(Out(), in(Exec(), env)).initialize(args.numThreads * 2);
  Sched s;
  s.env = &env;
  s.threads = args.numThreads;
  s.ref = &ref;
  sched = &s;
  int iters = args.batchLossEpsilon > 0 ? 1 : (int)args.batchMaxIterations;
  for (int epoch = 0; epoch < (int)jpp_param("epochs", 2); ++epoch) {
    if (epoch > 0) in(Full(), env).resetInput(sp(data));
    u32 left = 0;
    if (gb) {
      env.changeGlobalBeam(epoch == 0 ? 0.f : epoch == 1 ? 1.f : 0.3f);
      auto& g = env.globalBeam();
      left = (u32)g.leftBeam;
      jpp_check(g.leftBeam >= 2 && g.leftBeam <= 4 && g.rightBeam >= 1 && g.rightBeam <= 2 && g.rightCheck >= 1 && g.rightCheck <= 3, "beams are between their limits");
      if (epoch == 1) jpp_check(g.leftBeam == 2 && g.rightBeam == 1 && g.rightCheck == 1, "beams end with the smallest");
    }
    s.done.clear();
    jpp_check(env.trainOneEpoch().isOk(), "epoch");
    if (epoch == 0) ref.substractInitValues();
    jpp_check(s.running.empty() && in(Exec(), env).nowReady() == 0, "nothing is in work after the epoch");
    size_t at = 0;
    double total = 0;
    int size = (int)args.batchSize;
    for (int from = 0; from < n || at < s.done.size(); from += size) {
      Strs want;
      for (int i = from; i < from + size && i < n; ++i) want.push_back("f" + std::to_string(i));
      if (epoch > 0)
        for (int i = 0; i < np; ++i) want.push_back("p" + std::to_string(i));
      std::sort(want.begin(), want.end());
      jpp_check(!want.empty(), "only given examples are trained");
      double loss = 0;
      for (int it = 0; it < iters; ++it) {
        jpp_check(s.done.size() - at >= want.size(), "every example of the batch is trained");
        Strs got;
        loss = 0;
        for (size_t k = 0; k < want.size(); ++k) {
          auto& d = s.done[at++];
          got.push_back(d.id);
          loss += d.loss;
          if (gb) jpp_check(d.beam == (args.globalBeam.fullFirstIter && it == 0 ? 0 : left), "size of the global beam");
        }
        std::sort(got.begin(), got.end());
        jpp_check(got == want, "every example of the batch is trained once");
      }
      total += loss;
      jpp_check(from <= n, "every example is in one batch");
    }
    jpp_check(env.epochLoss() == total, "loss of the epoch");
    model::ModelInfo m1, m2;
    env.exportScwParams(&m1, cs("c"));
    ref.exportModel(&m2, cs("c"));
    jpp_check(m1.parts.size() == 1 && m1.parts[0].kind == model::ModelPartKind::Perceprton && m1.parts[0].comment == "c" && m1.parts[0].data.size() == 2, "model");
    jpp_check(m1.parts[0].data[1].size() == 16 * sizeof(float), "size of the model");
    jpp_check(m1.parts[0].data[1] == m2.parts[0].data[1], "every result has changed the weights once");
    jpp_reach(epoch ? "later" : "first");
  }
  sched = nullptr;
}

namespace {
std::vector<float> weightsOf(SoftConfidenceWeighted& w) {
  model::ModelInfo mi;
  w.exportModel(&mi, cs("c"));
  auto d = mi.parts[0].data[1];
  std::vector<float> r(d.size() / sizeof(float));
  memcpy(r.data(), d.data(), d.size());
  return r;
}
}  // namespace

// one example after another changes the weights
HARNESS(scw_update) {
  TrainingConfig conf;
  conf.featureNumberExponent = 3;
  conf.randomSeed = 7;
  SoftConfidenceWeighted w{conf};
  float step[8];
  bool seen[8] = {};
  for (int round = 0; round < (int)jpp_param("rounds", 2); ++round) {
    std::vector<ScoredFeature> fs;
    int from = 0;
    float score[8] = {};
    int n = jpp_pick<int>("features", 0, 2);
    for (int i = 0; i < n; ++i) {
      const int ids[] = {0, 3, 7};
      int k = jpp_pick<int>("feature", from, n == 2 ? 1 + i : 2), f = ids[k];
      const float vals[] = {1, -1, 0.5f, -2};
      score[f] = vals[jpp_pick<int>("score", 0, 3)];
      fs.push_back({(u32)f, score[f]});
      from = k + 1;
    }
    const float losses[] = {0, 0.000009f, 0.25f, 1};
    float loss = losses[jpp_pick<int>("loss", 0, 3)];
    auto before = weightsOf(w);
    w.update(loss, fs);
    auto after = weightsOf(w);
    jpp_check(before.size() == 8 && after.size() == 8, "number of weights");
    for (int i = 0; i < 8; ++i) {
      float d = after[i] - before[i];
      if (loss < 1e-5f || score[i] == 0) {
        jpp_check(after[i] == before[i], "other weights do not change");
        continue;
      }
      jpp_check(std::isfinite(after[i]), "weights are finite");
      jpp_check(score[i] > 0 ? d >= 0 : d <= 0, "weights change in the direction of the update");
      if (!seen[i]) {
        seen[i] = true;
        step[i] = d / score[i] / loss;
        jpp_check(step[i] != 0, "weights change");
        jpp_reach("change");
      }
    }
    // features which are equally certain change in proportion to the update
    if (round == 0 && n == 2 && loss > 1e-5f) {
      auto& a = fs[0];
      auto& b = fs[1];
      float da = (after[a.feature] - before[a.feature]) / a.score, db = (after[b.feature] - before[b.feature]) / b.score;
      jpp_check(std::abs(da - db) <= 1e-4f * std::abs(da), "weights change in proportion to the update");
    }
    // the model which is trained is the one which scores
    u32 rows[8];
    for (u32 i = 0; i < 8; ++i) rows[i] = i + (i % 2 ? 8 : 0);
    float out[8];
    util::MutableArraySlice<float> res{out, 8};
    util::Sliceable<u32> feats{util::MutableArraySlice<u32>{rows, 8}, 1, 8};
    w.scorers()->feature->compute(res, feats);
    for (int i = 0; i < 8; ++i) jpp_check(out[i] == after[i], "the weights are those which are used");
    jpp_check(w.scorers()->scoreWeights.size() == 1 && w.scorers()->scoreWeights[0] == 1.0f, "weight of the score");
  }
}

// weights which were never changed are removed after the first pass
HARNESS(scw_zero) {
  TrainingConfig conf;
  conf.featureNumberExponent = 2;
  conf.randomSeed = 7;
  SoftConfidenceWeighted w{conf};
  for (float x : weightsOf(w)) jpp_check(x >= -0.5f && x <= 0.5f, "weights begin near zero");
  float v = jpp_any<float>("v");
  jpp_assume(v == v);
  bool fresh = jpp_pick<int>("fresh", 0, 1);
  if (!fresh) w.setAllWeights(v);
  u64 k = w.substractInitValues();
  bool small = fresh || std::abs(v) < 0.5f;
  bool large = !fresh && std::abs(v) > 0.506f;
  if (small) jpp_check(k == 4, "small weights are removed");
  if (large) jpp_check(k == 0, "large weights are kept");
  for (float x : weightsOf(w)) {
    if (small) jpp_check(x == 0, "small weights are removed");
    if (large) jpp_check(x == v, "large weights are kept");
  }
  jpp_reach(small ? "small" : large ? "large" : "between");
}
