// Generated static code against the dynamic implementation.
#include "ngrams.h"
#include "core/analysis/score_processor.h"

jumanpp::core::features::StaticFeatureFactory* cg_factory(int i);

namespace {
struct CgEnv : Env {
  std::unique_ptr<CoreHolder> core2;
  std::unique_ptr<AnalyzerOpen> an2;
  features::StaticFeatureFactory* sff;
  void make(int which) {
    build([&](spec::dsl::ModelSpecBuilder& b) { cg::cgSpec(which, b); }, cg::cgCsv(which));
    sff = cg_factory(which);
    jpp_check(sff != nullptr, "the generated code compiles");
    core2.reset(new CoreHolder{db.result().spec, dh});
    jpp_check(core2->initialize(sff).isOk(), "the generated code is used by its model");
    jpp_check(core2->features().patternStatic != nullptr && core2->features().ngramStatic != nullptr && core2->features().ngramPartialStatic != nullptr, "the generated code is used by its model");
  }
};
}  // namespace

// n-gram scores of any patterns
HARNESS(static_ngrams) {
  static CgEnv* ep;
  ep = new CgEnv;
  auto& e = *ep;
  e.make(jpp_pick<int>("spec", (int)jpp_param("lo", 0), (int)jpp_param("hi", cg::NSPECS - 1)));
  Full f;
  for (auto& d : e.spec.features.ngram) f.add(d);
  auto p = e.core2->features().ngramPartial;
  jpp_check((int)p->numUnigrams() == f.nu && (int)p->numBigrams() == f.nb && (int)p->numTrigrams() == f.nt, "as many features as the model has");
  Weights w((int)jpp_param("nw", 4), 3);
  util::memory::Manager mm{1 << 16};
  auto pool = mm.core();
  int n0 = (int)jpp_param("n0", 2), n1 = jpp_pick<int>("n1", 1, (int)jpp_param("n1", 2)), n2 = (int)jpp_param("n2", 2);
  AnalysisRunStats st;
  st.maxStarts = (u32)n0 + 1;
  st.maxEnds = (u32)std::max(n1, n2);
  FeatureBuffer fb;
  p->allocateBuffers(&fb, st, pool.get());
  util::fill(fb.valueBuffer1, 0);  // as the caller does
  util::fill(fb.valueBuffer2, 0);
  int pats = (int)e.spec.features.pattern.size();
  scorePlace(p, f, w, &fb, n0, n1, n2, pats);
  // all features of one position
  Rows t("t", 3, pats);
  std::vector<u32> have(f.order.size(), 0);
  util::Sliceable<u32> res{util::MutableArraySlice<u32>{have.data(), have.size()}, have.size(), 1};
  util::MutableArraySlice<u64> m0{t.v.data(), (size_t)pats};
  fimpl::NgramFeatureData nfd{res, t.row(2), t.row(1), util::Sliceable<u64>{m0, (size_t)pats, 1}};
  e.core2->features().ngram->applyBatch(&nfd);
  f.get(t.row(2), t.row(1), t.row(0));
  for (size_t i = 0; i < have.size(); ++i) jpp_check(have[i] == f.buf[i], "every n-gram feature has the same value");
  jpp_reach("end");
}

// whole analyses
HARNESS(static_analysis) {
  static CgEnv* ep;
  ep = new CgEnv;
  auto& e = *ep;
  int which = jpp_pick<int>("spec", (int)jpp_param("lo", 0), (int)jpp_param("hi", cg::NSPECS - 1));
  e.make(which);
  static const char* TEXTS[] = {"abc", "ab", "aab", "\xE3\x81\x82\xE3\x82\xA2" "a", "\xE3\x82\xA2\xE3\x82\xA4" "b"};
  Str text = TEXTS[jpp_pick<int>("text", 0, (int)jpp_param("texts", 5) - 1)];
  if (jpp_param("gbeam", 0)) {
    e.cfg.globalBeamSize = (int)jpp_param("gbeam", 0);
    e.cfg.rightGbeamCheck = (int)jpp_param("check", 0);
    e.cfg.rightGbeamSize = (int)jpp_param("right", 0);
  }
  auto a1 = e.analyzer((int)jpp_param("beam", 2));
  e.an2.reset(new AnalyzerOpen{e.core2.get(), ScoringConfig{(i32)jpp_param("beam", 2), 1}, e.cfg});
  auto a2 = e.an2.get();
  Weights w((int)jpp_param("nw", 4), 3);
  ScorerDef sd;
  sd.feature = &w.hfp;
  sd.scoreWeights.assign(1, 1.0f);
  bool ok[2];
  int i = 0;
  for (auto an : {a1, a2}) {
    jpp_check(an->initScorers(sd).isOk(), "scorers");
    jpp_check(an->resetForInput(sp(text)).isOk(), "input");
    ok[i] = an->prepareNodeSeeds().isOk();
    if (ok[i]) {
      jpp_check(an->buildLattice().isOk(), "lattice");
      jpp_check(an->bootstrapAnalysis().isOk(), "bootstrap");
      jpp_check(an->computeScores(&sd).isOk(), "scores");
    }
    ++i;
  }
  jpp_check(ok[0] == ok[1], "both or none");
  if (!ok[0]) return;
  auto l1 = a1->lattice(), l2 = a2->lattice();
  jpp_check(l1->createdBoundaryCount() == l2->createdBoundaryCount(), "same places");
  for (u32 b = 2; b < l1->createdBoundaryCount(); ++b) {
    auto s1 = l1->boundary(b)->starts(), s2 = l2->boundary(b)->starts();
    jpp_check(s1->numEntries() == s2->numEntries(), "same words");
    for (u32 n = 0; n < s1->numEntries(); ++n) {
      auto r1 = s1->beamData().row(n), r2 = s2->beamData().row(n);
      auto p1 = s1->patternFeatureData().row(n), p2 = s2->patternFeatureData().row(n);
      for (auto& pd : e.spec.features.pattern)
        if (pd.usage != 1 && b + 1 < l1->createdBoundaryCount()) jpp_check(p1.at(pd.index) == p2.at(pd.index), "every pattern has the same value");
      for (size_t k = 0; k < r1.size(); ++k) {
        bool f1 = EntryBeam::isFake(r1.at(k)), f2 = EntryBeam::isFake(r2.at(k));
        jpp_check(f1 == f2, "same number of ways");
        if (f1) break;
        auto &x = r1.at(k), &y = r2.at(k);
        jpp_check(x.totalScore == y.totalScore, "same score");
        jpp_check(x.ptr.left == y.ptr.left && x.ptr.beam == y.ptr.beam && x.ptr.right == y.ptr.right, "same way");
      }
    }
  }
  jpp_reach("end");
}
