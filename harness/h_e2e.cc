#include "jpp.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "core/analysis/analysis_result.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/spec/spec_dsl.h"
#include "core/spec/spec_types.h"
using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::analysis;
HARNESS(e2e) {
  spec::AnalysisSpec sp;
  {
    spec::dsl::ModelSpecBuilder b;
    auto& a = b.field(1, "a").strings().trieIndex();
    auto& fb = b.field(2, "b").strings();
    b.unk("chars", 1).chunking(chars::CharacterClass::KATAKANA).outputTo({a});
    b.unigram({a, fb});
    b.bigram({a},{fb});
    jpp_check(b.build(&sp).isOk(), "spec");
  }
  jpp_print("spec built", 1);
  dic::DictionaryBuilder db;
  jpp_check(db.importSpec(&sp).isOk(), "importSpec");
  jpp_check(db.importCsv("d", "UNK,x\nab,y\na,z\nb,y\nc,x\n").isOk(), "csv");
  jpp_print("csv", 1);
  dic::DictionaryHolder dh;
  jpp_check(dh.load(db.result()).isOk(), "load");
  CoreHolder core{db.result().spec, dh};
  jpp_check(core.initialize(nullptr).isOk(), "init");
  jpp_print("core", 1);
  AnalyzerConfig ac;
  ac.pageSize = 4096;
  AnalyzerImpl an{&core, ScoringConfig{2, 1}, ac};
  static float w[] = {0.101f, 0.102f, 0.103f, 0.104f};
  HashedFeaturePerceptron hfp{w};
  ScorerDef sd;
  sd.scoreWeights.push_back(1.0f);
  sd.feature = &hfp;
  jpp_check(an.initScorers(sd).isOk(), "scorers");
  jpp_print("scorers", 1);
  char buf[4];
  size_t n = 2;
  for (size_t i = 0; i < n; ++i) buf[i] = 'a' + jpp_range<int>("ch", 0, 3);
  jpp_check(an.resetForInput(StringPiece{buf, n}).isOk(), "reset");
  Status s = an.prepareNodeSeeds();
  if (!s) { jpp_reach("nolattice"); return; }
  s = an.buildLattice();
  if (!s) { jpp_reach("nolattice2"); return; }
  jpp_check(an.bootstrapAnalysis().isOk(), "bootstrap");
  jpp_check(an.computeScores(&sd).isOk(), "scores");
  AnalysisPath p;
  jpp_check(p.fillIn(an.lattice()).isOk(), "fill");
  p.moveToChunk(0); jpp_observe(p.totalNodesInChunk());
  jpp_reach("end");
}
