// a small analyzer for the demonstrations
#pragma once
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/dic/dic_entries.h"
#include "core/impl/feature_impl_types.h"
#include "core/impl/feature_impl_ngram_partial.h"
#include "core/impl/feature_impl_combine.h"
#include "core/dic/dictionary.h"
#include "core/spec/spec_dsl.h"
#include "core/spec/spec_types.h"
using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::analysis;
typedef std::string Str;
inline StringPiece sp(const Str& s) { return StringPiece{s.data(), s.size()}; }
#define MUST(x) do { if (!(x)) { printf("failed: %s\n", #x); exit(1); } } while (0)
struct Demo {
  spec::AnalysisSpec spec;
  dic::DictionaryBuilder db;
  dic::DictionaryHolder dh;
  std::unique_ptr<CoreHolder> core;
  AnalyzerConfig cfg;
  std::unique_ptr<AnalyzerImpl> an;
  HashedFeaturePerceptron hfp;
  ScorerDef sd;
  std::vector<float> w;
  void build(std::function<void(spec::dsl::ModelSpecBuilder&)> fn, const Str& csv) {
    {
      spec::dsl::ModelSpecBuilder b;
      fn(b);
      MUST(b.build(&spec).isOk());
    }
    MUST(db.importSpec(&spec).isOk());
    MUST(db.importCsv("d", sp(csv)).isOk());
    MUST(dh.load(db.result()).isOk());
    core.reset(new CoreHolder{db.result().spec, dh});
    MUST(core->initialize(nullptr).isOk());
  }
  void weights(std::vector<float> v) {
    w = v;
    hfp.setWeightsTo(util::ArraySlice<float>{w.data(), w.size()});
    sd.feature = &hfp;
    sd.scoreWeights.assign(1, 1.0f);
  }
  AnalyzerImpl* make(int beam, int scorers = 1) {
    an.reset(new AnalyzerImpl{core.get(), ScoringConfig{beam, scorers}, cfg});
    return an.get();
  }
  bool run(const Str& text) {
    return an->resetForInput(sp(text)).isOk() && an->prepareNodeSeeds().isOk() && an->buildLattice().isOk() && an->bootstrapAnalysis().isOk() && an->computeScores(&sd).isOk();
  }
  // the words of the seeds as start-end:surface/pos
  std::multiset<Str> seeds(const char* surf, const char* pos) {
    std::multiset<Str> r;
    StringField fs, fp;
    MUST(an->output().stringField(StringPiece{surf, strlen(surf)}, &fs).isOk());
    MUST(an->output().stringField(StringPiece{pos, strlen(pos)}, &fp).isOk());
    NodeWalker n;
    for (auto& s : an->latticeBldr()->seeds()) {
      MUST(an->output().locate(s.entryPtr, &n));
      while (n.next()) r.insert(std::to_string(s.codepointStart) + "-" + std::to_string(s.codepointEnd) + ":" + fs[n].str() + "/" + fp[n].str());
    }
    return r;
  }
};
