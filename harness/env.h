// A small analyzer environment shared by the harnesses.
#pragma once
#include "jpp.h"
#include <string.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "core/analysis/score_processor.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/dic/dictionary.h"
#include "core/spec/spec_dsl.h"
#include "core/spec/spec_types.h"
#include "util/characters.h"
using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::analysis;
typedef std::string Str;
typedef std::vector<Str> Strs;

inline StringPiece sp(const Str& s) { return StringPiece{s.data(), s.size()}; }
#define JPP_ENV_CS
inline jumanpp::StringPiece cs(const char* s) { return jumanpp::StringPiece{s, strlen(s)}; }

class AnalyzerOpen : public AnalyzerImpl {
 public:
  using AnalyzerImpl::AnalyzerImpl;
  LatticeBuilder& bldr() { return latticeBldr_; }
  ScoreProcessor* sproc() { return sproc_; }
  AnalysisInput& in() { return input_; }
};

struct Env {
  spec::AnalysisSpec spec;
  dic::DictionaryBuilder db;
  dic::DictionaryHolder dh;
  std::unique_ptr<CoreHolder> core;
  std::unique_ptr<AnalyzerOpen> an;
  AnalyzerConfig cfg;
  Env() { cfg.pageSize = 8192; }

  template <typename Fn>
  void build(Fn fn, const Str& csv) {
    {
      spec::dsl::ModelSpecBuilder b;
      fn(b);
      jpp_check(b.build(&spec).isOk(), "spec builds");
    }
    jpp_check(db.importSpec(&spec).isOk(), "spec imports");
    jpp_check(db.importCsv("d", sp(csv)).isOk(), "dictionary imports");
    jpp_check(dh.load(db.result()).isOk(), "dictionary loads");
    core.reset(new CoreHolder{db.result().spec, dh});
    jpp_check(core->initialize(nullptr).isOk(), "features initialize");
  }
  AnalyzerOpen* analyzer(int beam, int scorers = 1) {
    an.reset(new AnalyzerOpen{core.get(), ScoringConfig{beam, scorers}, cfg});
    return an.get();
  }
};

// UTF-8 length of the character starting with this byte
inline int ulen(unsigned char c) { return c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; }
inline Strs chars_of(const Str& s) {
  Strs r;
  for (size_t i = 0; i < s.size(); i += ulen((unsigned char)s[i])) r.push_back(s.substr(i, ulen((unsigned char)s[i])));
  return r;
}
inline Str join(const Strs& c, int from, int to) {
  to = std::min<int>(to, c.size());
  Str r;
  for (int i = from; i < to; ++i) r += c[i];
  return r;
}

// any text of up to maxLen characters; the kinds are the allowed UTF-8 lengths
inline Strs anyText(int maxLen, int minLen, uint64_t kinds) {
  int n = jpp_pick<int>("len", minLen, maxLen);
  Strs t;
  int ks[4], nk = 0;
  for (int k = 1; k <= 4; ++k)
    if (kinds >> k & 1) ks[nk++] = k;
  for (int i = 0; i < n; ++i) {
    int k = nk == 1 ? ks[0] : ks[jpp_pick<int>("kind", 0, nk - 1)];
    Str c;
    switch (k) {
      case 1: c.push_back((char)jpp_range<unsigned char>("b0", 0, 0x7f)); break;
      case 2: c.push_back((char)jpp_range<unsigned char>("b0", 0xC2, 0xDF)); break;
      case 3: c.push_back((char)jpp_range<unsigned char>("b0", 0xE1, 0xEF)); break;
      default: c.push_back((char)jpp_range<unsigned char>("b0", 0xF1, 0xF3));
    }
    for (int j = 1; j < k; ++j) c.push_back((char)jpp_range<unsigned char>("b", 0x80, 0xBF));
    t.push_back(c);
  }
  return t;
}
