// n-gram features computed step by step and all at once
#pragma once
#include "env.h"
#include "cgspecs.h"
#include "core/features_api.h"
#include "core/impl/perceptron_io.h"
#include "util/serialization.h"
#include "core/impl/feature_impl_combine.h"
#include "core/impl/feature_impl_ngram_partial.h"
#include "core/impl/feature_impl_hasher.h"
#include "core/impl/feature_impl_prim.h"
#include "core/impl/feature_impl_types.h"
#include "util/memory.hpp"
namespace fimpl = jumanpp::core::features::impl;
using jumanpp::core::features::PartialNgramFeatureApply;
using jumanpp::core::features::FeatureBuffer;
using jumanpp::core::features::AnalysisRunStats;

namespace {
typedef std::vector<u64> Pats;

// patterns of the nodes of one place
struct Rows {
  std::vector<u64> v;
  int n, w;
  Rows(const char* name, int n, int w) : v(n * w), n(n), w(w) {
    for (auto& x : v) x = jpp_any<u64>(name);
  }
  util::Sliceable<u64> all() { return util::Sliceable<u64>{util::MutableArraySlice<u64>{v.data(), v.size()}, (size_t)w, (size_t)n}; }
  util::ArraySlice<u64> row(int i) { return util::ArraySlice<u64>{v.data() + i * w, (size_t)w}; }
};

struct Weights {
  std::vector<float> w;
  HashedFeaturePerceptron hfp;
  Weights(int n, int lim) : w(n) {
    for (auto& f : w) f = (float)jpp_range<int>("w", -lim, lim);
    hfp.setWeightsTo(util::ArraySlice<float>{w.data(), w.size()});
  }
  float at(u32 i) const { return w[i & (w.size() - 1)]; }
};

// the n-gram features computed all at once
struct Full {
  fimpl::NgramDynamicFeatureApply nd;
  int nu = 0, nb = 0, nt = 0;
  std::vector<int> order;
  std::vector<u32> buf;
  void add(const spec::NgramFeatureDescriptor& d) {
    jpp_check(nd.addChild(d).isOk(), "feature");
    order.push_back((int)d.references.size());
    ++(order.back() == 1 ? nu : order.back() == 2 ? nb : nt);
  }
  void get(util::ArraySlice<u64> t2, util::ArraySlice<u64> t1, util::ArraySlice<u64> t0) {
    buf.assign(nu + nb + nt, 0);
    util::Sliceable<u32> res{util::MutableArraySlice<u32>{buf.data(), buf.size()}, buf.size(), 1};
    util::MutableArraySlice<u64> m0{const_cast<u64*>(t0.data()), t0.size()};
    util::Sliceable<u64> s0{m0, t0.size(), 1};
    fimpl::NgramFeatureData nfd{res, t2, t1, s0};
    nd.applyBatch(&nfd);
  }
  float sum(const Weights& w, int o) const {
    float r = 0;
    for (size_t i = 0; i < order.size(); ++i)
      if (order[i] == o) r += w.at(buf[i]);
    return r;
  }
  float uni(const Weights& w) const { return sum(w, 1); }
  float bi(const Weights& w) const { return sum(w, 2); }
  float tri(const Weights& w) const { return sum(w, 3); }
};

// one place scored step by step and all at once
void scorePlace(PartialNgramFeatureApply* p, Full& f, Weights& w, FeatureBuffer* fb, int n0, int n1, int n2, int pats) {
  Rows t0("t0", n0, pats), t1("t1", n1, pats), t2("t2", n2, pats);
  std::vector<float> sc(std::max(n0, n2), 100.f);
  util::MutableArraySlice<float> res{sc.data(), (size_t)n0};
  auto fs = static_cast<FeatureScorer*>(&w.hfp);
  // the words themselves
  p->applyUni(fb, t0.all(), fs, res);
  for (int i = 0; i < n0; ++i) {
    f.get(t2.row(0), t1.row(0), t0.row(i));
    if (f.nu) jpp_check(sc[i] == f.uni(w), "the score of a word is the sum of its unigram weights");
    jpp_check(f.nu || sc[i] == 0 || sc[i] == 100.f, "no unigrams, no score");
  }
  // all words after one, after two
  p->applyBiStep1(fb, t0.all());
  p->applyTriStep1(fb, t0.all());
  for (int a = 0; a < n1; ++a) {
    std::vector<float> base(n0);
    for (int i = 0; i < n0; ++i) base[i] = sc[i] = (float)(i + 1);
    p->applyBiStep2(fb, t1.row(a), fs, res);
    for (int i = 0; i < n0; ++i) {
      f.get(t2.row(0), t1.row(a), t0.row(i));
      jpp_check(sc[i] == base[i] + f.bi(w), "the sum of the bigram weights is added");
      base[i] = sc[i];
    }
    p->applyTriStep2(fb, t1.row(a));
    for (int b = 0; b < n2; ++b) {
      for (int i = 0; i < n0; ++i) sc[i] = base[i];
      p->applyTriStep3(fb, t2.row(b), fs, res);
      for (int i = 0; i < n0; ++i) {
        f.get(t2.row(b), t1.row(a), t0.row(i));
        jpp_check(sc[i] == base[i] + f.tri(w), "the sum of the trigram weights is added");
      }
    }
  }
  // one word after all
  std::vector<u32> of(n2);
  for (auto& x : of) x = (u32)jpp_pick<int>("t1 of t2", 0, n1 - 1);
  for (int i = 0; i < n0; ++i) {
    sc.assign(sc.size(), 100.f);
    util::MutableArraySlice<float> out{sc.data(), (size_t)n2};
    p->applyBiTri(fb, (u32)i, t0.row(i), t1.all(), t2.all(), util::ArraySlice<u32>{of.data(), of.size()}, fs, out);
    for (int b = 0; b < n2; ++b) {
      f.get(t2.row(b), t1.row((int)of[b]), t0.row(i));
      jpp_check(sc[b] == f.bi(w) + f.tri(w), "the score of a word after two is the sum of the weights");
    }
  }
}
}  // namespace
