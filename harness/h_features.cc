// Features and weights: what is computed for a word and its neighbours.
#include "ngrams.h"

namespace {
std::vector<spec::NgramFeatureDescriptor> featureList(int nu, int nb, int nt, int pats, int shift) {
  std::vector<spec::NgramFeatureDescriptor> r;
  for (int i = 0; i < nu + nb + nt; ++i) {
    spec::NgramFeatureDescriptor d;
    d.index = i;
    int order = i < nu ? 1 : i < nu + nb ? 2 : 3;
    for (int j = 0; j < order; ++j) d.references.push_back((i * 2 + j * 3 + shift * (j + 1)) % pats);
    r.push_back(d);
  }
  return r;
}
}  // namespace

HARNESS(ngram_steps) {
  int nu = jpp_pick<int>("unigrams", 0, (int)jpp_param("nu", 5)), nb = jpp_pick<int>("bigrams", 0, (int)jpp_param("nb", 2)), nt = jpp_pick<int>("trigrams", 0, (int)jpp_param("nt", 2));
  const int PATS = 4;
  auto fs = featureList(nu, nb, nt, PATS, jpp_pick<int>("shift", 0, (int)jpp_param("shift", 0)));
  Full f;
  fimpl::PartialNgramDynamicFeatureApply p;
  for (auto& d : fs) {
    f.add(d);
    jpp_check(p.addChild(d).isOk(), "feature");
  }
  jpp_check((int)p.numUnigrams() == nu && (int)p.numBigrams() == nb && (int)p.numTrigrams() == nt, "as many features as added");
  Weights w((int)jpp_param("nw", 4), 3);
  util::memory::Manager mm{1 << 16};
  auto pool = mm.core();
  int n0 = jpp_pick<int>("n0", 1, (int)jpp_param("n0", 2)), n1 = jpp_pick<int>("n1", 1, (int)jpp_param("n1", 2)), n2 = jpp_pick<int>("n2", 1, (int)jpp_param("n2", 2));
  AnalysisRunStats st;
  st.maxStarts = (u32)n0 + 1;
  st.maxEnds = (u32)std::max(n1, n2);
  FeatureBuffer fb;
  p.allocateBuffers(&fb, st, pool.get());
  util::fill(fb.valueBuffer1, 0);
  scorePlace(&p, f, w, &fb, n0, n1, n2, PATS);
  jpp_reach("end");
}

// ---- values of features
namespace {
using namespace cg;
Strs split(const Str& s, char sep) {
  Strs r;
  Str cur;
  for (char c : s)
    if (c == sep) { r.push_back(cur); cur.clear(); } else cur.push_back(c);
  r.push_back(cur);
  return r;
}
bool hasItem(const Str& list, const Str& what, bool keys) {
  for (auto& x : split(list, ' '))
    if ((keys ? split(x, ':')[0] : x) == what) return true;
  return false;
}
struct Picked {
  const Feat* f;
  int prim;  // number of the primitive feature
};

struct FeatEnv : Env {
  std::vector<Picked> fs;
  int order, group;
  bool wants(Kind k) { return cg::wantsKind(group, k); }
  void make(int order, int group) {
    this->order = order;
    this->group = group;
    build(
        [&](spec::dsl::ModelSpecBuilder& b) {
          for (auto* f : cg::featSpec(b, order, group, 0)) fs.push_back(Picked{f, -1});
        },
        cg::featCsv());
    for (auto& p : fs)
      for (auto& d : spec.features.primitive)
        if (d.name == p.f->name) p.prim = d.index;
  }
};
}  // namespace

HARNESS(feature_values) {
  static FeatEnv* ep;
  ep = new FeatEnv;
  auto& e = *ep;
  e.make(jpp_pick<int>("order", (int)jpp_param("olo", 0), (int)jpp_param("ohi", 3)), (int)jpp_param("group", 0));
  auto text = anyText((int)jpp_param("n", 3), 1, jpp_param("kinds", 10));
  Str all = join(text, 0, text.size());
  auto an = e.analyzer(2);
  jpp_check(an->resetForInput(sp(all)).isOk(), "input accepted");
  if (!an->prepareNodeSeeds().isOk()) return;
  jpp_check(an->buildLattice().isOk(), "lattice");
  jpp_check(an->bootstrapAnalysis().isOk(), "bootstrap");
  auto& cps = an->in().codepoints();
  features::impl::PrimitiveFeatureContext pfc{an->extraNodesContext(), e.core->dic().fields(), e.core->dic().entries(), cps};
  auto l = an->lattice();
  auto& feats = e.core->features();
  auto str = [&](const char* fld, i32 ptr) {
    StringPiece s;
    jpp_check(e.core->dic().fieldByName(cs(fld))->strings.readAt(ptr, &s), "string in the dictionary");
    return s.str();
  };
  int dicIdx[3];
  const char* names[] = {"surf", "pos", "num"};
  for (int i = 0; i < 3; ++i) dicIdx[i] = e.core->dic().fieldByName(cs(names[i]))->idxInEntry;
  int n = (int)text.size(), last = (int)l->createdBoundaryCount() - 1;
  jpp_check(last == n + 2, "all places");
  for (int b = 2; b <= last; ++b) {
    auto st = l->boundary(b)->starts();
    for (u32 i = 0; i < st->numEntries(); ++i) {
      auto& info = st->nodeInfo().at(i);
      auto entry = st->entryData().row(i);
      bool eos = b == last;
      int from = b - 2, to = eos ? from : info.end();
      Str surf = join(text, from, to);
      bool unk = info.entryPtr().isSpecial() && !eos;
      const FRow* row = nullptr;
      int maker = 0;
      if (unk) {
        row = &FROWS[0];
        auto node = an->extraNodesContext()->node(info.entryPtr());
        if (e.wants(SURF)) jpp_check(entry.at(dicIdx[0]) < 0, "the text of an unknown word is not in the dictionary");
        maker = cps[from].hasClass(CharacterClass::KATAKANA) ? 1 : 2;
        jpp_check(node->header.unk.surface == sp(surf), "the text of an unknown word");
      } else if (!eos) {
        // entries of the dictionary differ in either surface or part of speech
        dic::DicEntryBuffer deb;
        jpp_check(pfc.fillEntryBuffer(info.entryPtr(), &deb), "entry");
        for (auto& r : FROWS)
          if (surf == r.surf && deb.features().at(e.core->dic().fieldByName(cs("pos"))->idxInEntry) >= 0 &&
              str("pos", deb.features().at(e.core->dic().fieldByName(cs("pos"))->idxInEntry)) == r.pos) row = &r;
        jpp_check(row != nullptr, "every word of the dictionary is one of its rows");
      }
      auto at = [&](int p) { return 0 <= p && p < n; };
      auto values = [&](Kind k, int off, std::vector<u64>* out) {
        Str pos = row ? row->pos : "";
        switch (k) {
          case SURF: out->push_back((u32)entry.at(dicIdx[0])); break;
          case POS: out->push_back((u32)entry.at(dicIdx[1])); break;
          case NUM: out->push_back(eos ? (u32)EntryPtr::EOS().rawValue() : (u32)row->num); break;
          case PLACE1: case PLACE2: {
            bool mine = unk && (maker == 1) == (k == PLACE1);
            bool pre = false;
            for (int r = 1; r < NROWS; ++r)
              if (Str(FROWS[r].surf).compare(0, surf.size(), surf) == 0) pre = true;
            out->push_back(mine && !pre ? 1 : 0);
            break;
          }
          case CP: {
            int p = off > 0 ? to + off - 1 : from + off;
            out->push_back(at(p) ? (u64)(u32)cps[p].codepoint : ~(u64)0);
            break;
          }
          case CT: {
            u32 v = 0;
            if (off == 0)
              for (int p = from; p < to; ++p) v |= (u32)cps[p].charClass;
            else {
              int p = off > 0 ? to + off - 1 : from + off;
              if (at(p)) v = (u32)cps[p].charClass;
            }
            out->push_back(v);
            break;
          }
          case NCP: out->push_back(to - from); break;
          case NB: out->push_back(surf.size()); break;
          case NCP_POS: case NB_POS: {
            Str s = unk && maker == 2 ? surf : pos;
            out->push_back(k == NB_POS ? s.size() : chars_of(s).size());
            break;
          }
          case M_POS: out->push_back(pos == "x"); break;
          case M_TAG: out->push_back(row && hasItem(row->tags, "t1", false)); break;
          case M_KEY: out->push_back(row && hasItem(row->kv, "k1", true)); break;
          case M_CSV: out->push_back(row && ((row->surf == Str("a") && pos == "x") || pos == "u" || (row->surf == Str("b") && pos == "yy"))); break;
          default:
            if (pos == "x") {
              out->push_back((u32)entry.at(dicIdx[0]));
              out->push_back((u32)entry.at(dicIdx[1]));
            } else
              out->push_back(eos ? (u32)EntryPtr::EOS().rawValue() : (u32)row->num);
        }
      };
      if (row && e.wants(POS) && !(unk && maker == 2)) jpp_check(str("pos", entry.at(dicIdx[1])) == row->pos, "a string field refers to its string");
      if (row && e.wants(SURF) && !unk) jpp_check(str("surf", entry.at(dicIdx[0])) == surf, "a string field refers to its string");
      auto pats = st->patternFeatureData().row(i);
      std::vector<std::vector<u64>> vals;
      for (auto& p : e.fs) {
        vals.emplace_back();
        // the values of matches at the end of the text are not told
        bool untold = eos && p.f->k >= M_POS;
        if (p.f->k < M_ELSE) {
          u64 have = feats.patternDynamic->primitive(p.prim)->access(&pfc, info, entry);
          values(p.f->k, p.f->off, &vals.back());
          if (!untold) jpp_check(have == vals.back()[0], "the value of a feature");
          vals.back()[0] = have;
        } else
          values(p.f->k, p.f->off, &vals.back());
      }
      if (eos) continue;
      for (auto& pd : e.spec.features.pattern) {
        u64 h = features::impl::Hasher{}.mix((u64)pd.index).mix((u64)pd.references.size()).mix(features::impl::PatternFeatureSeed).result();
        features::impl::Hasher hh{h};
        for (int ref : pd.references)
          for (size_t j = 0; j < e.fs.size(); ++j)
            if (e.spec.features.computation[ref].name == e.fs[j].f->name)
              for (u64 v : vals[j]) hh = hh.mix(v);
        jpp_check(pats.at(pd.index) == hh.result(), "the value of a pattern is made from its features in their order");
      }
      jpp_reach(unk ? "unknown" : "word");
    }
  }
  jpp_reach("end");
}

// the linear model of the n-gram features
HARNESS(perceptron) {
  int nw = 1 << jpp_pick<int>("nw", 0, (int)jpp_param("nw", 2));
  int n = jpp_pick<int>("n", 0, (int)jpp_param("n", 9));
  Weights w(nw, 3);
  std::vector<u32> ix(2 * n + 1);
  for (auto& x : ix) x = jpp_any<u32>("feature");
  util::ConstSliceable<u32> rows{util::ArraySlice<u32>{ix.data(), (size_t)(2 * n)}, (size_t)n, 2};
  float res[3] = {50, 60, 70}, src[2] = {3, -2}, want[2] = {0, 0};
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < n; ++j) want[i] += w.at(ix[i * n + j]);
  w.hfp.compute(util::MutableArraySlice<float>{res, 2}, rows);
  for (int i = 0; i < 2; ++i) jpp_check(res[i] == want[i], "the sum of the weights of the features");
  w.hfp.add(util::ArraySlice<float>{src, 2}, util::MutableArraySlice<float>{res, 2}, rows);
  for (int i = 0; i < 2; ++i) jpp_check(res[i] == src[i] + want[i], "the sum is added to the score");
  jpp_check(res[2] == 70, "nothing else is written");
  std::vector<u32> masked(ix);
  for (auto& x : masked) x &= (u32)(nw - 1);
  util::ArraySlice<u32> first{masked.data(), (size_t)n};
  jpp_check(jumanpp::core::analysis::impl::computeUnrolled4RawPerceptron(w.hfp.weights(), first) == want[0], "the sum of the weights of the features");
  jpp_reach("end");
}

// weights of a saved model
HARNESS(perceptron_load) {
  using namespace jumanpp::core::model;
  int parts = jpp_pick<int>("parts", 0, 2);
  ModelInfo mi;
  std::vector<float> data(8);
  for (auto& f : data) f = (float)jpp_range<int>("w", -3, 3);
  jumanpp::core::PerceptronInfo pi;
  pi.modelSizeExponent = jpp_any<i32>("exponent");
  util::serialization::Saver sv;
  sv.save(pi);
  Str head(sv.result().begin(), sv.result().end());
  if (jpp_pick<int>("cut", 0, 1)) head.clear();
  int count = jpp_pick<int>("size", 0, 8);
  int pieces = jpp_pick<int>("pieces", 0, 3);
  bool found = false;
  for (int i = 0; i < parts; ++i) {
    bool mine = jpp_pick<int>("mine", 0, 1) != 0;
    mi.parts.emplace_back();
    auto& p = mi.parts.back();
    p.kind = mine ? ModelPartKind::Perceprton : ModelPartKind::Dictionary;
    if (found || !mine) continue;
    found = true;
    for (int k = 0; k < pieces; ++k) p.data.push_back(k == 0 ? StringPiece(head.data(), head.data() + head.size()) : StringPiece((const char*)data.data(), (const char*)(data.data() + count)));
  }
  HashedFeaturePerceptron h;
  bool ok = h.load(mi).isOk();
  int e = pi.modelSizeExponent;
  bool good = found && pieces == 2 && !head.empty() && e >= 0 && e < 4 && (1 << e) == count;
  jpp_check(ok == good, "loads exactly well-formed weights");
  if (ok) {
    jpp_check((int)h.weights().size() == count, "as many weights as saved");
    for (int i = 0; i < count; ++i) jpp_check(h.weights().at(i) == data[i], "the saved weights");
    jpp_reach("loaded");
  }
  jpp_reach("end");
}
