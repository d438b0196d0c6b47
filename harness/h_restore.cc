// Saved models analyse like the ones which were built.
#include "env.h"
#include "cgspecs.h"
#include "ngrams.h"
#include "fakefs.h"
#include "core/analysis/analyzer.h"
#include "core/env.h"
#include "core/impl/model_io.h"
#include "core/impl/perceptron_io.h"
#include "core/spec/spec_serialization.h"
#include "util/serialization.h"

namespace {
using namespace jumanpp::core::spec;
#define EQ_ALL(a, b) ([&] { if ((a).size() != (b).size()) return false; for (size_t i_ = 0; i_ < (a).size(); ++i_) if (!eq((a)[i_], (b)[i_])) return false; return true; }())
bool eq(const FieldDescriptor& a, const FieldDescriptor& b) {
  return a.specIndex == b.specIndex && a.position == b.position && a.dicIndex == b.dicIndex && a.name == b.name && a.isTrieKey == b.isTrieKey && a.fieldType == b.fieldType && a.emptyString == b.emptyString &&
         a.listSeparator == b.listSeparator && a.kvSeparator == b.kvSeparator && a.stringStorage == b.stringStorage && a.intStorage == b.intStorage && a.alignment == b.alignment;
}
bool eq(const UnkMakerFeature& a, const UnkMakerFeature& b) { return a.targetPlaceholder == b.targetPlaceholder && a.featureType == b.featureType; }
bool eq(const UnkProcessorDescriptor& a, const UnkProcessorDescriptor& b) {
  return a.index == b.index && a.name == b.name && a.type == b.type && a.patternRow == b.patternRow && a.patternPtr == b.patternPtr && a.priority == b.priority && a.charClass == b.charClass && EQ_ALL(a.features, b.features) &&
         a.replaceFields == b.replaceFields;
}
bool eq(const DicImportDescriptor& a, const DicImportDescriptor& b) {
  return a.index == b.index && a.target == b.target && a.shift == b.shift && a.name == b.name && a.kind == b.kind && a.references == b.references;
}
bool eq(const PrimitiveFeatureDescriptor& a, const PrimitiveFeatureDescriptor& b) {
  return a.index == b.index && a.name == b.name && a.kind == b.kind && a.references == b.references && a.matchData == b.matchData;
}
bool eq(const ComputationFeatureDescriptor& a, const ComputationFeatureDescriptor& b) {
  return a.name == b.name && a.index == b.index && a.primitiveFeature == b.primitiveFeature && a.trueBranch == b.trueBranch && a.falseBranch == b.falseBranch;
}
bool eq(const PatternFeatureDescriptor& a, const PatternFeatureDescriptor& b) { return a.index == b.index && a.usage == b.usage && a.references == b.references; }
bool eq(const NgramFeatureDescriptor& a, const NgramFeatureDescriptor& b) { return a.index == b.index && a.references == b.references; }
bool eq(const TrainingField& a, const TrainingField& b) { return a.number == b.number && a.fieldIdx == b.fieldIdx && a.dicIdx == b.dicIdx && a.weight == b.weight; }
bool eq(const AllowedUnkField& a, const AllowedUnkField& b) { return a.targetField == b.targetField && a.sourceField == b.sourceField && a.sourceKey == b.sourceKey; }
void checkSpec(const AnalysisSpec& a, const AnalysisSpec& b) {
  auto &d = a.dictionary, &e = b.dictionary;
  jpp_check(EQ_ALL(d.fields, e.fields), "fields of the dictionary");
  jpp_check(d.aliasingSet == e.aliasingSet && d.indexColumn == e.indexColumn && d.numIntStorage == e.numIntStorage && d.numStringStorage == e.numStringStorage, "dictionary");
  auto &f = a.features, &g = b.features;
  jpp_check(EQ_ALL(f.dictionary, g.dictionary), "imported features");
  jpp_check(EQ_ALL(f.primitive, g.primitive), "primitive features");
  jpp_check(EQ_ALL(f.computation, g.computation), "computed features");
  jpp_check(EQ_ALL(f.pattern, g.pattern), "patterns");
  jpp_check(EQ_ALL(f.ngram, g.ngram), "n-grams");
  jpp_check(f.numPlaceholders == g.numPlaceholders && f.totalPrimitives == g.totalPrimitives && f.numDicFeatures == g.numDicFeatures && f.numDicData == g.numDicData && f.numUniOnlyPats == g.numUniOnlyPats, "features");
  jpp_check(EQ_ALL(a.unkCreators, b.unkCreators), "makers of unknown words");
  auto &t = a.training, &u = b.training;
  jpp_check(t.surfaceIdx == u.surfaceIdx && EQ_ALL(t.fields, u.fields) && EQ_ALL(t.allowedUnk, u.allowedUnk), "training");
}
// everything a specification can have
void richSpec(dsl::ModelSpecBuilder& b) {
  auto& p = b.field(2, "pos").strings().emptyValue("*");
  auto& s = b.field(1, "surf").strings().trieIndex().align(2);
  auto& r = b.field(4, "read").strings().stringStorage(s);
  auto& n = b.field(5, "num").integers();
  auto& l = b.field(6, "tags").stringLists().stringStorage(p).listSeparator("/");
  auto& k = b.field(3, "kv").kvLists().listSeparator(";").kvSeparator("=");
  auto& x = b.field(7, "extra").strings();
  auto& np = b.feature("np").placeholder();
  auto& m = b.feature("m").matchAnyRowOfCsv("x,a\nyy,b", {p, s}).ifTrue({s, p}).ifFalse({p});
  auto& kv = b.feature("has").matchData(k, "k1");
  auto& len = b.feature("len").numCodepoints(s);
  b.unk("kata", 1).chunking(cg::CharacterClass::KATAKANA).writeFeatureTo(np).outputTo({s, r}).lowPriority();
  b.unk("one", 1).single(cg::CharacterClass::FAMILY_ALPH).outputTo({s, r});
  b.unk("dig", 1).numeric(cg::CharacterClass::FAMILY_DIGITS).outputTo({s});
  b.unigram({s, p});
  b.unigram({m});
  b.unigram({kv});
  b.unigram({np, len});
  b.unigram({n});
  b.bigram({p}, {m});
  b.trigram({p}, {s}, {p, len});
  b.train().field(s, 1.0f).field(p, 0.5f).field(r, 0.f).allowGoldUnkWith(p, k, "k1");
  (void)x;
}
const char* const RICH =
    "UNK,u,,,0,,e\n"
    "a,x,k1=v,A,3,t1/t2,e1\n"
    "a,yy,,A,4,t12,e2\n"
    "ab,,k1;k2=w,Ab,5,t2,e1\n"
    "b,yy,k2,B,6,t2/x/t1,\n"
    "\xE3\x81\x82,x,,\xE3\x81\x82,8,,e3\n";
struct Built : Env {
  std::vector<float> w;
  std::unique_ptr<HashedFeaturePerceptron> hfp;
  ScorerDef sd;
  model::ModelPart dicPart, percPart;
  util::CodedBuffer percHdr;
  void make(int which) {
    if (which == 0) build(richSpec, RICH);
    else build([&](dsl::ModelSpecBuilder& b) { cg::cgSpec(which - 1, b); }, cg::cgCsv(which - 1));
    jpp_check(db.fillModelPart(&dicPart, cs("dic c")).isOk(), "model of the dictionary");
  }
  void weights(int exponent) {
    size_t n = (size_t)1 << exponent;
    for (size_t i = 0; i < n; ++i) w.push_back((float)((i * 37) % 16) / 4 - 2);
    hfp.reset(new HashedFeaturePerceptron{util::ArraySlice<float>{w.data(), w.size()}});
    sd.feature = hfp.get();
    sd.scoreWeights.assign(1, 1.0f);
    PerceptronInfo pi{exponent};
    util::serialization::Saver sv{&percHdr};
    sv.save(pi);
    percPart.kind = model::ModelPartKind::Perceprton;
    percPart.comment = "lm c";
    percPart.data.push_back(percHdr.contents());
    percPart.data.push_back(StringPiece{(const char*)w.data(), n * sizeof(float)});
  }
};
// every value of every word is the same
void checkNodes(AnalyzerOpen* a, const AnalyzerImpl* bc) {
  auto b = const_cast<AnalyzerImpl*>(bc);
  auto l1 = a->lattice(), l2 = b->lattice();
  jpp_check(l1->createdBoundaryCount() == l2->createdBoundaryCount(), "same places");
  for (u32 x = 2; x + 1 < l1->createdBoundaryCount(); ++x) {
    auto s1 = l1->boundary(x)->starts(), s2 = l2->boundary(x)->starts();
    jpp_check(s1->numEntries() == s2->numEntries(), "same words");
    for (u32 n = 0; n < s1->numEntries(); ++n) {
      auto i1 = s1->nodeInfo().at(n), i2 = s2->nodeInfo().at(n);
      jpp_check(i1.entryPtr() == i2.entryPtr() && i1.numCodepoints() == i2.numCodepoints(), "same words");
      auto e1 = s1->entryData().row(n), e2 = s2->entryData().row(n);
      for (size_t k = 0; k < e1.size(); ++k) jpp_check(e1.at(k) == e2.at(k), "same columns");
      auto r1 = s1->beamData().row(n), r2 = s2->beamData().row(n);
      for (size_t k = 0; k < r1.size(); ++k) {
        bool f1 = EntryBeam::isFake(r1.at(k)), f2 = EntryBeam::isFake(r2.at(k));
        jpp_check(f1 == f2, "same number of ways");
        if (f1) break;
        jpp_check(r1.at(k).totalScore == r2.at(k).totalScore && r1.at(k).ptr.left == r2.at(k).ptr.left && r1.at(k).ptr.beam == r2.at(k).ptr.beam, "same way");
      }
      auto &o1 = a->output(), &o2 = b->output();
      NodeWalker w1, w2;
      LatticeNodePtr p{(u16)x, (u16)n};
      jpp_check(o1.locate(p, &w1) && o2.locate(p, &w2), "words are found");
      bool more = true;
      while (more) {
        more = w1.next();
        jpp_check(w2.next() == more, "same rows");
        if (!more) break;
        for (auto& fd : l1 ? a->core().spec().dictionary.fields : a->core().spec().dictionary.fields) {
          switch (fd.fieldType) {
            case FieldType::String: {
              StringField x1, x2;
              jpp_check(o1.stringField(fd.name, &x1).isOk() && o2.stringField(fd.name, &x2).isOk(), "fields are found");
              jpp_check(x1[w1] == x2[w2], "same string");
              break;
            }
            case FieldType::StringList: {
              StringListField x1, x2;
              jpp_check(o1.stringListField(fd.name, &x1).isOk() && o2.stringListField(fd.name, &x2).isOk(), "fields are found");
              auto t1 = x1[w1];
              auto t2 = x2[w2];
              StringPiece y1, y2;
              while (true) {
                bool m1 = t1.next(&y1), m2 = t2.next(&y2);
                jpp_check(m1 == m2 && (!m1 || y1 == y2), "same list");
                if (!m1) break;
              }
              break;
            }
            case FieldType::StringKVList: {
              KVListField x1, x2;
              jpp_check(o1.kvListField(fd.name, &x1).isOk() && o2.kvListField(fd.name, &x2).isOk(), "fields are found");
              auto t1 = x1[w1];
              auto t2 = x2[w2];
              while (true) {
                bool m1 = t1.next(), m2 = t2.next();
                jpp_check(m1 == m2, "same list");
                if (!m1) break;
                jpp_check(t1.key() == t2.key() && t1.hasValue() == t2.hasValue() && (!t1.hasValue() || t1.value() == t2.value()), "same list");
              }
              break;
            }
            default: break;
          }
        }
      }
    }
  }
}
const char* const TEXTS[] = {"abc", "ab", "a1b", "\xE3\x81\x82\xE3\x82\xA2" "a", "\xE3\x82\xA2\xE3\x82\xA4" "b", ""};
}  // namespace

// a saved dictionary and weights are loaded from a file and used
HARNESS(env_round) {
  static Built* ep;
  ep = new Built;
  auto& e = *ep;
  e.make(jpp_pick<int>("spec", 0, cg::NSPECS));
  fakefs::Scope fs;
  bool trained = jpp_pick<int>("trained", 0, 3) > 0;
  e.weights(4);
  model::ModelInfo mi;
  mi.parts.push_back(e.dicPart);
  if (trained) mi.parts.insert(mi.parts.begin() + jpp_pick<int>("order", 0, 1), e.percPart);
  {
    model::ModelSaver ms;
    jpp_check(ms.open(cs("m")).isOk() && ms.save(mi).isOk(), "model is saved");
  }
  {
    JumanppEnv env;
    jpp_check(env.loadModel(cs("m")).isOk(), "model is loaded");
    auto& r = e.db.result();
    checkSpec(r.spec, env.spec());
    jpp_check(env.initFeatures(nullptr).isOk(), "features");
    VersionInfo vi;
    env.fillVersion(&vi);
    jpp_check(vi.dictionary == "dic c" && vi.model == (trained ? "lm c" : "") && vi.rnn.empty(), "comments of the model");
    jpp_check(env.hasPerceptronModel() == trained && !env.hasRnnModel(), "parts of the model");
    int beam = jpp_pick<int>("beam", 1, 2);
    env.setBeamSize(beam);
    if (jpp_param("gbeam", 0)) {
      e.cfg.globalBeamSize = 3;
      e.cfg.rightGbeamCheck = 2;
      e.cfg.rightGbeamSize = 2;
      env.setGlobalBeam(3, 2, 2);
    }
    Analyzer an;
    if (!trained) {
      jpp_check(!env.makeAnalyzer(&an).isOk(), "models without weights do not analyse");
      jpp_reach("untrained");
      return;
    }
    jpp_check(env.makeAnalyzer(&an).isOk(), "analyser");
    auto a = e.analyzer(beam);
    jpp_check(a->initScorers(e.sd).isOk(), "scorers");
    for (int round = 0; round < (int)jpp_param("rounds", 1); ++round) {
      Str text = TEXTS[jpp_pick<int>("text", 0, 5)];
      bool ok = a->resetForInput(sp(text)).isOk();
      if (ok) ok = a->prepareNodeSeeds().isOk();
      if (ok) {
        jpp_check(a->buildLattice().isOk(), "lattice");
        jpp_check(a->bootstrapAnalysis().isOk(), "bootstrap");
        jpp_check(a->computeScores(&e.sd).isOk(), "scores");
      }
      jpp_check(an.analyze(sp(text)).isOk() == ok, "both or none");
      if (!ok) { jpp_reach("no analysis"); continue; }
      checkNodes(a, an.impl());
      jpp_reach("same");
    }
  }
  jpp_check(fs.w.openFiles() == 0 && fs.w.maps.empty(), "everything is closed");
}

// the dictionary part without the file
HARNESS(dic_restore) {
  static Built* ep;
  ep = new Built;
  auto& e = *ep;
  e.make(jpp_pick<int>("spec", 0, cg::NSPECS));
  model::ModelInfo mi;
  mi.parts.push_back(e.dicPart);
  auto& part = mi.parts[0];
  Str meta = part.data[0].str();
  switch (jpp_pick<int>("kind", 0, 5)) {
    case 0: {
      dic::BuiltDictionary bd;
      jpp_check(bd.restoreDictionary(mi).isOk(), "restored");
      auto& r = e.db.result();
      checkSpec(r.spec, bd.spec);
      jpp_check(bd.entryCount == r.entryCount && bd.timestamp == r.timestamp, "entries");
      jpp_check(bd.trieContent == r.trieContent && bd.entryPointers == r.entryPointers && bd.entryData == r.entryData, "entries");
      jpp_check(bd.stringStorages.size() == r.stringStorages.size() && bd.intStorages.size() == r.intStorages.size(), "storages");
      for (size_t i = 0; i < r.stringStorages.size(); ++i) jpp_check(bd.stringStorages[i] == r.stringStorages[i], "strings");
      for (size_t i = 0; i < r.intStorages.size(); ++i) jpp_check(bd.intStorages[i] == r.intStorages[i], "lists");
      jpp_check(bd.fieldData.size() == r.fieldData.size(), "fields");
      for (size_t i = 0; i < r.fieldData.size(); ++i) {
        const dic::BuiltField &x = bd.fieldData[i], &y = r.fieldData[i];
        jpp_check(x.dicIndex == y.dicIndex && x.specIndex == y.specIndex && x.uniqueValues == y.uniqueValues && x.stringStorageIdx == y.stringStorageIdx, "fields");
        auto& fd = bd.spec.dictionary.fields[x.specIndex];
        if (fd.stringStorage != InvalidInt) jpp_check(x.stringContent == y.stringContent, "strings of a field");
        if (fd.intStorage != InvalidInt) jpp_check(x.fieldContent == y.fieldContent, "lists of a field");
      }
      jpp_reach("restored");
      return;
    }
    case 1:
      mi.parts.clear();
      break;
    case 2:
      mi.parts.push_back(e.dicPart);
      break;
    case 3:
      part.data.pop_back();
      break;
    case 4:
      if (jpp_pick<int>("double", 0, 1)) part.data.push_back(part.data.back());
      else part.data.resize(jpp_pick<int>("pieces", 0, 4));
      break;
    default:
      // the end of the description is missing
      meta.resize(meta.size() - (size_t)jpp_pick<int>("cut", 1, std::min(250, (int)meta.size())));
      part.data[0] = sp(meta);
  }
  dic::BuiltDictionary bd;
  jpp_check(!bd.restoreDictionary(mi).isOk(), "an incomplete dictionary is refused");
  jpp_reach("refused");
}

// changed descriptions of a dictionary are never used to reach behind it
HARNESS(dic_corrupt) {
  static Built* ep;
  ep = new Built;
  auto& e = *ep;
  e.make((int)jpp_param("spec", 1));
  model::ModelInfo mi;
  mi.parts.push_back(e.dicPart);
  Str meta = mi.parts[0].data[0].str();
  size_t at = (size_t)jpp_pick<int>("at", 0, std::min(255, (int)meta.size() / 16)) * 16 + jpp_pick<int>("at2", 0, 15);
  jpp_assume(at < meta.size());
  // the values one by one: the lengths in there decide what is read
  unsigned char b = (unsigned char)(jpp_pick<int>("b", 0, 15) * 16 + jpp_pick<int>("b2", 0, 15));
  meta[at] = (char)b;
  mi.parts[0].data[0] = sp(meta);
  dic::BuiltDictionary bd;
  if (!bd.restoreDictionary(mi).isOk()) {
    jpp_reach("refused");
    return;
  }
  dic::DictionaryHolder dh;
  if (dh.load(bd).isOk()) jpp_reach("restored");
}

// dictionaries with many columns
HARNESS(dic_many) {
  static Env* ep;
  ep = new Env;
  auto& e = *ep;
  int nf = jpp_pick<int>("features", 1, (int)jpp_param("features", 18)), nd = jpp_pick<int>("data", 0, (int)jpp_param("data", 18));
  int lo = (int)jpp_param("from", 15);
  jpp_assume(nf + nd >= lo && nf + nd <= lo + (int)jpp_param("span", 3));
  Str csv;
  Strs names;
  for (int i = 0; i < nf + nd; ++i) names.push_back("f" + std::to_string(i));
  {
    dsl::ModelSpecBuilder b;
    for (int i = 0; i < nf + nd; ++i) {
      auto& f = b.field(i + 1, sp(names[i]));
      f.strings();
      if (i == 0) f.trieIndex();
      if (i < nf) b.unigram({f});
    }
    if (!b.build(&e.spec).isOk()) {
      jpp_check(nf + nd > 16, "as many columns as configured are possible");
      jpp_reach("refused");
      return;
    }
  }
  for (int r = 0; r < 3; ++r)
    for (int i = 0; i < nf + nd; ++i) csv += (i == 0 ? Str(r < 2 ? "a" : "b") : "v" + std::to_string(i) + (i >= nf && r == 1 ? "x" : "")) + (i + 1 == nf + nd ? "\n" : ",");
  jpp_check(e.db.importSpec(&e.spec).isOk() && e.db.importCsv("d", sp(csv)).isOk(), "dictionary imports");
  model::ModelInfo mi;
  mi.parts.resize(1);
  jpp_check(e.db.fillModelPart(&mi.parts[0]).isOk(), "model");
  dic::BuiltDictionary bd;
  if (!bd.restoreDictionary(mi).isOk()) {
    jpp_check(nf + nd > 16, "as many columns as configured are possible");
    jpp_reach("refused");
    return;
  }
  jpp_check(e.dh.load(bd).isOk(), "loaded");
  e.core.reset(new CoreHolder{bd.spec, e.dh});
  jpp_check(e.core->initialize(nullptr).isOk(), "features");
  auto an = e.analyzer(1);
  std::vector<float> w(16, 0.5f);
  HashedFeaturePerceptron hfp{util::ArraySlice<float>{w.data(), w.size()}};
  ScorerDef sd;
  sd.feature = &hfp;
  sd.scoreWeights.assign(1, 1.0f);
  jpp_check(an->initScorers(sd).isOk() && an->resetForInput("ab").isOk() && an->prepareNodeSeeds().isOk() && an->buildLattice().isOk() && an->bootstrapAnalysis().isOk() && an->computeScores(&sd).isOk(), "analysis");
  auto& om = an->output();
  for (int r = 0; r < 2; ++r) {
    NodeWalker nw;
    auto starts = an->lattice()->boundary(2 + r)->starts();
    int rows = 0;
    for (u16 p = 0; p < starts->numEntries(); ++p) {
      jpp_check(om.locate(LatticeNodePtr{(u16)(2 + r), p}, &nw), "word");
      while (nw.next()) {
        for (int i = 0; i < nf + nd; ++i) {
          StringField f;
          jpp_check(om.stringField(sp(names[i]), &f).isOk(), "field");
          Str v = i == 0 ? Str(r == 0 ? "a" : "b") : "v" + std::to_string(i);
          Str got = f[nw].str();
          jpp_check(got == v || (r == 0 && i >= nf && got == v + "x"), "value of a column");
        }
        ++rows;
      }
    }
    jpp_check(rows >= 1, "rows");
  }
  jpp_reach("read");
}
