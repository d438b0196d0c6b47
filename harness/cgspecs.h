// The model specifications used by the feature harnesses and by the generator of static code.
#pragma once
#include "core/spec/spec_dsl.h"
#include <string.h>
#include <string>
#include <vector>
namespace cg {
using namespace jumanpp;
using namespace jumanpp::core;

typedef std::string Str;
#ifndef JPP_ENV_CS
inline StringPiece cs(const char* s) { return StringPiece{s, strlen(s)}; }
#else
using ::cs;
#endif
using chars::CharacterClass;
struct FRow { const char *surf, *pos; int num; const char *tags, *kv; };
static const FRow FROWS[] = {
    {"UNK", "u", 7, "t1", "k1:v"}, {"a", "x", 3, "t1 t2", "k1:v k2:"}, {"a", "yy", 4, "t12", "k2:k1"},
    {"ab", "x", 5, "t2", "k2:w k1"}, {"b", "yy", 6, "t2 t3 t1", "k:v"}, {"b", "", 2, "t3", "k1"}, {"\xE3\x81\x82", "\xE3\x81\x82\xE3\x81\x84", 8, "", ""},
    {"\xE3\x81\x82\xE3\x82\xA2", "x", 9, "t3", "k12:v"},
};
static const int NROWS = 8;
// what a feature is about
enum Kind { SURF, POS, NUM, PLACE1, PLACE2, CP, CT, NCP, NB, NCP_POS, NB_POS, M_POS, M_TAG, M_KEY, M_CSV, M_ELSE };
struct Feat { const char* name; Kind k; int off; };
static const Feat FEATS[] = {
    {"surf", SURF, 0}, {"pos", POS, 0}, {"num", NUM, 0}, {"p1", PLACE1, 0}, {"p2", PLACE2, 0},
    {"cp1", CP, 1}, {"cp2", CP, 2}, {"cpm1", CP, -1}, {"cpm2", CP, -2}, {"ct0", CT, 0}, {"ct1", CT, 1}, {"ctm1", CT, -1}, {"ct2", CT, 2}, {"ctm2", CT, -2},
    {"ncp", NCP, 0}, {"nb", NB, 0}, {"ncp_pos", NCP_POS, 0}, {"nb_pos", NB_POS, 0},
    {"mpos", M_POS, 0}, {"mtag", M_TAG, 0}, {"mkey", M_KEY, 0}, {"mcsv", M_CSV, 0}, {"melse", M_ELSE, 0},
};
static const int NFEATS = sizeof(FEATS) / sizeof(FEATS[0]);
static const int GROUPS[][9] = {
    {SURF, POS, NUM, M_POS, M_TAG, M_KEY, M_CSV, M_ELSE, -1},
    {CP, CT, PLACE1, PLACE2, NCP, NB, -1, -1, -1},
    {NCP_POS, NB_POS, NCP, POS, M_ELSE, -1, -1, -1, -1},
};

inline bool wantsKind(int group, Kind k) {
  for (int x : GROUPS[group])
    if (x == (int)k) return true;
  return false;
}
inline spec::dsl::FeatureRef refTo(const char* n) {
  spec::dsl::FieldBuilder f{1, cs(n)};
  return spec::dsl::FeatureRef{f};
}
inline Str featCsv() {
  Str csv;
  for (auto& r : FROWS) csv += Str(r.surf) + "," + r.pos + "," + std::to_string(r.num) + "," + r.tags + "," + r.kv + "\n";
  return csv;
}
// the features of a group, every one by itself and all of them together
inline std::vector<const Feat*> featSpec(spec::dsl::ModelSpecBuilder& b, int order, int group, int more) {
  std::vector<const Feat*> fs;
  using spec::dsl::FieldBuilder;
  FieldBuilder* fld[5];
  auto add = [&](int i) {
    static const char* names[] = {"surf", "pos", "num", "tags", "kv"};
    auto& f = b.field(i + 1, cs(names[i]));
    if (i == 0) f.strings().trieIndex();
    if (i == 1) f.strings();
    if (i == 2) f.integers();
    if (i == 3) f.stringLists();
    if (i == 4) f.kvLists();
    fld[i] = &f;
  };
  static const int ORD[][5] = {{0, 1, 2, 3, 4}, {3, 4, 0, 1, 2}, {1, 3, 2, 0, 4}, {4, 2, 1, 3, 0}};
  for (int i : ORD[order]) add(i);
  for (auto& f : FEATS) {
    if (!wantsKind(group, f.k)) continue;
    fs.push_back(&f);
    if (f.k <= NUM) continue;
    auto& x = b.feature(cs(f.name));
    switch (f.k) {
      case PLACE1: case PLACE2: x.placeholder(); break;
      case CP: x.codepoint(f.off); break;
      case CT: x.codepointType(f.off); break;
      case NCP: x.numCodepoints(*fld[0]); break;
      case NB: x.length(*fld[0]); break;
      case NCP_POS: x.numCodepoints(*fld[1]); break;
      case NB_POS: x.length(*fld[1]); break;
      case M_POS: x.matchData(*fld[1], "x"); break;
      case M_TAG: x.matchData(*fld[3], "t1"); break;
      case M_KEY: x.matchData(*fld[4], "k1"); break;
      case M_CSV: x.matchAnyRowOfCsv("a,x\nUNK,u\nb,yy\nb,x", {*fld[0], *fld[1]}); break;
      default: x.matchData(*fld[1], "x").ifTrue({*fld[0], *fld[1]}).ifFalse({*fld[2]});
    }
  }
  auto& u = b.unk("u", 1).chunking(CharacterClass::KATAKANA).outputTo({*fld[0]});
  auto& v = b.unk("v", 1).chunking(CharacterClass::ALPH).outputTo({*fld[0], *fld[1]});
  for (auto* p : fs) {
    std::vector<spec::dsl::FeatureRef> r;
    r.push_back(refTo(p->name));
    if (p->k == PLACE1) u.writeFeatureTo(r[0]);
    if (p->k == PLACE2) v.writeFeatureTo(r[0]);
    b.unigram(r);
  }
  // a pattern of several in another order
  std::vector<spec::dsl::FeatureRef> all;
  for (size_t i = fs.size(); i-- > 0;) all.push_back(refTo(fs[i]->name));
  b.bigram(all, all);
  for (int i = 0; i < more; ++i) {
    std::vector<spec::dsl::FeatureRef> one(1, refTo(fs[i % fs.size()]->name)), two(1, refTo(fs[(i + 1) % fs.size()]->name));
    b.bigram(one, two);
    b.trigram(two, one, two);
  }
  return fs;
}
// surfaces and parts of speech only; so many n-grams of every order
inline void plainSpec(spec::dsl::ModelSpecBuilder& b, int nu, int nb, int nt, bool twice = false) {
  auto& s = b.field(1, "surf").strings().trieIndex();
  auto& p = b.field(2, "pos").strings();
  auto& q = b.field(3, "sub").strings();
  b.unk("u", 1).chunking(chars::CharacterClass::KATAKANA).outputTo({s});
  typedef std::vector<spec::dsl::FeatureRef> R;
  R all[] = {R{s}, R{p}, R{q}, R{s, p}, R{p, q}, R{q, s}, R{p, s}, R{s, p, q}, R{q, p, s}};
  for (int i = 0; i < nu; ++i) b.unigram(all[twice ? 0 : i % 9]);
  for (int i = 0; i < nb; ++i) b.bigram(all[(i * 2 + 1) % 9], all[(i + 1 + i / 3) % 9]);
  for (int i = 0; i < nt; ++i) b.trigram(all[(i * 3 + 1) % 9], all[(i + 2) % 9], all[(i * 2 + i / 4) % 9]);
}
const int NSPECS = 11;
inline void cgSpec(int which, spec::dsl::ModelSpecBuilder& b) {
  switch (which) {
    case 0: plainSpec(b, 3, 3, 3); break;
    case 1: featSpec(b, 0, 0, 2); break;
    case 2: featSpec(b, 1, 1, 2); break;
    case 3: featSpec(b, 2, 2, 1); break;
    case 4: plainSpec(b, 1, 0, 2); break;
    case 5: plainSpec(b, 0, 2, 1); break;
    case 6: plainSpec(b, 9, 9, 9); break;
    case 7: plainSpec(b, 5, 4, 0); break;
    case 8: plainSpec(b, 2, 1, 1, true); break;
    case 9: plainSpec(b, 1, 1, 4); break;
    default: plainSpec(b, 1, 0, 0);
  }
}
inline Str cgCsv(int which) {
  return which >= 1 && which <= 3 ? featCsv() : Str("UNK,u,1\na,x,1\na,y,2\nab,x,2\nb,y,1\nb,z,2\nc,x,1\n");
}
}  // namespace cg
