// UTF-8 decoding, segmentation and character classes.
#include <vector>
#include "jpp.h"
#include "util/characters.h"
using namespace jumanpp;
using namespace jumanpp::chars;

namespace {
// structural UTF-8: length implied by the lead byte, continuation bytes 10xxxxxx
inline int ref_len(const u8* p, size_t avail, char32_t* cp) {
  u8 a = p[0];
  if (a < 0x80) { *cp = a; return 1; }
  if (a < 0xc0) return 0;
  int n = a < 0xe0 ? 2 : a < 0xf0 ? 3 : a < 0xf8 ? 4 : 0;
  if (n == 0 || (size_t)n > avail) return 0;
  char32_t v = n == 2 ? (a & 0x1f) : n == 3 ? (a & 0x0f) : (a & 0x07);
  for (int i = 1; i < n; ++i) {
    if ((p[i] & 0xc0) != 0x80) return 0;
    v = (v << 6) | (p[i] & 0x3f);
  }
  *cp = v;
  return n;
}
}  // namespace

HARNESS(utf8_decode) {
  getCodeType(U'a');
  getCodeType(U'あ');
  getCodeType(0xfffd);
  size_t n = jpp_pick<size_t>("n", 0, jpp_param("n", 5));
  u8 b[16];
  jpp_make_symbolic(b, n, "b");
  char* h = new char[n];  // exact size: reading past the text is a violation
  for (size_t i = 0; i < n; ++i) h[i] = (char)b[i];
  StringPiece text{h, n};
  std::vector<InputCodepoint> out;
  bool ok = preprocessRawData(text, &out).isOk();
  size_t pos = 0, k = 0;
  bool rok = true;
  while (pos < n) {
    char32_t cp = 0;
    int l = ref_len(b + pos, n - pos, &cp);
    if (l == 0) { rok = false; break; }
    if (ok) {
      jpp_check(k < out.size(), "decoded text has every character");
      jpp_check(out[k].codepoint == cp, "code point value");
      jpp_check(out[k].bytes.begin() == h + pos && out[k].bytes.size() == (size_t)l, "character covers its own bytes");
    }
    pos += l;
    ++k;
  }
  jpp_check(ok == rok, "accepts exactly structurally valid UTF-8");
  if (ok) {
    jpp_check(out.size() == k, "no extra characters");
    for (auto& c : out) jpp_check(c.charClass == getCodeType(c.codepoint), "class of the decoded character");
    jpp_check(numCodepoints(text) == (i32)k, "length in characters");
    jpp_reach("valid");
  } else {
    jpp_reach("invalid");
  }
  jpp_observe(ok);
  jpp_observe(k);
  for (auto& c : out) jpp_observe(c.codepoint);
  delete[] h;
}

namespace {
inline bool in(char32_t c, char32_t a, char32_t b) { return a <= c && c <= b; }
}  // namespace
#define HAS(x) ((cc & CharacterClass::x) != CharacterClass::FAMILY_OTHERS)

HARNESS(char_class) {
  getCodeType(U'a');
  getCodeType(U'あ');
  getCodeType(0xfffd);
  u32 page = jpp_pick<u32>("page", (u32)jpp_param("plo", 0), (u32)jpp_param("phi", 255));
  char32_t c = (page << 8) | jpp_any<u8>("c");
  CharacterClass cc = getCodeType(c);
  bool choon = c == 0x30fc || c == 0x301c || c == 0xff5e || c == 0x223c;
  bool hira = in(c, 0x3040, 0x309f) || choon;
  bool kata = in(c, 0x30a0, 0x30fa) || in(c, 0x30fd, 0x30ff) || choon;
  jpp_check(HAS(HIRAGANA) == hira, "hiragana block and prolonged sound marks");
  jpp_check(HAS(KATAKANA) == kata, "katakana block and prolonged sound marks");
  jpp_check(HAS(CHOON) == (choon || c == 0xff70), "prolonged sound marks");
  jpp_check(HAS(HANKAKU_KANA) == in(c, 0xff66, 0xff9f), "half-width katakana");
  bool smallH = c == 0x3041 || c == 0x3043 || c == 0x3045 || c == 0x3047 || c == 0x3049 || c == 0x3063 || c == 0x3083 ||
                c == 0x3085 || c == 0x3087 || c == 0x308e || c == 0x3095 || c == 0x3096;
  bool smallK = c == 0x30a1 || c == 0x30a3 || c == 0x30a5 || c == 0x30a7 || c == 0x30a9 || c == 0x30c3 || c == 0x30e3 ||
                c == 0x30e5 || c == 0x30e7 || c == 0x30ee || c == 0x30f5 || c == 0x30f6;
  jpp_check(HAS(SMALL_KANA) == (smallH || smallK), "small kana");
  jpp_check(HAS(FIGURE) == (in(c, '0', '9') || in(c, 0xff10, 0xff19)), "digits");
  jpp_check(HAS(PERIOD) == (c == 0xff0e), "full-width period");
  jpp_check(HAS(COMMA) == (c == ',' || c == 0xff0c), "commas");
  jpp_check(HAS(SLASH) == (c == '/' || c == 0xff0f), "slashes");
  jpp_check(HAS(COLON) == (c == ':' || c == 0xff1a), "colons");
  jpp_check(HAS(MIDDLE_DOT) == (c == 0xb7 || c == 0x30fb), "middle dots");
  jpp_check(HAS(IDEOGRAPHIC_PUNC) == in(c, 0x3001, 0x3002), "ideographic punctuation");
  jpp_check(HAS(ERA) == in(c, 0x337b, 0x337e), "era names");
  jpp_check(HAS(SPACE) == (c == 0x20 || c == 0x3000 || c == 0xa0 || c == 0x1680 || c == 0x180e || c == 0x202f || c == 0x205f ||
                           c == 0xfeff || in(c, 0x2000, 0x200b)),
            "spaces");
  bool knum = c == 0x25cb || c == 0x3007 || c == 0x96f6 || c == 0x4e00 || c == 0x4e8c || c == 0x4e09 || c == 0x56db || c == 0x4e94 ||
              c == 0x516d || c == 0x4e03 || c == 0x516b || c == 0x4e5d;
  bool kdig = c == 0x5341 || c == 0x767e || c == 0x5343 || c == 0x4e07 || c == 0x5104 || c == 0x5146;
  bool kexc = c == 0x6570 || c == 0x4f55 || c == 0x5e7e;
  jpp_check(HAS(KANJI_FIGURE) == (knum || kdig), "kanji numerals");
  jpp_check(HAS(FIGURE_DIGIT) == kdig, "kanji positional digits");
  jpp_check(HAS(FIGURE_EXCEPTION) == kexc, "kanji quantity words");
  bool cjk = in(c, 0x4e00, 0x9fff) || c == 0x3005 || c == 0x3007 || c == 0x25cb;
  if (!kdig) jpp_check(HAS(KANJI) == cjk, "CJK ideographs");
  if (in(c, 'a', 'z') || in(c, 'A', 'Z') || in(c, 0xff21, 0xff3a) || in(c, 0xff41, 0xff5a) || in(c, 0xc0, 0xff) || in(c, 0x370, 0x4ff))
    jpp_check(cc == CharacterClass::ALPH, "letters");
  if (c == 0x28 || c == 0x29 || in(c, 0x3008, 0x3011) || in(c, 0x3014, 0x301b) || c == 0xff08 || c == 0xff09)
    jpp_check(cc == CharacterClass::BRACKET, "brackets");
  if (in(c, 0x10000, 0x10ffff)) jpp_check(cc == CharacterClass::SYMBOL, "astral characters are symbols");
  jpp_check(cc != CharacterClass::FAMILY_OTHERS, "every character has a class");
  jpp_observe((u64)cc);
  jpp_reach("end");
}
