// Selecting the best k, packed beam candidates, bounded heaps.
#include <algorithm>
#include <cmath>
#include <vector>
#include "core/analysis/score_processor.h"
#include "jpp.h"
#include "util/stl_util.h"
using namespace jumanpp;
using namespace jumanpp::core::analysis;

// partition puts the best elements first and returns a size in the allowed range
HARNESS(partition) {
  const int N = (int)jpp_param("n", 6);
  int n = jpp_pick<int>("n", 1, N);
  size_t mn = jpp_pick<size_t>("min", 1, N), mx = jpp_pick<size_t>("max", 1, N);
  jpp_assume(mn <= mx && mx <= (size_t)n);
  int* v = new int[n];
  u8 o[12];
  for (int i = 0; i < n; ++i) {
    o[i] = jpp_any<u8>("v");
    v[i] = (int)o[i] * 16 + i;  // distinguishable elements, possibly equal keys
  }
  auto comp = [](int a, int b) { return (a >> 4) > (b >> 4); };
  int* it = util::partition(v, v + n, comp, mn, mx);
  size_t k = it - v;
  jpp_check(k >= mn && k <= mx, "selected count within the requested range");
  for (size_t i = 0; i < k; ++i)
    for (int j = (int)k; j < n; ++j) jpp_check(!comp(v[j], v[i]), "selected elements are the best ones");
  unsigned seen = 0;
  for (int i = 0; i < n; ++i) {
    int idx = v[i] & 15;
    jpp_check(idx < n && (v[i] >> 4) == o[idx], "elements are only moved");
    seen |= 1u << idx;
  }
  jpp_check(seen == (1u << n) - 1, "no element is lost");
  delete[] v;
  jpp_reach("end");
}

HARNESS(beam_candidate) {
  float a = jpp_any<float>("a"), b = jpp_any<float>("b");
  jpp_assume(!std::isnan(a) && !std::isnan(b));
  i16 la = jpp_any<i16>("la"), lb = jpp_any<i16>("lb"), ba = jpp_any<i16>("ba"), bb = jpp_any<i16>("bb");
  jpp_assume(la >= 0 && lb >= 0 && ba >= 0 && bb >= 0);
  BeamCandidate x{a, la, ba}, y{b, lb, bb};
  u32 ia, ix;
  float xs = x.score();
  memcpy(&ia, &a, 4);
  memcpy(&ix, &xs, 4);
  jpp_check(ia == ix, "score survives packing");
  jpp_check(x.left() == la && x.beam() == ba, "position survives packing");
  if (a < b) jpp_check(x < y && y > x, "better score orders higher");
  if (a > b) jpp_check(y < x && x > y, "worse score orders lower");
  jpp_check((x < y) == (y > x), "orders are mirrored");
  jpp_reach("end");
}

HARNESS(entry_beam) {
  const int N = (int)jpp_param("n", 5);
  int beam = jpp_pick<int>("beam", 1, 3);
  std::vector<ConnectionBeamElement> st(beam);
  util::MutableArraySlice<ConnectionBeamElement> sl{&st};
  EntryBeam::initializeBlock(sl);
  EntryBeam eb{sl};
  jpp_check(eb.isTopFake(), "starts empty");
  int n = jpp_pick<int>("cnt", 0, N);
  i16 s[8];
  for (int i = 0; i < n; ++i) {
    s[i] = (i16)jpp_any<i8>("s");
    eb.pushItem(ConnectionBeamElement{{0, (u16)i, 0, 0, nullptr}, (float)s[i]});
  }
  auto res = eb.finalize();
  jpp_check(res.size() == (size_t)std::min(n, beam), "keeps as many as fit");
  bool in[8] = {};
  for (size_t i = 0; i < res.size(); ++i) {
    int id = res[i].ptr.left;
    jpp_check(id >= 0 && id < n && !in[id], "holds pushed items once");
    in[id] = true;
    jpp_check(res[i].totalScore == (float)s[id], "with their scores");
    if (i) jpp_check(!(res[i - 1].totalScore < res[i].totalScore), "best first");
  }
  for (int i = 0; i < n; ++i)
    if (!in[i])
      for (size_t j = 0; j < res.size(); ++j) jpp_check(s[i] <= s[res[j].ptr.left], "keeps the best");
  jpp_reach("end");
}
