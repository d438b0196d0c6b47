#include "expr.h"
#include <cmath>
#include <map>

static std::vector<Expr *> table;  // open addressing
static size_t tableUsed = 0;
static uint32_t nextId = 1;
static char *arenaPtr = nullptr, *arenaEnd = nullptr;
static uint64_t curEpoch = 1;
uint64_t newEpoch() { return ++curEpoch; }
uint64_t exprCount() { return nextId; }

static void *arenaAlloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (arenaPtr + n > arenaEnd || !arenaPtr) {
    size_t sz = 1 << 20;
    arenaPtr = (char *)malloc(sz);
    arenaEnd = arenaPtr + sz;
  }
  void *r = arenaPtr;
  arenaPtr += n;
  return r;
}

// ---------- symbol sets
static std::map<std::vector<uint64_t>, SymSet *> symSets;
static std::unordered_map<uint64_t, const SymSet *> unionCache;
static const SymSet *internSet(const std::vector<uint64_t> &v) {
  auto it = symSets.find(v);
  if (it != symSets.end()) return it->second;
  auto *s = new SymSet;
  s->bits = v;
  s->id = symSets.size() + 1;
  symSets[v] = s;
  {
    int n = 0, last = -1;
    for (size_t i = 0; i < v.size(); ++i)
      for (uint64_t b = v[i]; b; b &= b - 1) { ++n; last = (int)(i * 64 + __builtin_ctzll(b)); }
    s->single = n == 1 ? last : -1;
  }
  return s;
}
const SymSet *emptySyms() {
  static const SymSet *e = internSet({});
  return e;
}
const SymSet *unionSyms(const SymSet *a, const SymSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto it = unionCache.find(key);
  if (it != unionCache.end()) return it->second;
  std::vector<uint64_t> v(std::max(a->bits.size(), b->bits.size()));
  for (size_t i = 0; i < a->bits.size(); ++i) v[i] |= a->bits[i];
  for (size_t i = 0; i < b->bits.size(); ++i) v[i] |= b->bits[i];
  auto r = internSet(v);
  unionCache[key] = r;
  return r;
}

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v;
  h *= 0x9E3779B97F4A7C15ull;
  return h ^ (h >> 29);
}
static uint64_t hashOf(K k, unsigned w, unsigned aux, E a, E b, E c, u128 v) {
  uint64_t h = mix(0x1234567, ((uint64_t)k << 32) | (w << 16) | aux);
  h = mix(h, a ? a->id : 0);
  h = mix(h, b ? b->id : 0);
  h = mix(h, c ? c->id : 0);
  h = mix(h, (uint64_t)v);
  h = mix(h, (uint64_t)(v >> 64));
  return h;
}

static void computeRange(Expr *e) {
  e->umin = 0;
  e->umax = e->w <= 64 ? mask64(e->w) : ~0ull;
  if (e->w > 64) return;
  auto A = e->a, B = e->b;
  switch (e->k) {
    case K::Const: e->umin = e->umax = (uint64_t)e->val; break;
    case K::Concat:
      if (A->w < 64 && B->w <= 64) {
        e->umin = (A->umin << B->w) + B->umin;
        e->umax = (A->umax << B->w) + B->umax;
      }
      break;
    case K::Extract:
      if (A->w <= 64 && e->aux == 0 && A->umax <= mask64(e->w)) {
        e->umin = A->umin; e->umax = A->umax;
      } else if (A->w <= 64 && e->aux + e->w == A->w) {
        e->umin = A->umin >> e->aux; e->umax = A->umax >> e->aux;
      }
      break;
    case K::Add: {
      uint64_t m = mask64(e->w);
      uint64_t hi;
      if (!__builtin_add_overflow(A->umax, B->umax, &hi) && hi <= m) {
        e->umin = A->umin + B->umin; e->umax = hi;
      } else if (B->isConst()) {
        // x - c with x >= c always
        uint64_t c = (-(uint64_t)B->val) & m;
        if (A->umin >= c) { e->umin = A->umin - c; e->umax = A->umax - c; }
      }
      break;
    }
    case K::Sub:
      if (A->umin >= B->umax) { e->umin = A->umin - B->umax; e->umax = A->umax - B->umin; }
      break;
    case K::Mul: {
      uint64_t hi;
      if (!__builtin_mul_overflow(A->umax, B->umax, &hi) && hi <= mask64(e->w)) {
        e->umin = A->umin * B->umin; e->umax = hi;
      }
      break;
    }
    case K::And: e->umax = std::min(A->umax, B->umax); break;
    case K::Or: {
      uint64_t m = std::max(A->umax, B->umax);
      unsigned bitsN = m ? 64 - __builtin_clzll(m) : 0;
      e->umax = mask64(bitsN ? bitsN : 1);
      if (!bitsN) e->umax = 0;
      e->umin = std::max(A->umin, B->umin);
      break;
    }
    case K::Xor: {
      uint64_t m = std::max(A->umax, B->umax);
      unsigned bitsN = m ? 64 - __builtin_clzll(m) : 0;
      e->umax = bitsN ? mask64(bitsN) : 0;
      break;
    }
    case K::UDiv:
      if (B->umin > 0) { e->umax = A->umax / B->umin; e->umin = A->umin / B->umax; }
      break;
    case K::URem:
      if (B->umin > 0) e->umax = std::min(A->umax, B->umax - 1);
      break;
    case K::LShr: e->umax = A->umax; break;
    case K::Ite:
      e->umin = std::min(B->umin, e->c->umin);
      e->umax = std::max(B->umax, e->c->umax);
      break;
    default: break;
  }
}

static E mk(K k, unsigned w, unsigned aux, E a, E b, E c, u128 v) {
  if (table.empty()) table.resize(1 << 16);
  if (tableUsed * 2 > table.size()) {
    std::vector<Expr *> old;
    old.swap(table);
    table.resize(old.size() * 2);
    for (auto *e : old)
      if (e) {
        uint64_t h = hashOf(e->k, e->w, e->aux, e->a, e->b, e->c, e->val);
        size_t i = h & (table.size() - 1);
        while (table[i]) i = (i + 1) & (table.size() - 1);
        table[i] = e;
      }
  }
  uint64_t h = hashOf(k, w, aux, a, b, c, v);
  size_t i = h & (table.size() - 1);
  while (table[i]) {
    Expr *e = table[i];
    if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b &&
        e->c == c && e->val == v)
      return e;
    i = (i + 1) & (table.size() - 1);
  }
  Expr *e = (Expr *)arenaAlloc(sizeof(Expr));
  memset((void *)e, 0, sizeof(Expr));
  e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = v;
  e->id = nextId++;
  if (k == K::Sym) {
    std::vector<uint64_t> bits((size_t)v / 64 + 1);
    bits[(size_t)v / 64] |= 1ull << ((size_t)v % 64);
    e->syms = internSet(bits);
  } else {
    const SymSet *s = emptySyms();
    if (a) s = unionSyms(s, a->syms);
    if (b) s = unionSyms(s, b->syms);
    if (c) s = unionSyms(s, c->syms);
    e->syms = s;
  }
  computeRange(e);
  table[i] = e;
  ++tableUsed;
  return e;
}

E mkConst(u128 v, unsigned w) { return mk(K::Const, w, 0, 0, 0, 0, v & maskW(w)); }
E mkSym(unsigned idx) { return mk(K::Sym, 8, 0, 0, 0, 0, idx); }

static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

u128 evalConstOp(K k, unsigned w, unsigned aw, u128 a, u128 b, u128 c, unsigned aux) {
  u128 m = maskW(w);
  switch (k) {
    case K::Extract: return (a >> aux) & m;
    case K::SExt: return (u128)sx128(a, aw) & m;
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? (a / b) : m;
    case K::URem: return b ? (a % b) : a;
    case K::SDiv: {
      i128 x = sx128(a, aw), y = sx128(b, aw);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case K::SRem: {
      i128 x = sx128(a, aw), y = sx128(b, aw);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case K::AShr: {
      i128 x = sx128(a, aw);
      return (u128)(b >= w ? (x < 0 ? (i128)-1 : 0) : (x >> (unsigned)b)) & m;
    }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sx128(a, aw) < sx128(b, aw);
    case K::Sle: return sx128(a, aw) <= sx128(b, aw);
    case K::Not: return !a;
    case K::Ite: return a ? b : c;
#define FOP(op) return aw == 32 ? fromF(asF(a) op asF(b)) : fromD(asD(a) op asD(b))
    case K::FAdd: FOP(+);
    case K::FSub: FOP(-);
    case K::FMul: FOP(*);
    case K::FDiv: FOP(/);
#undef FOP
    case K::FNeg: return a ^ ((u128)1 << (w - 1));
    case K::FAbs: return a & ~((u128)1 << (w - 1)) & m;
    case K::FSqrt: return aw == 32 ? fromF(sqrtf(asF(a))) : fromD(sqrt(asD(a)));
#define FCM(op) return aw == 32 ? (asF(a) op asF(b)) : (asD(a) op asD(b))
    case K::FOeq: FCM(==);
    case K::FOlt: FCM(<);
    case K::FOle: FCM(<=);
#undef FCM
    case K::FUno:
      return aw == 32 ? (std::isnan(asF(a)) || std::isnan(asF(b)))
                      : (std::isnan(asD(a)) || std::isnan(asD(b)));
    case K::FExt: return fromD((double)asF(a));
    case K::FTrunc: return fromF((float)asD(a));
    case K::FToS: return (u128)(i128)(int64_t)(aw == 32 ? (double)asF(a) : asD(a)) & m;
    case K::FToU: {
      double d = aw == 32 ? (double)asF(a) : asD(a);
      return (u128)(d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d) & m;
    }
    case K::SToF: {
      int64_t x = (int64_t)sx128(a, aw);
      return w == 32 ? fromF((float)x) : fromD((double)x);
    }
    case K::UToF: {
      uint64_t x = (uint64_t)a;
      return w == 32 ? fromF((float)x) : fromD((double)x);
    }
    case K::FKey: return (a >> (w - 1)) & 1 ? ~a & m : a ^ ((u128)1 << (w - 1));
    default: break;
  }
  fprintf(stderr, "evalConstOp: bad op %d\n", (int)k);
  abort();
}

u128 evalExpr(E root, const Model &m, uint64_t ep) {
  if (root->k == K::Const) return root->val;
  if (root->epoch == ep) return root->ev;
  // iterative for deep DAGs
  std::vector<E> st;
  st.push_back(root);
  while (!st.empty()) {
    E e = st.back();
    if (e->k == K::Const) { e->epoch = ep; e->ev = e->val; st.pop_back(); continue; }
    if (e->epoch == ep) { st.pop_back(); continue; }
    if (e->k == K::Sym) {
      size_t i = (size_t)e->val;
      e->ev = i < m.size() ? m[i] : 0;
      e->epoch = ep;
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (E ch : {e->a, e->b, e->c})
      if (ch && ch->epoch != ep) {
        if (ch->k == K::Const) { ch->epoch = ep; ch->ev = ch->val; continue; }
        st.push_back(ch);
        ready = false;
      }
    if (!ready) continue;
    st.pop_back();
    u128 a = e->a ? e->a->ev : 0, b = e->b ? e->b->ev : 0, c = e->c ? e->c->ev : 0;
    if (e->k == K::Concat) e->ev = (a << e->b->w) | b;
    else e->ev = evalConstOp(e->k, e->w, e->a->w, a, b, c, e->aux);
    e->epoch = ep;
  }
  return root->ev;
}

// ---- exact small fixed-point values held in floats ----
// A float whose value is I * 2^s with |I| within the mantissa can be added,
// compared and converted exactly on the integer I; the solver then never sees
// floating point.
static bool srange(E e, int64_t &lo, int64_t &hi, int depth = 0) {
  if (e->w > 64 || depth > 200) return false;
  static std::unordered_map<E, std::pair<int64_t, int64_t>> memo;
  if (e->isConst()) { lo = hi = sx(e->lo(), e->w); return true; }
  auto it = memo.find(e);
  if (it != memo.end()) { lo = it->second.first; hi = it->second.second; return true; }
  int64_t l1, h1, l2, h2;
  lo = e->w == 64 ? INT64_MIN : -((int64_t)1 << (e->w - 1));
  hi = e->w == 64 ? INT64_MAX : ((int64_t)1 << (e->w - 1)) - 1;
  const int64_t B = (int64_t)1 << 61;
  auto small = [&](int64_t a, int64_t b) { return a > -B && b < B; };
  if (e->umax <= (uint64_t)hi) { lo = (int64_t)e->umin; hi = (int64_t)e->umax; }
  else if (e->k == K::SExt) srange(e->a, lo, hi, depth + 1);
  else if (e->k == K::Add || e->k == K::Sub || e->k == K::Mul || e->k == K::Shl) {
    if (srange(e->a, l1, h1, depth + 1) && srange(e->b, l2, h2, depth + 1) && small(l1, h1) && small(l2, h2)) {
      i128 nl, nh;
      if (e->k == K::Add) { nl = (i128)l1 + l2; nh = (i128)h1 + h2; }
      else if (e->k == K::Sub) { nl = (i128)l1 - h2; nh = (i128)h1 - l2; }
      else {
        if (e->k == K::Shl) {
          if (l2 != h2 || l2 < 0 || l2 > 60) goto done;
          l2 = h2 = (int64_t)1 << l2;
        }
        i128 c[4] = {(i128)l1 * l2, (i128)l1 * h2, (i128)h1 * l2, (i128)h1 * h2};
        nl = nh = c[0];
        for (auto x : c) { if (x < nl) nl = x; if (x > nh) nh = x; }
      }
      if (nl >= lo && nh <= hi) { lo = (int64_t)nl; hi = (int64_t)nh; }
    }
  } else if (e->k == K::Concat && e->b->isConst() && e->b->w < 32 && !(e->b->val >> (e->b->w))) {
    // a shifted value
    if (srange(e->a, l1, h1, depth + 1) && small(l1, h1)) {
      i128 m = (i128)1 << e->b->w, nl = l1 * m + (i128)e->b->lo(), nh = h1 * m + (i128)e->b->lo();
      if (nl >= lo && nh <= hi) { lo = (int64_t)nl; hi = (int64_t)nh; }
    }
  } else if (e->k == K::Ite) {
    if (srange(e->b, l1, h1, depth + 1) && srange(e->c, l2, h2, depth + 1)) {
      lo = l1 < l2 ? l1 : l2;
      hi = h1 > h2 ? h1 : h2;
    }
  }
done:
  memo[e] = {lo, hi};
  return true;
}

struct Fix { E I; int s; int64_t lo, hi; };

static int64_t mant(unsigned w) { return w == 32 ? (int64_t)1 << 24 : (int64_t)1 << 53; }

static bool fixOf(E e, Fix &f) {
  if (e->w != 32 && e->w != 64) return false;
  if (e->isConst()) {
    double d = e->w == 32 ? (double)asF(e->val) : asD(e->val);
    if (!std::isfinite(d) || (d == 0 && std::signbit(d))) return false;
    if (d == 0) { f = {mkConst(0, 64), 0, 0, 0}; return true; }
    int ex;
    double m = frexp(d, &ex);
    int64_t I = (int64_t)ldexp(m, 53);
    int s = ex - 53;
    while (!(I & 1)) { I >>= 1; ++s; }
    while (s > 0 && (I < 0 ? -I : I) < mant(e->w) / 2) { I *= 2; --s; }
    f = {mkConst((u128)(i128)I, 64), s, I, I};
    return true;
  }
  if (e->k == K::SToF || e->k == K::UToF) {
    E x = e->a;
    if (x->w > 64) return false;
    int64_t lo, hi;
    if (e->k == K::UToF) {
      if (x->umax > (uint64_t)mant(e->w)) return false;
      lo = x->umin; hi = x->umax;
      x = mkZExt(x, 64);
    } else {
      if (!srange(x, lo, hi)) return false;
      x = mkSExt(x, 64);
    }
    if (lo < -mant(e->w) || hi > mant(e->w)) return false;
    f = {x, 0, lo, hi};
    return true;
  }
  if (e->k == K::FMul && e->a->k == K::SToF && e->b->isConst()) {
    // only the form made by unfix()
    double d = e->w == 32 ? (double)asF(e->b->val) : asD(e->b->val);
    int ex;
    if (!(d > 0) || frexp(d, &ex) != 0.5) return false;
    if (!fixOf(e->a, f)) return false;
    f.s += ex - 1;
    return true;
  }
  return false;
}

static bool align(Fix &f, int s) {
  if (f.s == s) return true;
  if (f.I->isConst() && f.lo == 0) { f.s = s; return true; }
  int d = f.s - s;
  if (d < 0 || d > 60) return false;
  const int64_t lim = (int64_t)1 << 60;
  if (f.hi > (lim >> d) || f.lo < -(lim >> d)) return false;
  f.I = mkBin(K::Mul, f.I, mkConst((u128)1 << d, 64));
  f.lo *= (int64_t)1 << d;
  f.hi *= (int64_t)1 << d;
  f.s = s;
  return true;
}

static bool align2(Fix &a, Fix &b) {
  int s = a.s < b.s ? a.s : b.s;
  if (a.I->isConst() && a.lo == 0) s = b.s;
  if (b.I->isConst() && b.lo == 0) s = a.s;
  return align(a, s) && align(b, s);
}

// the float for f, or null when it could round or leave the normal range
static E unfix(const Fix &f, unsigned w) {
  if (f.lo < -mant(w) || f.hi > mant(w)) return nullptr;
  if (w == 32 ? (f.s < -100 || f.s > 60) : (f.s < -900 || f.s > 600)) return nullptr;
  if (f.I->isConst()) {
    double d = ldexp((double)f.lo, f.s);
    return mkConst(w == 32 ? fromF((float)d) : fromD(d), w);
  }
  E r = mk(K::SToF, w, 0, f.I, 0, 0, 0);
  if (f.s == 0) return r;
  double d = ldexp(1.0, f.s);
  return mk(K::FMul, w, 0, r, mkConst(w == 32 ? fromF((float)d) : fromD(d), w), 0, 0);
}

static E fixBin(K k, E a, E b) {
  Fix x, y;
  if (a->isConst() && b->isConst()) return nullptr;
  bool fx = fixOf(a, x), fy = fixOf(b, y);
  if (k == K::FUno) return fx && fy ? mkBool(false) : nullptr;
  if (k == K::FOeq || k == K::FOlt || k == K::FOle) {
    if (fx && fy && align2(x, y)) {
      // no wider than the values
      int64_t lo = x.lo < y.lo ? x.lo : y.lo, hi = x.hi > y.hi ? x.hi : y.hi;
      unsigned n = 2;
      while (n < 64 && (lo < -((int64_t)1 << (n - 1)) || hi >= ((int64_t)1 << (n - 1)))) ++n;
      return mkBin(k == K::FOeq ? K::Eq : k == K::FOlt ? K::Slt : K::Sle, mkExtract(x.I, 0, n), mkExtract(y.I, 0, n));
    }
    // decided by the ranges alone
    auto bound = [](E e, bool f, const Fix &v, double &lo, double &hi) {
      if (f) { lo = ldexp((double)v.lo, v.s); hi = ldexp((double)v.hi, v.s); return true; }
      if (!e->isConst()) return false;
      lo = hi = e->w == 32 ? (double)asF(e->val) : asD(e->val);
      return !std::isnan(lo);
    };
    double l1, h1, l2, h2;
    if (!bound(a, fx, x, l1, h1) || !bound(b, fy, y, l2, h2)) return nullptr;
    if (h1 < l2) return mkBool(k != K::FOeq);
    if (l1 > h2) return mkBool(false);
    return nullptr;
  }
  if (!fx || !fy) return nullptr;
  Fix r;
  if (k == K::FAdd || k == K::FSub) {
    if (!align2(x, y)) return nullptr;
    r.s = x.s;
    if (x.I->isConst() && x.lo == 0) r.s = y.s;
    if (k == K::FAdd) { r.lo = x.lo + y.lo; r.hi = x.hi + y.hi; }
    else { r.lo = x.lo - y.hi; r.hi = x.hi - y.lo; }
    if (r.lo < -mant(a->w) || r.hi > mant(a->w)) return nullptr;
    r.I = mkBin(k == K::FAdd ? K::Add : K::Sub, x.I, y.I);
    return unfix(r, a->w);
  }
  if (k == K::FMul) {
    if (x.lo < 0 && y.lo <= 0) return nullptr;  // could make -0
    if (y.lo < 0 && x.lo <= 0) return nullptr;
    i128 c[4] = {(i128)x.lo * y.lo, (i128)x.lo * y.hi, (i128)x.hi * y.lo, (i128)x.hi * y.hi};
    i128 lo = c[0], hi = c[0];
    for (auto v : c) { if (v < lo) lo = v; if (v > hi) hi = v; }
    if (lo < -mant(a->w) || hi > mant(a->w)) return nullptr;
    r.lo = (int64_t)lo; r.hi = (int64_t)hi;
    r.s = x.s + y.s;
    r.I = mkBin(K::Mul, x.I, y.I);
    return unfix(r, a->w);
  }
  return nullptr;
}

static bool isFloatShape(E e) {
  return e->k == K::SToF || e->k == K::UToF || (e->k == K::FMul && e->a->k == K::SToF);
}

static u128 signMask(unsigned w) { return (u128)1 << (w - 1); }

// the float whose order key e is
static E keyed(E e) {
  Fix f;
  if (e->w != 32 && e->w != 64) return nullptr;
  if (e->k == K::FKey) return e->a;
  if (e->isConst()) {
    u128 b = (e->val & signMask(e->w)) ? e->val ^ signMask(e->w) : ~e->val & maskW(e->w);
    E c = mkConst(b, e->w);
    return fixOf(c, f) ? c : nullptr;
  }
  if (e->k == K::FNeg && isFloatShape(e->a) && fixOf(e->a, f) && f.lo >= 0) return e->a;
  if (isFloatShape(e) && fixOf(e, f) && f.hi < 0) {
    Fix r{mkBin(K::Sub, mkConst(0, 64), f.I), f.s, -f.hi, -f.lo};
    return unfix(r, e->w);
  }
  if (e->k == K::Xor && e->b->isConst() && e->b->val == maskW(e->w) && isFloatShape(e->a) && fixOf(e->a, f) && f.hi < 0) return e->a;
  return nullptr;
}

E mkZExt(E e, unsigned w) {
  if (e->w == w) return e;
  return mkConcat(mkConst(0, w - e->w), e);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  // adjacent extracts of one expression
  auto base = [](E x, E &b, unsigned &l) {
    if (x->k == K::Extract) { b = x->a; l = x->aux; } else { b = x; l = 0; }
  };
  E b1, b2; unsigned l1, l2;
  base(hi, b1, l1); base(lo, b2, l2);
  if (b1 == b2 && l1 == l2 + lo->w && !(hi->k != K::Extract)) return mkExtract(b1, l2, w);
  // the low part of sums and products is kept narrow: join it with the rest
  if (hi->k == K::Extract && hi->aux == lo->w && lo->k == hi->a->k &&
      (lo->k == K::Add || lo->k == K::Sub || lo->k == K::Mul) && mkExtract(hi->a, 0, lo->w) == lo)
    return mkExtract(hi->a, 0, w);
  if (lo->k == K::Concat && hi->k == K::Extract && hi->aux == lo->a->w && lo->a->k == hi->a->k &&
      (lo->a->k == K::Add || lo->a->k == K::Sub || lo->a->k == K::Mul) && mkExtract(hi->a, 0, lo->a->w) == lo->a)
    return mkConcat(mkExtract(hi->a, 0, hi->aux + hi->w), lo->b);
  if (lo->k == K::Concat) {
    // concat(x, concat(y, z)) -> try to join x,y
    E y = lo->a;
    E by; unsigned ly;
    base(y, by, ly);
    if ((hi->isConst() && y->isConst()) ||
        (hi->k == K::Extract && b1 == by && l1 == ly + y->w))
      return mkConcat(mkConcat(hi, y), lo->b);
  }
  // right-assoc normal form: concat(concat(a,b),c) -> concat(a,concat(b,c))
  if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  return mk(K::Concat, w, 0, hi, lo, 0, 0);
}

E mkExtract(E e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (e->isConst()) return mkConst(e->val >> lo, w);
  if (w == 1 && lo + 1 == e->w) {
    Fix f;
    if (isFloatShape(e) && fixOf(e, f)) {
      if (f.lo >= 0) return mkBool(false);
      if (f.hi < 0) return mkBool(true);
      return mkExtract(f.I, 63, 1);
    }
    if (e->k == K::FNeg || e->k == K::FKey) return mkNot(mkExtract(e->a, lo, 1));
  }
  switch (e->k) {
    case K::Extract: return mkExtract(e->a, e->aux + lo, w);
    case K::Concat: {
      unsigned p = e->b->w;
      if (lo >= p) return mkExtract(e->a, lo - p, w);
      if (lo + w <= p) return mkExtract(e->b, lo, w);
      return mkConcat(mkExtract(e->a, 0, lo + w - p), mkExtract(e->b, lo, p - lo));
    }
    case K::SExt:
      if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
      if (lo < e->a->w) return mkSExt(mkExtract(e->a, lo, e->a->w - lo), w);
      return mkSExt(mkExtract(e->a, e->a->w - 1, 1), w);
    case K::And: case K::Or: case K::Xor:
      return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case K::Add: case K::Sub: case K::Mul:
      if (lo == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
      break;
    case K::Ite:
      if (e->b->isConst() || e->c->isConst() || e->b->k == K::Concat || e->c->k == K::Concat)
        return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
      break;
    default: break;
  }
  // high bits known zero
  if (e->w <= 64 && lo < 64 && (e->umax >> lo) == 0) return mkConst(0, w);
  return mk(K::Extract, w, lo, e, 0, 0, 0);
}

E mkSExt(E e, unsigned w) {
  if (e->w == w) return e;
  if (e->isConst()) return mkConst((u128)sx128(e->val, e->w), w);
  if (e->w <= 64 && !((e->umax >> (e->w - 1)) & 1)) return mkZExt(e, w);
  if (e->k == K::SExt) return mkSExt(e->a, w);
  if (e->k == K::Ite && (e->b->isConst() || e->c->isConst()))
    return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
  return mk(K::SExt, w, 0, e, 0, 0, 0);
}

E mkNot(E a) {
  if (a->isConst()) return mkBool(!a->val);
  switch (a->k) {
    case K::Not: return a->a;
    case K::Ult: return mkBin(K::Ule, a->b, a->a);
    case K::Ule: return mkBin(K::Ult, a->b, a->a);
    case K::Slt: return mkBin(K::Sle, a->b, a->a);
    case K::Sle: return mkBin(K::Slt, a->b, a->a);
    default: break;
  }
  return mk(K::Not, 1, 0, a, 0, 0, 0);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->val ? c : mkNot(c);
    if (a->isConst()) return a->val ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
    if (b->isConst()) return b->val ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
  }
  if (c->k == K::Not) return mkIte(c->a, b, a);
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  // common zero/hi parts
  if (a->k == K::Concat && b->k == K::Concat && a->a == b->a && a->b->w == b->b->w)
    return mkConcat(a->a, mkIte(c, a->b, b->b));
  if (a->k == K::Concat && a->a->isConst() && b->isConst() &&
      (b->val >> a->b->w) == a->a->val)
    return mkConcat(a->a, mkIte(c, a->b, mkExtract(b, 0, a->b->w)));
  if (b->k == K::Concat && b->a->isConst() && a->isConst() &&
      (a->val >> b->b->w) == b->a->val)
    return mkConcat(b->a, mkIte(c, mkExtract(a, 0, b->b->w), b->b));
  if (isFloatShape(a) || isFloatShape(b)) {
    Fix x, y;
    if (fixOf(a, x) && fixOf(b, y) && align2(x, y)) {
      Fix r{mkIte(c, x.I, y.I), x.I->isConst() && x.lo == 0 ? y.s : x.s, x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi};
      if (E e = unfix(r, a->w)) return e;
    }
  }
  if ((a->w == 32 || a->w == 64) && a->k == K::Xor && a->b->isConst() && a->b->val == maskW(a->w) && isFloatShape(a->a)) {
    E x = a->a;
    Fix f;
    if (((b->k == K::FNeg && b->a == x) || (b->k == K::Xor && b->a == x && b->b->isConst() && b->b->val == signMask(a->w))) &&
        fixOf(x, f) && mkExtract(x, a->w - 1, 1) == c)
      return mk(K::FKey, a->w, 0, x, 0, 0, 0);
  }
  return mk(K::Ite, a->w, 0, c, a, b, 0);
}

E mkUn(K k, E a, unsigned w) {
  if (a->isConst()) return mkConst(evalConstOp(k, w, a->w, a->val, 0, 0, 0), w);
  if (k == K::Not) return mkNot(a);
  if (k == K::FNeg && a->k == K::FNeg) return a->a;
  if (isFloatShape(a)) {
    Fix f;
    if (k == K::FNeg && fixOf(a, f) && (f.lo > 0 || f.hi < 0)) {
      Fix r{mkBin(K::Sub, mkConst(0, 64), f.I), f.s, -f.hi, -f.lo};
      if (E e = unfix(r, w)) return e;
    }
    if ((k == K::FExt || k == K::FTrunc) && fixOf(a, f))
      if (E e = unfix(f, w)) return e;
    if (k == K::FToS && fixOf(a, f) && f.s == 0) return w <= 64 ? mkExtract(f.I, 0, w) : mkSExt(f.I, w);
  }
  return mk(k, w, 0, a, 0, 0, 0);
}

static bool isZero(E e) { return e->isConst() && e->val == 0; }
static bool isOnes(E e) { return e->isConst() && e->val == maskW(e->w); }

// number of maximal runs of equal bits in a constant
static int runs(u128 v, unsigned w) {
  int r = 1;
  for (unsigned i = 1; i < w; ++i)
    if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) ++r;
  return r;
}

static bool hasConstPart(E e) {
  return e->k == K::Concat && (e->a->isConst() || e->b->isConst() || hasConstPart(e->b));
}

// order of keys, alone or above constant low bits
static E keyLess(E a, E b, bool orEq) {
  unsigned w = a->w;
  if (w != 32 && w != 64) return nullptr;
  E ka = a, kb = b, la = nullptr, lb = nullptr;
  if (w == 64 && (a->k == K::Concat || b->k == K::Concat)) {
    ka = mkExtract(a, 32, 32);
    kb = mkExtract(b, 32, 32);
    la = mkExtract(a, 0, 32);
    lb = mkExtract(b, 0, 32);
    if (!la->isConst() || !lb->isConst()) return nullptr;
    orEq = orEq ? la->val <= lb->val : la->val < lb->val;
  }
  if (ka->isConst() && kb->isConst()) return nullptr;
  E x = keyed(ka);
  if (!x) return nullptr;
  E y = keyed(kb);
  if (!y) return nullptr;
  return mkBin(orEq ? K::FOle : K::FOlt, x, y);
}

// sums on both sides of an equation: drop the terms they share
static void sumLeaves(E e, bool neg, std::vector<std::pair<E, int>> &v, u128 &c, int &budget) {
  if (--budget < 0) return;
  if (e->isConst()) { c = neg ? c - e->val : c + e->val; return; }
  if (e->k == K::Add || e->k == K::Sub) {
    sumLeaves(e->a, neg, v, c, budget);
    sumLeaves(e->b, e->k == K::Sub ? !neg : neg, v, c, budget);
    return;
  }
  for (auto &p : v)
    if (p.first == e) { p.second += neg ? -1 : 1; return; }
  v.push_back({e, neg ? -1 : 1});
}
static bool cancelSums(E a, E b, E &x, E &y) {
  if (a->w > 64) return false;
  if (!(a->k == K::Add || a->k == K::Sub) || !(b->k == K::Add || b->k == K::Sub)) return false;
  std::vector<std::pair<E, int>> va, vb;
  u128 ca = 0, cb = 0;
  int budget = 400;
  sumLeaves(a, false, va, ca, budget);
  sumLeaves(b, false, vb, cb, budget);
  if (budget < 0) return false;
  size_t shared = 0;
  for (auto &p : vb)
    for (auto &q : va)
      if (p.first == q.first) { ++shared; q.second -= p.second; p.second = 0; }
  if (!shared) return false;
  unsigned w = a->w;
  x = mkConst(0, w);
  y = mkConst((cb - ca) & maskW(w), w);
  auto put = [&](E e, int n) {
    for (; n > 0; --n) x = mkBin(K::Add, x, e);
    for (; n < 0; ++n) y = mkBin(K::Add, y, e);
  };
  for (auto &p : va) if (std::abs(p.second) > 8) return false;
  for (auto &p : vb) if (std::abs(p.second) > 8) return false;
  for (auto &p : va) put(p.first, p.second);
  for (auto &p : vb) put(p.first, -p.second);
  return true;
}

E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) {
    fprintf(stderr, "width mismatch %d: %d vs %d\n", (int)k, a->w, b->w);
    abort();
  }
  bool pred = k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle ||
              k == K::FOeq || k == K::FOlt || k == K::FOle || k == K::FUno;
  unsigned rw = pred ? 1 : w;
  if (a->isConst() && b->isConst() &&
      !((k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) && b->val == 0))
    return mkConst(evalConstOp(k, rw, w, a->val, b->val, 0, 0), rw);
  if ((k >= K::FAdd && k <= K::FMul) || (k >= K::FOeq && k <= K::FUno))
    if (isFloatShape(a) || isFloatShape(b))
      if (E e = fixBin(k, a, b)) return e;
  // canonical order for commutative ops: const right, else smaller id left
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  switch (k) {
    case K::Add:
      if (isZero(b)) return a;
      if (w == 1) return mkBin(K::Xor, a, b);
      if (b->isConst() && a->k == K::Add && a->b->isConst())
        return mkBin(K::Add, a->a, mkConst(a->b->val + b->val, w));
      if (a->k == K::Add && a->b->isConst() && !b->isConst())
        return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
      if (b->k == K::Add && b->b->isConst())
        return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
      // (x - y) + y
      if (a->k == K::Sub && a->b == b) return a->a;
      if (b->k == K::Sub && b->b == a) return b->a;
      if (b->isConst() && a->k == K::Ite && a->b->isConst() && a->c->isConst())
        return mkIte(a->a, mkBin(K::Add, a->b, b), mkBin(K::Add, a->c, b));
      // disjoint concat + const whose low part is zero
      if (b->isConst() && a->k == K::Concat && (b->val & maskW(a->b->w)) == 0)
        return mkConcat(mkBin(K::Add, a->a, mkExtract(b, a->b->w, a->a->w)), a->b);
      break;
    case K::Sub:
      if (a == b) return mkConst(0, w);
      if (isZero(b)) return a;
      if (w == 1) return mkBin(K::Xor, a, b);
      if (b->isConst()) return mkBin(K::Add, a, mkConst(-b->val, w));
      if (b->k == K::Add && b->b->isConst())
        return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkConst(-b->b->val, w));
      if (a->k == K::Add && a->b->isConst())
        return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
      if (a->k == K::Add && a->a == b) return a->b;
      if (a->k == K::Add && a->b == b) return a->a;
      break;
    case K::Mul:
      if (isZero(b)) return b;
      if (b->isConst() && b->val == 1) return a;
      if (w == 1) return mkBin(K::And, a, b);
      if (b->isConst() && (b->val & (b->val - 1)) == 0) {
        unsigned s = 0;
        while (!((b->val >> s) & 1)) ++s;
        return mkBin(K::Shl, a, mkConst(s, w));
      }
      if (b->isConst() && a->k == K::Mul && a->b->isConst())
        return mkBin(K::Mul, a->a, mkConst(a->b->val * b->val, w));
      break;
    case K::UDiv:
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) {
        unsigned s = 0;
        while (!((b->val >> s) & 1)) ++s;
        return mkBin(K::LShr, a, mkConst(s, w));
      }
      break;
    case K::URem:
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0)
        return mkBin(K::And, a, mkConst(b->val - 1, w));
      if (w <= 64 && b->isConst() && b->val && a->umax < b->lo()) return a;
      break;
    case K::And:
      if (a == b) return a;
      if (isZero(b)) return b;
      if (isOnes(b)) return a;
      if (w == 1) {
        if (a == mkNot(b)) return mkBool(false);
        if (a->k == K::And && (a->a == b || a->b == b)) return a;
        if (b->k == K::And && (b->a == a || b->b == a)) return b;
        break;
      }
      if (b->isConst() && runs(b->val, w) <= 4) {
        // split by runs
        E r = nullptr;
        unsigned i = 0;
        while (i < w) {
          unsigned j = i;
          bool bit = (b->val >> i) & 1;
          while (j < w && (((b->val >> j) & 1) != 0) == bit) ++j;
          E p = bit ? mkExtract(a, i, j - i) : mkConst(0, j - i);
          r = r ? mkConcat(p, r) : p;
          i = j;
        }
        return r;
      }
      break;
    case K::Or:
      if (a == b) return a;
      if (isZero(b)) return a;
      if (isOnes(b)) return b;
      if (w == 1) {
        if (a == mkNot(b)) return mkBool(true);
        if (a->k == K::Or && (a->a == b || a->b == b)) return a;
        if (b->k == K::Or && (b->a == a || b->b == a)) return b;
        break;
      }
      if (b->isConst() && runs(b->val, w) <= 4) {
        E r = nullptr;
        unsigned i = 0;
        while (i < w) {
          unsigned j = i;
          bool bit = (b->val >> i) & 1;
          while (j < w && (((b->val >> j) & 1) != 0) == bit) ++j;
          E p = bit ? mkConst(maskW(j - i), j - i) : mkExtract(a, i, j - i);
          r = r ? mkConcat(p, r) : p;
          i = j;
        }
        return r;
      }
      break;
    case K::Xor:
      if (a == b) return mkConst(0, w);
      if (isZero(b)) return a;
      if (w == 1 && isOnes(b)) return mkNot(a);
      if (b->isConst() && a->k == K::Xor && a->b->isConst()) return mkBin(K::Xor, a->a, mkConst(a->b->val ^ b->val, w));
      if (b->isConst() && b->val == signMask(w) && (w == 32 || w == 64)) {
        if (a->k == K::FNeg) return a->a;
        Fix f;
        if (isFloatShape(a) && fixOf(a, f) && (f.lo > 0 || f.hi < 0)) return mkUn(K::FNeg, a, w);
      }
      for (int o = 0; o < 2; ++o) {
        E x = o ? b : a, y = o ? a : b;
        if (x->k == K::FKey && y->k == K::Ite && y->b->isConst() && y->b->val == maskW(w) && y->c->isConst() &&
            y->c->val == signMask(w) && y->a == mkExtract(x->a, w - 1, 1))
          return x->a;
      }
      break;
    case K::Shl:
      if (isZero(b)) return a;
      if (b->isConst()) {
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      break;
    case K::LShr:
      if (isZero(b)) return a;
      if (b->isConst()) {
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      break;
    case K::AShr:
      if (isZero(b)) return a;
      if (b->isConst()) {
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case K::Eq:
      if (a == b) return mkBool(true);
      if (w == 1) {
        if (b->isConst()) return b->val ? a : mkNot(a);
        if (a == mkNot(b)) return mkBool(false);
      }
      if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkBool(false);
      if ((isFloatShape(a) || isFloatShape(b)) && w > 1) {
        // values held exactly have only one bit pattern
        Fix x, y;
        if (fixOf(a, x) && fixOf(b, y) && align2(x, y)) return mkBin(K::Eq, x.I, y.I);
      }
      if (a->k == K::FKey || b->k == K::FKey)
        if (E x = keyed(a))
          if (E y = keyed(b)) return mkBin(K::Eq, x, y);
      if (b->isConst()) {
        if (a->k == K::Concat)
          return mkBin(K::And, mkBin(K::Eq, a->a, mkExtract(b, a->b->w, a->a->w)),
                       mkBin(K::Eq, a->b, mkExtract(b, 0, a->b->w)));
        if (a->k == K::SExt) {
          E lo = mkExtract(b, 0, a->a->w);
          if (mkSExt(lo, w) != b) return mkBool(false);
          return mkBin(K::Eq, a->a, lo);
        }
        if (a->k == K::Add && a->b->isConst())
          return mkBin(K::Eq, a->a, mkConst(b->val - a->b->val, w));
        if (a->k == K::Xor && a->b->isConst())
          return mkBin(K::Eq, a->a, mkConst(b->val ^ a->b->val, w));
        if (a->k == K::Ite && (a->b->isConst() || a->c->isConst()))
          return mkIte(a->a, mkBin(K::Eq, a->b, b), mkBin(K::Eq, a->c, b));
        if (a->k == K::Sub && isZero(b)) return mkBin(K::Eq, a->a, a->b);
      } else {
        E sx, sy;
        if (cancelSums(a, b, sx, sy)) return mkBin(K::Eq, sx, sy);
        if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
          return mkBin(K::And, mkBin(K::Eq, a->a, b->a), mkBin(K::Eq, a->b, b->b));
        if (a->k == K::Concat && b->k == K::Concat) {
          unsigned p = std::min(a->b->w, b->b->w);
          return mkBin(K::And, mkBin(K::Eq, mkExtract(a, p, w - p), mkExtract(b, p, w - p)),
                       mkBin(K::Eq, mkExtract(a, 0, p), mkExtract(b, 0, p)));
        }
        if (a->k == K::Add && b->k == K::Add && a->b == b->b) return mkBin(K::Eq, a->a, b->a);
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w)
          return mkBin(K::Eq, a->a, b->a);
      }
      break;
    case K::Ult:
      if (a == b) return mkBool(false);
      if (w <= 64) {
        if (a->umax < b->umin) return mkBool(true);
        if (a->umin >= b->umax) return mkBool(false);
      }
      if (isZero(b)) return mkBool(false);
      if (b->isConst() && b->val == 1) return mkBin(K::Eq, a, mkConst(0, w));
      if (isZero(a)) return mkNot(mkBin(K::Eq, b, a));
      if (a->k == K::Concat && isZero(a->a)) {
        if (b->isConst()) {
          if (b->val >> a->b->w) return mkBool(true);
          return mkBin(K::Ult, a->b, mkExtract(b, 0, a->b->w));
        }
        if (b->k == K::Concat && isZero(b->a)) {
          unsigned p = std::max(a->b->w, b->b->w);
          if (p < w) return mkBin(K::Ult, mkExtract(a, 0, p), mkExtract(b, 0, p));
        }
      }
      if (b->k == K::Concat && isZero(b->a) && a->isConst()) {
        if (a->val >> b->b->w) return mkBool(false);
        return mkBin(K::Ult, mkExtract(a, 0, b->b->w), b->b);
      }
      if (b->isConst() && a->k == K::Ite && a->b->isConst() && a->c->isConst())
        return mkIte(a->a, mkBin(K::Ult, a->b, b), mkBin(K::Ult, a->c, b));
      if (E e = keyLess(a, b, false)) return e;
      break;
    case K::Ule:
      if (a == b) return mkBool(true);
      if (!a->isConst() && !b->isConst())
        if (E e = keyLess(a, b, true)) return e;
      if (w <= 64) {
        if (a->umax <= b->umin) return mkBool(true);
        if (a->umin > b->umax) return mkBool(false);
      }
      if (isZero(a)) return mkBool(true);
      if (isOnes(b)) return mkBool(true);
      if (b->isConst()) return mkBin(K::Ult, a, mkConst(b->val + 1, w));
      if (a->isConst()) return mkBin(K::Ult, mkConst(a->val - 1, w), b);
      if (a->k == K::Concat && isZero(a->a) && b->k == K::Concat && isZero(b->a)) {
        unsigned p = std::max(a->b->w, b->b->w);
        if (p < w) return mkBin(K::Ule, mkExtract(a, 0, p), mkExtract(b, 0, p));
      }
      break;
    case K::Slt:
      if (a == b) return mkBool(false);
      if (w <= 64 && w > 1) {
        uint64_t half = 1ull << (w - 1);
        bool an = a->umax < half, bn = b->umax < half;
        bool ang = a->umin >= half, bng = b->umin >= half;
        if (an && bn) return mkBin(K::Ult, a, b);
        if (an && bng) return mkBool(false);
        if (ang && bn) return mkBool(true);
        if (ang && bng) return mkBin(K::Ult, a, b);
      }
      if (a->k == K::SExt && b->isConst()) {
        unsigned iw = a->a->w;
        i128 v = sx128(b->val, w), lim = (i128)1 << (iw - 1);
        if (v >= lim) return mkBool(true);
        if (v < -lim + 0) return mkBool(false);
        return mkBin(K::Slt, a->a, mkConst((u128)v, iw));
      }
      if (b->k == K::SExt && a->isConst()) {
        unsigned iw = b->a->w;
        i128 v = sx128(a->val, w), lim = (i128)1 << (iw - 1);
        if (v >= lim - 0) return mkBool(false);
        if (v < -lim) return mkBool(true);
        return mkBin(K::Slt, mkConst((u128)v, iw), b->a);
      }
      // sign test
      if (isZero(b)) return mkExtract(a, w - 1, 1);
      break;
    case K::Sle:
      if (a == b) return mkBool(true);
      if (w <= 64 && w > 1) {
        uint64_t half = 1ull << (w - 1);
        bool an = a->umax < half, bn = b->umax < half;
        bool ang = a->umin >= half, bng = b->umin >= half;
        if (an && bn) return mkBin(K::Ule, a, b);
        if (an && bng) return mkBool(false);
        if (ang && bn) return mkBool(true);
        if (ang && bng) return mkBin(K::Ule, a, b);
      }
      if (b->isConst() && b->val != (maskW(w) >> 1)) return mkBin(K::Slt, a, mkConst(b->val + 1, w));
      if (a->isConst() && a->val != ((u128)1 << (w - 1)))
        return mkBin(K::Slt, mkConst(a->val - 1, w), b);
      break;
    default: break;
  }
  // bitwise ops over concats with constant pieces
  if ((k == K::And || k == K::Or || k == K::Xor) && w > 1) {
    E cc = hasConstPart(a) ? a : hasConstPart(b) ? b : nullptr;
    if (cc) {
      unsigned p = cc->b->w;
      return mkConcat(mkBin(k, mkExtract(a, p, w - p), mkExtract(b, p, w - p)),
                      mkBin(k, mkExtract(a, 0, p), mkExtract(b, 0, p)));
    }
  }
  return mk(k, rw, 0, a, b, 0, 0);
}

std::string exprStr(E e, int d) {
  char buf[64];
  if (e->k == K::Const) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long)e->lo(), e->w); return buf; }
  if (e->k == K::Sym) { snprintf(buf, 64, "s%u", (unsigned)e->val); return buf; }
  static const char *names[] = {"const","sym","concat","extract","sext","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","not","ite","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","foeq","folt","fole","funo","fext","ftrunc","ftos","ftou","stof","utof","fkey"};
  std::string s = std::string("(") + names[(int)e->k];
  if (e->k == K::Extract) { snprintf(buf, 64, "[%d+%d]", e->aux, e->w); s += buf; }
  if (d <= 0) return s + " ..)";
  for (E c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
  return s + ")";
}
