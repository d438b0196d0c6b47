#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <unordered_map>
#include <unordered_set>

SolverStats gSolver;
static Z3_context ctx;
static Z3_solver slv, intSlv;
static Z3_sort intSort;
static Z3_sort bvSorts[129];
static Z3_sort f32, f64s;
static Z3_ast rne, rtz;

static void errHandler(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

static unsigned gTimeout = 20000;
static unsigned fastMs = getenv("JPPSYM_FAST") ? atoi(getenv("JPPSYM_FAST")) : 250;
static Z3_params slowParams;
static Z3_tactic tacBv, tacFp;
void solverInit(unsigned timeoutMs) {
  gTimeout = timeoutMs;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errHandler);
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  fastMs = std::min(timeoutMs, fastMs);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), fastMs);
  Z3_solver_set_params(ctx, slv, p);
  intSort = Z3_mk_int_sort(ctx);
  intSlv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, intSlv);
  {
    Z3_params q = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, q);
    Z3_params_set_uint(ctx, q, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, intSlv, q);
  }
  slowParams = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, slowParams);
  Z3_params_set_uint(ctx, slowParams, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
  auto keep = [](Z3_tactic t) { Z3_tactic_inc_ref(ctx, t); return t; };
  tacBv = keep(Z3_mk_tactic(ctx, "qfbv"));
  tacFp = keep(Z3_mk_tactic(ctx, "qffpbv"));
  for (int i = 1; i <= 128; ++i) bvSorts[i] = Z3_mk_bv_sort(ctx, i);
  f32 = Z3_mk_fpa_sort_32(ctx);
  f64s = Z3_mk_fpa_sort_64(ctx);
  rne = Z3_mk_fpa_round_nearest_ties_to_even(ctx);
  rtz = Z3_mk_fpa_round_toward_zero(ctx);
}

static bool hasFp(E e) { return e->k >= K::FAdd; }

static Z3_ast tr(E e);
static Z3_ast toFp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, tr(e), e->w == 32 ? f32 : f64s); }
static Z3_ast b2bv(Z3_ast b) {
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bvSorts[1]),
                   Z3_mk_unsigned_int64(ctx, 0, bvSorts[1]));
}
// width-1 expressions are booleans in Z3 when they come from predicates; we
// keep two translations: trB (Bool sort) for width 1, tr (BV sort) otherwise.
static Z3_ast trB(E e);

static Z3_ast constAst(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvSorts[w]);
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bvSorts[w - 64]);
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvSorts[64]);
  return Z3_mk_concat(ctx, hi, lo);
}

static Z3_ast trRaw(E e) {
  switch (e->k) {
    case K::Const: return constAst(e->val, e->w);
    case K::Sym: {
      char nm[32];
      snprintf(nm, 32, "s%u", (unsigned)e->val);
      return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvSorts[8]);
    }
    case K::Concat: return Z3_mk_concat(ctx, tr(e->a), tr(e->b));
    case K::Extract: return Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, tr(e->a));
    case K::SExt: return Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a));
    case K::Add: return Z3_mk_bvadd(ctx, tr(e->a), tr(e->b));
    case K::Sub: return Z3_mk_bvsub(ctx, tr(e->a), tr(e->b));
    case K::Mul: return Z3_mk_bvmul(ctx, tr(e->a), tr(e->b));
    case K::UDiv: return Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b));
    case K::SDiv: return Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b));
    case K::URem: return Z3_mk_bvurem(ctx, tr(e->a), tr(e->b));
    case K::SRem: return Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b));
    case K::And: return Z3_mk_bvand(ctx, tr(e->a), tr(e->b));
    case K::Or: return Z3_mk_bvor(ctx, tr(e->a), tr(e->b));
    case K::Xor: return Z3_mk_bvxor(ctx, tr(e->a), tr(e->b));
    case K::Shl: return Z3_mk_bvshl(ctx, tr(e->a), tr(e->b));
    case K::LShr: return Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b));
    case K::AShr: return Z3_mk_bvashr(ctx, tr(e->a), tr(e->b));
    case K::Ite: return Z3_mk_ite(ctx, trB(e->a), tr(e->b), tr(e->c));
    case K::FAdd: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, toFp(e->a), toFp(e->b)));
    case K::FSub: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, toFp(e->a), toFp(e->b)));
    case K::FMul: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, toFp(e->a), toFp(e->b)));
    case K::FDiv: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, toFp(e->a), toFp(e->b)));
    case K::FNeg: {
      // flip the sign bit: exact for every bit pattern
      Z3_ast x = tr(e->a);
      return Z3_mk_bvxor(ctx, x, constAst((u128)1 << (e->w - 1), e->w));
    }
    case K::FAbs: return Z3_mk_bvand(ctx, tr(e->a), constAst(((u128)1 << (e->w - 1)) - 1, e->w));
    case K::FSqrt: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, rne, toFp(e->a)));
    case K::FExt: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, toFp(e->a), f64s));
    case K::FTrunc: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, toFp(e->a), f32));
    case K::FToS: return Z3_mk_fpa_to_sbv(ctx, rtz, toFp(e->a), e->w);
    case K::FToU: return Z3_mk_fpa_to_ubv(ctx, rtz, toFp(e->a), e->w);
    case K::SToF: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, tr(e->a), e->w == 32 ? f32 : f64s));
    case K::UToF: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, tr(e->a), e->w == 32 ? f32 : f64s));
    case K::FKey: {
      Z3_ast x = tr(e->a), sgn = Z3_mk_extract(ctx, e->w - 1, e->w - 1, x);
      return Z3_mk_ite(ctx, Z3_mk_eq(ctx, sgn, constAst(1, 1)), Z3_mk_bvnot(ctx, x),
                       Z3_mk_bvxor(ctx, x, constAst((u128)1 << (e->w - 1), e->w)));
    }
    default: break;
  }
  fprintf(stderr, "trRaw: bad kind %d w=%d\n", (int)e->k, e->w);
  abort();
}

// z3 cache: e->z3 holds the BV translation for w>1, the Bool one for w==1
static Z3_ast trB(E e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K::Not: r = Z3_mk_not(ctx, trB(e->a)); break;
    case K::And: { Z3_ast v[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_and(ctx, 2, v); break; }
    case K::Or: { Z3_ast v[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_or(ctx, 2, v); break; }
    case K::Xor: r = Z3_mk_xor(ctx, trB(e->a), trB(e->b)); break;
    case K::Ite: r = Z3_mk_ite(ctx, trB(e->a), trB(e->b), trB(e->c)); break;
    case K::Eq:
      r = e->a->w == 1 ? Z3_mk_iff(ctx, trB(e->a), trB(e->b)) : Z3_mk_eq(ctx, tr(e->a), tr(e->b));
      break;
    case K::Ult: r = Z3_mk_bvult(ctx, tr(e->a), tr(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(ctx, tr(e->a), tr(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(ctx, tr(e->a), tr(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(ctx, tr(e->a), tr(e->b)); break;
    case K::FOeq: r = Z3_mk_fpa_eq(ctx, toFp(e->a), toFp(e->b)); break;
    case K::FOlt: r = Z3_mk_fpa_lt(ctx, toFp(e->a), toFp(e->b)); break;
    case K::FOle: r = Z3_mk_fpa_leq(ctx, toFp(e->a), toFp(e->b)); break;
    case K::FUno: {
      Z3_ast v[2] = {Z3_mk_fpa_is_nan(ctx, toFp(e->a)), Z3_mk_fpa_is_nan(ctx, toFp(e->b))};
      r = Z3_mk_or(ctx, 2, v);
      break;
    }
    default:
      // a genuine 1-bit vector operation (Extract, Shl...)
      r = Z3_mk_eq(ctx, trRaw(e), Z3_mk_unsigned_int64(ctx, 1, bvSorts[1]));
  }
  e->z3 = (void *)r;
  return r;
}

static Z3_ast tr(E e) {
  if (e->w == 1) return b2bv(trB(e));
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = trRaw(e);
  e->z3 = (void *)r;
  return r;
}

// ---- linear integer arithmetic ----
// Sums of bytes are hopeless for bit-blasting and trivial for simplex: a
// constraint is translated when every modular sum in it provably does not wrap.
struct Lin {
  std::vector<std::pair<E, i128>> t;  // atoms: bytes and conditional values
  i128 c = 0;
};
struct IntAtom { Z3_ast a; i128 lo, hi; };

static std::unordered_map<E, IntAtom> atomsS, atomsU;
static std::unordered_map<E, Z3_ast> intBools;
static const i128 LIM = (i128)1 << 100;

static bool intBool(E e, Z3_ast &r, int depth);
static bool exactInt(E e, bool sgn, Lin &l, i128 &lo, i128 &hi, int depth);
static Z3_ast intNum(i128 v) {
  char buf[64];
  bool neg = v < 0;
  u128 u = neg ? -(u128)v : (u128)v;
  char *p = buf + 63;
  *p = 0;
  do { *--p = '0' + (int)(u % 10); u /= 10; } while (u);
  if (neg) *--p = '-';
  return Z3_mk_numeral(ctx, p, intSort);
}
static void addTerm(Lin &l, E a, i128 k) {
  for (auto &t : l.t)
    if (t.first == a) { t.second += k; return; }
  l.t.push_back({a, k});
}
// the value modulo 2^w
static bool modLin(E e, i128 k, Lin &l, int depth) {
  if (depth > 400 || k > LIM / 4 || k < -LIM / 4) return false;
  if (e->isConst()) {
    if (e->w > 64) return false;
    l.c += k * (i128)(u128)e->val;
    return l.c < LIM && l.c > -LIM;
  }
  switch (e->k) {
    case K::Sym: addTerm(l, e, k); return true;
    case K::Add: return modLin(e->a, k, l, depth + 1) && modLin(e->b, k, l, depth + 1);
    case K::Sub: return modLin(e->a, k, l, depth + 1) && modLin(e->b, -k, l, depth + 1);
    case K::Mul:
      if (!e->b->isConst() || e->w > 64) return false;
      return modLin(e->a, k * (i128)sx(e->b->lo(), e->w), l, depth + 1);
    case K::Shl:
      if (!e->b->isConst() || e->b->val > 40) return false;
      return modLin(e->a, k * ((i128)1 << (unsigned)e->b->val), l, depth + 1);
    case K::Concat: {
      // hi * 2^n + (exact low part)
      if (!modLin(e->a, k * ((i128)1 << e->b->w), l, depth + 1)) return false;
      Lin x;
      i128 lo, hi;
      if (!exactInt(e->b, false, x, lo, hi, depth + 1)) return false;
      for (auto &t : x.t) addTerm(l, t.first, k * t.second);
      l.c += k * x.c;
      return true;
    }
    case K::SExt: {
      Lin x;
      i128 lo, hi;
      if (!exactInt(e->a, true, x, lo, hi, depth + 1)) return false;
      for (auto &t : x.t) addTerm(l, t.first, k * t.second);
      l.c += k * x.c;
      return true;
    }
    case K::Ite: addTerm(l, e, k); return true;
    default: return false;
  }
}
static bool atomOf(E e, IntAtom &a, int depth);
static bool rangeOf(const Lin &l, i128 &lo, i128 &hi, int depth) {
  lo = hi = l.c;
  for (auto &t : l.t) {
    IntAtom a;
    if (!atomOf(t.first, a, depth)) return false;
    lo += t.second * (t.second > 0 ? a.lo : a.hi);
    hi += t.second * (t.second > 0 ? a.hi : a.lo);
    if (lo < -LIM || hi > LIM) return false;
  }
  return true;
}
static bool exactInt(E e, bool sgn, Lin &l, i128 &lo, i128 &hi, int depth) {
  if (depth > 400 || e->w > 64 || e->w < 2) return false;
  if (!modLin(e, 1, l, depth + 1)) return false;
  const i128 M = (i128)1 << e->w;
  // coefficients near zero
  size_t o = 0;
  for (auto &t : l.t) {
    i128 k = ((t.second % M) + M) % M;
    if (k >= M / 2) k -= M;
    if (k) l.t[o++] = {t.first, k};
  }
  l.t.resize(o);
  l.c = ((l.c % M) + M) % M;
  if (!rangeOf(l, lo, hi, depth + 1)) return false;
  i128 mn = sgn ? -M / 2 : 0, mx = sgn ? M / 2 - 1 : M - 1;
  while (hi > mx) { lo -= M; hi -= M; l.c -= M; }
  while (lo < mn) { lo += M; hi += M; l.c += M; }
  return hi <= mx;
}
static Z3_ast linAst(const Lin &l) {
  std::vector<Z3_ast> v;
  for (auto &t : l.t) {
    IntAtom a;
    atomOf(t.first, a, 0);
    if (t.second == 1) v.push_back(a.a);
    else { Z3_ast m[2] = {intNum(t.second), a.a}; v.push_back(Z3_mk_mul(ctx, 2, m)); }
  }
  if (l.c != 0 || v.empty()) v.push_back(intNum(l.c));
  return v.size() == 1 ? v[0] : Z3_mk_add(ctx, (unsigned)v.size(), v.data());
}
// a byte is unsigned; a conditional value is used as its signed reading
static bool atomOf(E e, IntAtom &a, int depth) {
  auto it = atomsS.find(e);
  if (it != atomsS.end()) { a = it->second; return a.a != nullptr; }
  a = {nullptr, 0, 0};
  if (e->k == K::Sym) {
    char nm[32];
    snprintf(nm, 32, "i%u", (unsigned)e->val);
    a = {Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), intSort), 0, 255};
  } else if (e->k == K::Ite && depth < 400) {
    Z3_ast c;
    Lin x, y;
    i128 l1, h1, l2, h2;
    if (intBool(e->a, c, depth + 1) && exactInt(e->b, true, x, l1, h1, depth + 1) && exactInt(e->c, true, y, l2, h2, depth + 1))
      a = {Z3_mk_ite(ctx, c, linAst(x), linAst(y)), std::min(l1, l2), std::max(h1, h2)};
  }
  atomsS[e] = a;
  return a.a != nullptr;
}
static bool intBool1(E e, Z3_ast &r, int depth) {
  if (depth > 400) return false;
  Z3_ast x, y, z;
  switch (e->k) {
    case K::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); return true;
    case K::Not: if (!intBool(e->a, x, depth + 1)) return false; r = Z3_mk_not(ctx, x); return true;
    case K::And: case K::Or: {
      if (!intBool(e->a, x, depth + 1) || !intBool(e->b, y, depth + 1)) return false;
      Z3_ast v[2] = {x, y};
      r = e->k == K::And ? Z3_mk_and(ctx, 2, v) : Z3_mk_or(ctx, 2, v);
      return true;
    }
    case K::Xor: if (!intBool(e->a, x, depth + 1) || !intBool(e->b, y, depth + 1)) return false; r = Z3_mk_xor(ctx, x, y); return true;
    case K::Ite:
      if (!intBool(e->a, x, depth + 1) || !intBool(e->b, y, depth + 1) || !intBool(e->c, z, depth + 1)) return false;
      r = Z3_mk_ite(ctx, x, y, z);
      return true;
    case K::Extract: {
      if (e->aux + 1u != e->a->w) return false;
      Lin l;
      i128 lo, hi;
      if (!exactInt(e->a, true, l, lo, hi, depth + 1)) return false;
      r = Z3_mk_lt(ctx, linAst(l), intNum(0));
      return true;
    }
    case K::Eq:
      if (e->a->w == 1) {
        if (!intBool(e->a, x, depth + 1) || !intBool(e->b, y, depth + 1)) return false;
        r = Z3_mk_iff(ctx, x, y);
        return true;
      }  // fallthrough
    case K::Ult: case K::Ule: case K::Slt: case K::Sle: {
      bool sg = e->k == K::Slt || e->k == K::Sle;
      Lin a, b;
      i128 lo, hi;
      bool ok = exactInt(e->a, sg, a, lo, hi, depth + 1) && exactInt(e->b, sg, b, lo, hi, depth + 1);
      if (!ok && e->k == K::Eq) {
        a = Lin(); b = Lin();
        ok = exactInt(e->a, true, a, lo, hi, depth + 1) && exactInt(e->b, true, b, lo, hi, depth + 1);
      }
      if (!ok) return false;
      x = linAst(a); y = linAst(b);
      r = e->k == K::Eq ? Z3_mk_eq(ctx, x, y) : e->k == K::Ult || e->k == K::Slt ? Z3_mk_lt(ctx, x, y) : Z3_mk_le(ctx, x, y);
      return true;
    }
    default: return false;
  }
}
static bool intBool(E e, Z3_ast &r, int depth) {
  auto it = intBools.find(e);
  if (it == intBools.end()) {
    if (!intBool1(e, r, depth)) r = nullptr;
    intBools[e] = r;
    return r != nullptr;
  }
  r = it->second;
  return r != nullptr;
}

// Yes/No, or Unknown when the constraints are not linear
static Sat intCheck(const std::vector<E> &sel, const std::vector<unsigned> &sy, std::vector<std::pair<uint32_t, uint8_t>> &m) {
  std::vector<Z3_ast> as;
  for (E e : sel) {
    Z3_ast a;
    if (!intBool(e, a, 0)) return Sat::Unknown;
    as.push_back(a);
  }
  Z3_solver_push(ctx, intSlv);
  for (auto s : sy) {
    IntAtom a;
    atomOf(mkSym(s), a, 0);
    Z3_solver_assert(ctx, intSlv, Z3_mk_ge(ctx, a.a, intNum(0)));
    Z3_solver_assert(ctx, intSlv, Z3_mk_le(ctx, a.a, intNum(255)));
  }
  for (auto a : as) Z3_solver_assert(ctx, intSlv, a);
  Z3_lbool r = Z3_solver_check(ctx, intSlv);
  Sat res = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
  if (res == Sat::Yes) {
    Z3_model md = Z3_solver_get_model(ctx, intSlv);
    Z3_model_inc_ref(ctx, md);
    for (auto s : sy) {
      IntAtom a;
      atomOf(mkSym(s), a, 0);
      Z3_ast v;
      uint64_t x = 0;
      if (Z3_model_eval(ctx, md, a.a, true, &v)) Z3_get_numeral_uint64(ctx, v, &x);
      m.push_back({s, (uint8_t)x});
    }
    Z3_model_dec_ref(ctx, md);
  }
  Z3_solver_pop(ctx, intSlv, 1);
  return res;
}
// worth it when a constraint sums several bytes
static bool hasSum(E e) {
  if (e->syms->bits.empty() || e->syms->single >= 0) return false;
  size_t n = 0;
  for (auto b : e->syms->bits) n += __builtin_popcountll(b);
  return n >= 3;
}

struct VecHash {
  size_t operator()(const std::vector<uint32_t> &v) const {
    uint64_t h = 77;
    for (auto x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
    return h;
  }
};
struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint8_t>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

static void setSyms(const SymSet *s, std::vector<unsigned> &out) {
  for (size_t i = 0; i < s->bits.size(); ++i)
    for (uint64_t b = s->bits[i]; b; b &= b - 1) out.push_back(i * 64 + __builtin_ctzll(b));
}

// flatten conjunctions
static void flat(E e, std::vector<E> &out) {
  if (e->k == K::And && e->w == 1) { flat(e->a, out); flat(e->b, out); return; }
  out.push_back(e);
}

static bool usesFp(E e, std::unordered_set<E> &seen) {
  if (!e || !seen.insert(e).second) return false;
  return hasFp(e) || usesFp(e->a, seen) || usesFp(e->b, seen) || usesFp(e->c, seen);
}

// value set of a constraint over one byte
struct Dom { uint64_t b[4]; };
static unsigned exprSize(E e, std::unordered_set<E> &seen, unsigned lim) {
  if (!e || seen.size() > lim || !seen.insert(e).second) return 0;
  exprSize(e->a, seen, lim);
  exprSize(e->b, seen, lim);
  exprSize(e->c, seen, lim);
  return (unsigned)seen.size();
}
static std::unordered_map<E, Dom *> doms;
static const Dom *domOf(E e) {
  auto it = doms.find(e);
  if (it != doms.end()) return it->second;
  Dom *d = nullptr;
  std::unordered_set<E> seen;
  if (exprSize(e, seen, 6000) <= 6000) {
    d = new Dom{{0, 0, 0, 0}};
    Model m((size_t)e->syms->single + 1, 0);
    for (unsigned v = 0; v < 256; ++v) {
      m[e->syms->single] = (uint8_t)v;
      if (evalExpr(e, m, newEpoch())) d->b[v >> 6] |= 1ull << (v & 63);
    }
  }
  return doms[e] = d;
}
// Decides a branch over a single byte from the byte's value set; exact unless
// the byte also occurs in a constraint with other bytes.
static int domCheck(const std::vector<E> &pc, E extra, const Model &base, Model &out) {
  int s = extra->syms->single;
  if (s < 0) return -1;
  const Dom *d = domOf(extra);
  if (!d) return -1;
  Dom r = *d;
  bool coupled = false;
  for (E c : pc) {
    if (c->syms->single == s) {
      const Dom *x = domOf(c);
      if (!x) { coupled = true; continue; }
      for (int i = 0; i < 4; ++i) r.b[i] &= x->b[i];
    } else if (c->syms->intersects(extra->syms)) coupled = true;
  }
  for (int i = 0; i < 4; ++i)
    if (r.b[i]) {
      if (coupled) return -1;
      out = base;
      if (out.size() <= (size_t)s) out.resize(s + 1);
      out[s] = (uint8_t)(i * 64 + __builtin_ctzll(r.b[i]));
      return 1;
    }
  return 0;
}

unsigned domainSize(const std::vector<E> &pc, int s) {
  Dom r{{~0ull, ~0ull, ~0ull, ~0ull}};
  for (E c : pc)
    if (c->syms->single == s)
      if (const Dom *x = domOf(c))
        for (int i = 0; i < 4; ++i) r.b[i] &= x->b[i];
  unsigned n = 0;
  for (int i = 0; i < 4; ++i) n += __builtin_popcountll(r.b[i]);
  return n;
}

Sat solverCheck(const std::vector<E> &pc, E extra, const Model &base, Model &out, bool assertion) {
  ++gSolver.queries;
  if (extra->isConst() && !extra->val) { ++gSolver.unsat; return Sat::No; }
  if (!assertion) {
    int d = domCheck(pc, extra, base, out);
    if (d >= 0) {
      ++gSolver.domain;
      ++(d ? gSolver.sat : gSolver.unsat);
      return d ? Sat::Yes : Sat::No;
    }
  }
  // relevant slice
  std::vector<E> sel;
  flat(extra, sel);
  const SymSet *ss = extra->syms;
  std::vector<char> used(pc.size(), 0);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (used[i] || !pc[i]->syms->intersects(ss)) continue;
      used[i] = 1;
      flat(pc[i], sel);
      auto n = unionSyms(ss, pc[i]->syms);
      if (n != ss) { ss = n; changed = true; }
    }
  }
  std::vector<uint32_t> key;
  key.reserve(sel.size());
  for (auto e : sel) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) {
    ++gSolver.cacheHits;
    if (it->second.r == Sat::Yes) {
      out = base;
      for (auto &p : it->second.m) {
        if (p.first >= out.size()) out.resize(p.first + 1);
        out[p.first] = p.second;
      }
      ++gSolver.sat;
    } else if (it->second.r == Sat::No) ++gSolver.unsat;
    else ++gSolver.unknown;
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  // quick incremental attempt first, then a full bit-blasting tactic
  CacheEnt ce;
  std::vector<unsigned> sy;
  setSyms(ss, sy);
  bool sums = false;
  for (auto e : sel) sums |= hasSum(e);
  Sat viaInt = sums ? intCheck(sel, sy, ce.m) : Sat::Unknown;
  Z3_solver cur = slv;
  Z3_solver_push(ctx, slv);
  std::unordered_set<E> seen;
  if (viaInt != Sat::Unknown) {
    ce.r = viaInt;
    ++gSolver.linear;
    goto solved;
  }
  {
  for (auto e : sel)
    if (seen.insert(e).second) Z3_solver_assert(ctx, slv, trB(e));
  Z3_lbool r = Z3_solver_check(ctx, slv);
  if (r == Z3_L_UNDEF && fastMs < gTimeout) {
    bool fp = false;
    std::unordered_set<E> visited;
    for (auto e : seen) fp |= usesFp(e, visited);
    cur = Z3_mk_solver_from_tactic(ctx, fp ? tacFp : tacBv);
    Z3_solver_inc_ref(ctx, cur);
    Z3_solver_set_params(ctx, cur, slowParams);
    for (auto e : seen) Z3_solver_assert(ctx, cur, trB(e));
    r = Z3_solver_check(ctx, cur);
    ++gSolver.slow;
  }
  if (r == Z3_L_TRUE) {
    ce.r = Sat::Yes;
    Z3_model m = Z3_solver_get_model(ctx, cur);
    Z3_model_inc_ref(ctx, m);
    for (auto s : sy) {
      Z3_ast v;
      E se = mkSym(s);
      uint64_t x = 0;
      if (Z3_model_eval(ctx, m, tr(se), true, &v)) Z3_get_numeral_uint64(ctx, v, &x);
      ce.m.push_back({s, (uint8_t)x});
    }
    Z3_model_dec_ref(ctx, m);
  } else ce.r = r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
  }
solved:
  Z3_solver_pop(ctx, slv, 1);
  if (cur != slv) Z3_solver_dec_ref(ctx, cur);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  ++gSolver.z3Calls;
  gSolver.z3Time += dt;
  if (dt > gSolver.maxZ3) gSolver.maxZ3 = dt;
  static const bool dbg = getenv("JPPSYM_SLOW") != nullptr;
  static const double thr = dbg ? atof(getenv("JPPSYM_SLOW")) : 0;
  if (dbg && dt > thr) {
    std::unordered_set<E> v;
    std::vector<E> q(sel);
    while (!q.empty()) { E e = q.back(); q.pop_back(); if (!e || !v.insert(e).second) continue; q.push_back(e->a); q.push_back(e->b); q.push_back(e->c); }
    fprintf(stderr, "slow query %.2fs result %d, %zu constraints, %zu nodes; extra: %s\n", dt, (int)ce.r, sel.size(), v.size(), exprStr(extra, 7).substr(0, 1500).c_str());
  }
  if (ce.r == Sat::Yes) {
    out = base;
    for (auto &p : ce.m) {
      if (p.first >= out.size()) out.resize(p.first + 1);
      out[p.first] = p.second;
    }
    // the model must really satisfy the query (guards the encoding itself)
    uint64_t ep = newEpoch();
    for (auto e : sel)
      if (!evalExpr(e, out, ep)) {
        bool fp = false;
        for (auto q : sel) fp |= hasFp(q);
        (void)fp;
        fprintf(stderr, "jppsym: solver model does not satisfy %s\n", exprStr(e).c_str());
        ce.r = Sat::Unknown;
        break;
      }
  }
  if (ce.r == Sat::Yes) ++gSolver.sat;
  else if (ce.r == Sat::No) ++gSolver.unsat;
  else ++gSolver.unknown;
  cache[key] = ce;
  return ce.r;
}
