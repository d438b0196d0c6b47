// Models of intrinsics, libc, the C++ runtime and the jpp_* harness API.
#include <llvm/IR/Intrinsics.h>
#include <cmath>
#include "exec.h"

#define M(nm) static void m_##nm(Exec &X, const Inst &in)
static inline Val arg(Exec &X, const Inst &in, unsigned i, unsigned leaf = 0) {
  int32_t o = in.args[i].first;
  return X.get(o >= 0 ? o + (int32_t)leaf : ~(~o + (int32_t)leaf));
}
static inline uint64_t argc_(Exec &X, const Inst &in, unsigned i) { return X.conc(arg(X, in, i)); }
static inline E argE(Exec &X, const Inst &in, unsigned i, unsigned bits) { return X.expr(arg(X, in, i), bits); }

M(nop) {
  Val z[4];
  X.finishCall(in, z, 4);
}
M(ret0) { X.retVal(in, (uint64_t)0); }
M(arg0) { X.retVal(in, arg(X, in, 0)); }

// ---- a function of one number given as a table of ranges (start, value)
static std::vector<std::pair<uint32_t, uint32_t>> rangeTable;
bool loadRangeTable(const std::string &f) {
  FILE *h = fopen(f.c_str(), "r");
  if (!h) return false;
  unsigned a, b;
  while (fscanf(h, "%x %x", &a, &b) == 2) rangeTable.emplace_back(a, b);
  fclose(h);
  return !rangeTable.empty() && rangeTable[0].first == 0;
}
static E rangeBit(E x, const std::vector<std::pair<uint32_t, bool>> &t, size_t lo, size_t hi) {
  if (hi - lo == 1) return mkBool(t[lo].second);
  size_t m = (lo + hi) / 2;
  return mkIte(mkBin(K::Ult, x, mkConst(t[m].first, x->w)), rangeBit(x, t, lo, m), rangeBit(x, t, m, hi));
}
M(rangetable) {
  Val v = arg(X, in, 0);
  E x = X.expr(v, 32);
  if (x->isConst()) {
    size_t i = rangeTable.size() - 1;
    while (rangeTable[i].first > x->lo()) --i;
    X.retVal(in, (uint64_t)rangeTable[i].second);
    return;
  }
  E r = nullptr;
  for (int b = 31; b >= 0; --b) {
    std::vector<std::pair<uint32_t, bool>> t;
    for (size_t i = 0; i < rangeTable.size(); ++i) {
      uint32_t s = rangeTable[i].first;
      uint32_t last = i + 1 < rangeTable.size() ? rangeTable[i + 1].first - 1 : ~0u;
      if (s > x->umax || last < x->umin) continue;
      bool on = rangeTable[i].second >> b & 1;
      if (t.empty() || t.back().second != on) t.emplace_back(s, on);
    }
    E e = rangeBit(x, t, 0, t.size());
    r = r ? mkConcat(r, e) : e;
  }
  Val o; o.e = r; X.retVal(in, o);
}

// ---- allocation
static void doMalloc(Exec &X, const Inst &in, uint64_t n, bool zero) {
  uint64_t a = X.alloc(n, 0, zero);
  X.retVal(in, a);
}
M(malloc) { doMalloc(X, in, argc_(X, in, 0), false); }
M(new_) {
  uint64_t n = argc_(X, in, 0);
  if (n > (1ull << 40)) {
    // operator new fails for absurd sizes
    X.violation("exception", "allocation of an absurd size", *X.S, X.S->model);
    X.endPath(End::Violation, "bad_alloc");
  }
  doMalloc(X, in, n, false);
}
M(calloc) {
  uint64_t a = argc_(X, in, 0), b = argc_(X, in, 1);
  doMalloc(X, in, a * b, true);
}
M(realloc) {
  uint64_t p = argc_(X, in, 0), n = argc_(X, in, 1);
  uint64_t a = X.alloc(n, 0);
  if (p) {
    Obj *o = X.S->mem.get(p >> 32);
    if (o && !o->freed) X.copyBytes(a, p, std::min<uint64_t>(n, o->size));
    X.freeObj(p, "realloc");
  }
  X.retVal(in, a);
}
M(free) {
  X.freeObj(argc_(X, in, 0), "free");
  X.finishCall(in, nullptr, 0);
}
M(posix_memalign) {
  uint64_t pp = argc_(X, in, 0), n = argc_(X, in, 2);
  uint64_t a = X.alloc(n, 0);
  Val p, v;
  p.v = pp;
  v.v = a;
  auto r = X.resolve(p, 8, true);
  X.writeInt(r, 64, v);
  X.retVal(in, (uint64_t)0);
}
M(aligned_alloc) { doMalloc(X, in, argc_(X, in, 1), false); }
M(strdup) {
  uint64_t s = argc_(X, in, 0);
  std::string c = X.readCStr(s);
  uint64_t a = X.alloc(c.size() + 1, 0);
  X.copyBytes(a, s, c.size() + 1);
  X.retVal(in, a);
}

// ---- memory blocks
M(memcpy) {
  uint64_t n = argc_(X, in, 2);
  uint64_t d = argc_(X, in, 0), s = argc_(X, in, 1);
  if (n) X.copyBytes(d, s, n);
  X.retVal(in, d);
}
M(memset) {
  uint64_t n = argc_(X, in, 2);
  uint64_t d = argc_(X, in, 0);
  Val v = arg(X, in, 1);
  if (n) {
    Val a;
    a.v = d;
    auto r = X.resolve(a, n, true);
    Obj *o = X.S->mem.writable(r.id);
    if (!v.e) {
      memset(o->data + r.off, (int)v.v, n);
      if (o->sym) memset((void *)(o->sym + r.off), 0, n * sizeof(E));
    } else {
      Val b = X.fromE(mkExtract(v.e, 0, 8));
      for (uint64_t i = 0; i < n; ++i) X.writeAt(o, r.off + i, 8, b);
    }
  }
  X.retVal(in, d);
}
// three-way comparison as one expression: no path split
static E cmpExpr(Exec &X, uint64_t a, uint64_t b, uint64_t n) {
  E r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    E x = X.expr(X.readByte(a + i), 8), y = X.expr(X.readByte(b + i), 8);
    r = mkIte(mkBin(K::Eq, x, y), r,
              mkIte(mkBin(K::Ult, x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
  }
  return r;
}
M(memcmp) {
  uint64_t n = argc_(X, in, 2);
  uint64_t a = argc_(X, in, 0), b = argc_(X, in, 1);
  X.retVal(in, X.fromE(cmpExpr(X, a, b, n)));
}
M(bcmp) {
  uint64_t n = argc_(X, in, 2);
  uint64_t a = argc_(X, in, 0), b = argc_(X, in, 1);
  E ne = mkBool(false);
  for (uint64_t i = 0; i < n; ++i)
    ne = mkBin(K::Or, ne, mkNot(mkBin(K::Eq, X.expr(X.readByte(a + i), 8), X.expr(X.readByte(b + i), 8))));
  X.retVal(in, X.fromE(mkIte(ne, mkConst(1, 32), mkConst(0, 32))));
}
M(strlen) {
  uint64_t p = argc_(X, in, 0), n = 0;
  for (;; ++n) {
    Val b = X.readByte(p + n);
    if (!b.e) { if (!b.v) break; continue; }
    if (X.branchOn(mkBin(K::Eq, b.e, mkConst(0, 8)))) break;
  }
  X.retVal(in, n);
}
M(strnlen) {
  uint64_t p = argc_(X, in, 0), lim = argc_(X, in, 1), n = 0;
  for (; n < lim; ++n) {
    Val b = X.readByte(p + n);
    if (!b.e) { if (!b.v) break; continue; }
    if (X.branchOn(mkBin(K::Eq, b.e, mkConst(0, 8)))) break;
  }
  X.retVal(in, n);
}
static void strcmpN(Exec &X, const Inst &in, uint64_t n) {
  uint64_t a = argc_(X, in, 0), b = argc_(X, in, 1);
  for (uint64_t i = 0; i < n; ++i) {
    E x = X.expr(X.readByte(a + i), 8), y = X.expr(X.readByte(b + i), 8);
    if (!X.branchOn(mkBin(K::Eq, x, y))) {
      bool lt = X.branchOn(mkBin(K::Ult, x, y));
      X.retVal(in, lt ? (uint64_t)0xffffffff : 1);
      return;
    }
    if (X.branchOn(mkBin(K::Eq, x, mkConst(0, 8)))) break;
  }
  X.retVal(in, (uint64_t)0);
}
M(strcmp) { strcmpN(X, in, ~0ull); }
M(strncmp) { strcmpN(X, in, argc_(X, in, 2)); }
M(memchr) {
  uint64_t p = argc_(X, in, 0), n = argc_(X, in, 2);
  E c = mkExtract(argE(X, in, 1, 32), 0, 8);
  for (uint64_t i = 0; i < n; ++i) {
    if (X.branchOn(mkBin(K::Eq, X.expr(X.readByte(p + i), 8), c))) { X.retVal(in, p + i); return; }
  }
  X.retVal(in, (uint64_t)0);
}
M(strchr) {
  uint64_t p = argc_(X, in, 0);
  E c = mkExtract(argE(X, in, 1, 32), 0, 8);
  for (;; ++p) {
    E b = X.expr(X.readByte(p), 8);
    if (X.branchOn(mkBin(K::Eq, b, c))) { X.retVal(in, p); return; }
    if (X.branchOn(mkBin(K::Eq, b, mkConst(0, 8)))) { X.retVal(in, (uint64_t)0); return; }
  }
}

// ---- integer intrinsics
static unsigned bitsOf(const Inst &in) { return in.bits; }
template <class F>
static void perLeaf(Exec &X, const Inst &in, F f) {
  std::vector<Val> r(in.n);
  for (uint32_t k = 0; k < in.n; ++k) r[k] = X.fromE(f(k));
  X.finishCall(in, r.data(), r.size());
}
static E aE(Exec &X, const Inst &in, unsigned i, uint32_t k) { return X.expr(arg(X, in, i, k), bitsOf(in)); }
M(umin) { perLeaf(X, in, [&](uint32_t k) { E a = aE(X, in, 0, k), b = aE(X, in, 1, k); return mkIte(mkBin(K::Ult, a, b), a, b); }); }
M(umax) { perLeaf(X, in, [&](uint32_t k) { E a = aE(X, in, 0, k), b = aE(X, in, 1, k); return mkIte(mkBin(K::Ult, a, b), b, a); }); }
M(smin) { perLeaf(X, in, [&](uint32_t k) { E a = aE(X, in, 0, k), b = aE(X, in, 1, k); return mkIte(mkBin(K::Slt, a, b), a, b); }); }
M(smax) { perLeaf(X, in, [&](uint32_t k) { E a = aE(X, in, 0, k), b = aE(X, in, 1, k); return mkIte(mkBin(K::Slt, a, b), b, a); }); }
M(abs) { perLeaf(X, in, [&](uint32_t k) { E a = aE(X, in, 0, k), z = mkConst(0, in.bits); return mkIte(mkBin(K::Slt, a, z), mkBin(K::Sub, z, a), a); }); }
static E popcnt(E a) {
  E r = mkConst(0, a->w);
  for (unsigned i = 0; i < a->w; ++i) r = mkBin(K::Add, r, mkZExt(mkExtract(a, i, 1), a->w));
  return r;
}
M(ctpop) { perLeaf(X, in, [&](uint32_t k) { return popcnt(aE(X, in, 0, k)); }); }
M(ctlz) {
  perLeaf(X, in, [&](uint32_t k) {
    E a = aE(X, in, 0, k), r = mkConst(a->w, a->w);
    for (unsigned i = 0; i < a->w; ++i) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r);
    return r;
  });
}
M(cttz) {
  perLeaf(X, in, [&](uint32_t k) {
    E a = aE(X, in, 0, k), r = mkConst(a->w, a->w);
    for (unsigned i = a->w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r);
    return r;
  });
}
M(bswap) {
  perLeaf(X, in, [&](uint32_t k) {
    E a = aE(X, in, 0, k), r = nullptr;
    for (unsigned i = 0; i < a->w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; }
    return r;
  });
}
M(bitreverse) {
  perLeaf(X, in, [&](uint32_t k) {
    E a = aE(X, in, 0, k), r = nullptr;
    for (unsigned i = 0; i < a->w; ++i) { E b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; }
    return r;
  });
}
static void funnel(Exec &X, const Inst &in, bool left) {
  perLeaf(X, in, [&](uint32_t k) {
    E a = aE(X, in, 0, k), b = aE(X, in, 1, k), s = aE(X, in, 2, k);
    unsigned w = a->w;
    s = mkBin(K::URem, s, mkConst(w, w));
    if (s->isConst()) {
      unsigned c = (unsigned)s->lo();
      if (c == 0) return left ? a : b;
      if (left) return mkConcat(mkExtract(a, 0, w - c), mkExtract(b, w - c, c));
      return mkConcat(mkExtract(a, 0, c), mkExtract(b, c, w - c));
    }
    E inv = mkBin(K::Sub, mkConst(w, w), s);
    E z = mkBin(K::Eq, s, mkConst(0, w));
    if (left) return mkIte(z, a, mkBin(K::Or, mkBin(K::Shl, a, s), mkBin(K::LShr, b, inv)));
    return mkIte(z, b, mkBin(K::Or, mkBin(K::Shl, a, inv), mkBin(K::LShr, b, s)));
  });
}
M(fshl) { funnel(X, in, true); }
M(fshr) { funnel(X, in, false); }
static void ovf(Exec &X, const Inst &in, K op, bool sgn) {
  unsigned w = in.leaves[0].bits;
  E a = argE(X, in, 0, w), b = argE(X, in, 1, w);
  E r = mkBin(op, a, b);
  E o;
  if (op == K::Mul) {
    if (w > 64) X.unsupported("wide mul.with.overflow");
    E x = sgn ? mkSExt(a, 2 * w) : mkZExt(a, 2 * w), y = sgn ? mkSExt(b, 2 * w) : mkZExt(b, 2 * w);
    E p = mkBin(K::Mul, x, y);
    o = mkNot(mkBin(K::Eq, p, sgn ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w)));
  } else {
    E x = sgn ? mkSExt(a, w + 1) : mkZExt(a, w + 1), y = sgn ? mkSExt(b, w + 1) : mkZExt(b, w + 1);
    E p = mkBin(op, x, y);
    o = mkNot(mkBin(K::Eq, p, sgn ? mkSExt(r, w + 1) : mkZExt(r, w + 1)));
  }
  Val v[2] = {X.fromE(r), X.fromE(o)};
  X.finishCall(in, v, 2);
}
M(uaddo) { ovf(X, in, K::Add, false); }
M(usubo) { ovf(X, in, K::Sub, false); }
M(umulo) { ovf(X, in, K::Mul, false); }
M(saddo) { ovf(X, in, K::Add, true); }
M(ssubo) { ovf(X, in, K::Sub, true); }
M(smulo) { ovf(X, in, K::Mul, true); }
M(uaddsat) { perLeaf(X, in, [&](uint32_t k) { E a = aE(X, in, 0, k), b = aE(X, in, 1, k), s = mkBin(K::Add, a, b); return mkIte(mkBin(K::Ult, s, a), mkConst(maskW(a->w), a->w), s); }); }
M(usubsat) { perLeaf(X, in, [&](uint32_t k) { E a = aE(X, in, 0, k), b = aE(X, in, 1, k); return mkIte(mkBin(K::Ult, a, b), mkConst(0, a->w), mkBin(K::Sub, a, b)); }); }
M(trap) {
  X.violation("abort", "execution reached a trap/abort", *X.S, X.S->model);
  X.endPath(End::Violation, "trap");
}
M(exit_) { X.endPath(End::Unsupported, "exit() called"); }
M(typeidfor) {
  uint64_t t = argc_(X, in, 0);
  auto it = X.typeIds.find(t);
  if (it == X.typeIds.end()) it = X.typeIds.emplace(t, (int)X.typeIds.size() + 1).first;
  X.retVal(in, (uint64_t)it->second);
}
M(objectsize) { X.retVal(in, ~0ull & mask64(in.bits)); }
M(isconst) { X.retVal(in, (uint64_t)0); }
M(loadrel) {
  uint64_t p = argc_(X, in, 0), o = argc_(X, in, 1);
  Val a;
  a.v = p + o;
  auto r = X.resolve(a, 4, false);
  X.retVal(in, p + (uint64_t)sx(X.conc(X.readInt(r, 32)), 32));
}

// ---- floating point
static float asF(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint64_t fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static uint64_t fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
M(fabs) { perLeaf(X, in, [&](uint32_t k) { return mkUn(K::FAbs, aE(X, in, 0, k), in.bits); }); }
M(fsqrt) { perLeaf(X, in, [&](uint32_t k) { return mkUn(K::FSqrt, aE(X, in, 0, k), in.bits); }); }
M(fmuladd) {
  perLeaf(X, in, [&](uint32_t k) {
    return mkBin(K::FAdd, mkBin(K::FMul, aE(X, in, 0, k), aE(X, in, 1, k)), aE(X, in, 2, k));
  });
}
static void fmin_(Exec &X, const Inst &in, bool mx) {
  perLeaf(X, in, [&](uint32_t k) {
    E a = aE(X, in, 0, k), b = aE(X, in, 1, k);
    E nanA = mkBin(K::FUno, a, a), nanB = mkBin(K::FUno, b, b);
    E lt = mx ? mkBin(K::FOlt, b, a) : mkBin(K::FOlt, a, b);
    return mkIte(nanA, b, mkIte(nanB, a, mkIte(lt, a, b)));
  });
}
M(fminm) { fmin_(X, in, false); }
M(fmaxm) { fmin_(X, in, true); }
template <double (*FD)(double)>
static void mathFn(Exec &X, const Inst &in) {
  uint64_t v = argc_(X, in, 0);
  X.retVal(in, in.bits == 32 ? fromF((float)FD(asF(v))) : fromD(FD(asD(v))));
}
M(logl) { X.retVal(in, X.fromLd(logl(X.ld(arg(X, in, 0, 0))))); }
M(pow) {
  uint64_t a = argc_(X, in, 0), b = argc_(X, in, 1);
  X.retVal(in, in.bits == 32 ? fromF(powf(asF(a), asF(b))) : fromD(pow(asD(a), asD(b))));
}
M(copysign) {
  perLeaf(X, in, [&](uint32_t k) {
    E a = aE(X, in, 0, k), b = aE(X, in, 1, k);
    unsigned w = in.bits;
    return mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1));
  });
}
static double dfloor(double x) { return floor(x); }
static double dceil(double x) { return ceil(x); }
static double dround(double x) { return round(x); }
static double drint(double x) { return rint(x); }
static double dtrunc(double x) { return trunc(x); }
static double dexp(double x) { return exp(x); }
static double dlog(double x) { return log(x); }
static double dtanh(double x) { return tanh(x); }
static double dlog2(double x) { return log2(x); }

// snprintf; a symbolic floating point number becomes '~' and its sixteen
// nibbles, so that equal numbers and only those have the same text
M(snprintf) {
  uint64_t buf = argc_(X, in, 0), sz = argc_(X, in, 1);
  std::string fmt = X.readCStr(argc_(X, in, 2)), out;
  std::vector<std::pair<size_t, E>> syms;
  unsigned ai = 3;
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] != '%') { out += fmt[i]; continue; }
    std::string sp = "%";
    ++i;
    if (fmt[i] == '%') { out += '%'; continue; }
    while (i < fmt.size() && !strchr("diouxXeEfFgGaAcsp", fmt[i])) {
      if (fmt[i] == '*') sp += std::to_string((int)argc_(X, in, ai++));
      else if (!strchr("hljztL", fmt[i])) sp += fmt[i];
      ++i;
    }
    char c = fmt[i];
    char tmp[512];
    if (strchr("eEfFgGaA", c)) {
      sp += c;
      Val fv = arg(X, in, ai);
      if (fv.e) {
        ++ai;
        E e = X.expr(fv, 64);
        out += '~';
        for (int k = 60; k >= 0; k -= 4) {
          syms.push_back({out.size(), mkConcat(mkConst(4, 4), mkExtract(e, (unsigned)k, 4))});
          out += '@';
        }
        continue;
      }
      snprintf(tmp, 512, sp.c_str(), asD(argc_(X, in, ai++)));
      out += tmp;
    } else if (c == 's') {
      out += X.readCStr(argc_(X, in, ai++));
    } else if (c == 'c') {
      out += (char)argc_(X, in, ai++);
    } else {
      Val v = arg(X, in, ai);
      uint64_t x = X.conc(v);
      unsigned w = 64;
      auto *t = ((const llvm::CallBase *)in.ir)->getArgOperand(ai)->getType();
      if (t->isIntegerTy()) w = t->getIntegerBitWidth();
      ++ai;
      sp += "ll";
      sp += c;
      if (c == 'd' || c == 'i') snprintf(tmp, 512, sp.c_str(), (long long)sx(x, w));
      else snprintf(tmp, 512, sp.c_str(), (unsigned long long)x);
      out += tmp;
    }
  }
  for (uint64_t i = 0; sz && i < std::min<uint64_t>(out.size(), sz - 1); ++i) {
    Val b;
    b.v = (uint8_t)out[i];
    X.writeByte(buf + i, b);
  }
  for (auto &p : syms)
    if (p.first + 1 < sz) {
      Val b;
      b.e = p.second;
      X.writeByte(buf + p.first, b);
    }
  if (sz) { Val z; X.writeByte(buf + std::min<uint64_t>(out.size(), sz - 1), z); }
  X.retVal(in, (uint64_t)(uint32_t)out.size());
}

// ---- C++ runtime
M(cxa_throw) { X.doThrow(argc_(X, in, 0), argc_(X, in, 1)); }
M(cxa_rethrow) {
  if (X.S->caught.empty()) X.unsupported("rethrow without exception");
  auto p = X.S->caught.back();
  X.doThrow(p.first, p.second);
}
M(cxa_begin_catch) {
  uint64_t p = argc_(X, in, 0);
  X.S->caught.push_back({p, X.S->exnType});
  X.retVal(in, p);
}
M(cxa_end_catch) {
  if (!X.S->caught.empty()) X.S->caught.pop_back();
  X.finishCall(in, nullptr, 0);
}
M(std_throw) {
  uint64_t a = X.alloc(64, 0, true);
  // std exceptions raised inside libstdc++: typed as std::exception
  uint64_t ti = 0;
  for (auto &g : X.mod->globals())
    if (g.getName() == "_ZTISt9exception") ti = X.gaddr[&g];
  X.doThrow(a, ti);
}
M(terminate) {
  X.violation("abort", "std::terminate / pure virtual call", *X.S, X.S->model);
  X.endPath(End::Violation, "terminate");
}
M(guard_acquire) {
  uint64_t p = argc_(X, in, 0);
  X.retVal(in, (uint64_t)(X.readByteC(p) == 0));
}
M(guard_release) {
  uint64_t p = argc_(X, in, 0);
  Val one;
  one.v = 1;
  X.writeByte(p, one);
  X.finishCall(in, nullptr, 0);
}
M(dynamic_cast_) {
  // single inheritance to most-derived with offset 0: walk the type chain of the object
  X.unsupported("dynamic_cast");
}

M(localtime) {
  uint64_t p = argc_(X, in, 1);
  Val z;
  for (unsigned i = 0; i < 56; ++i) X.writeByte(p + i, z);
  X.retVal(in, p);
}

// ---- harness API
M(make_symbolic) {
  uint64_t p = argc_(X, in, 0), n = argc_(X, in, 1);
  std::string nm = X.readCStr(argc_(X, in, 2));
  Val a;
  a.v = p;
  SymRec r{nm, X.S->nsyms, (uint32_t)n};
  if (n) {
    auto rf = X.resolve(a, n, true);
    Obj *o = X.S->mem.writable(rf.id);
    for (uint64_t i = 0; i < n; ++i) {
      Val v;
      v.e = mkSym(X.S->nsyms + i);
      X.writeAt(o, rf.off + i, 8, v);
    }
  }
  X.S->nsyms += n;
  X.S->symRecs.push_back(r);
  X.S->model.resize(X.S->nsyms, 0);
  X.S->modelEpoch = newEpoch();
  X.finishCall(in, nullptr, 0);
}
M(assume) {
  E c = mkNot(mkBin(K::Eq, argE(X, in, 0, 32), mkConst(0, 32)));
  X.assume(c);
  X.finishCall(in, nullptr, 0);
}
M(check) {
  E c = mkNot(mkBin(K::Eq, argE(X, in, 0, 32), mkConst(0, 32)));
  std::string msg = X.readCStr(argc_(X, in, 1));
  ++X.st.checkMsgs[msg];
  X.check(c, msg);
  X.finishCall(in, nullptr, 0);
}
M(reach) {
  X.S->reached.push_back(X.readCStr(argc_(X, in, 0)));
  X.finishCall(in, nullptr, 0);
}
M(observe) {
  X.S->observed.push_back(arg(X, in, 0));
  X.finishCall(in, nullptr, 0);
}
M(concretize) { X.retVal(in, argc_(X, in, 0)); }
M(is_symbolic_mode) { X.retVal(in, (uint64_t)1); }
M(is_symbolic) { X.retVal(in, (uint64_t)(arg(X, in, 0).e != nullptr)); }
M(print) {
  Val v = arg(X, in, 1);
  std::string s = X.readCStr(argc_(X, in, 0));
  if (v.e) fprintf(stderr, "[jpp] %s = %s (model %llx)\n", s.c_str(), exprStr(v.e).c_str(), (unsigned long long)X.evalS(v.e));
  else fprintf(stderr, "[jpp] %s = %llu (0x%llx)\n", s.c_str(), (unsigned long long)v.v, (unsigned long long)v.v);
  X.finishCall(in, nullptr, 0);
}
M(param) {
  auto it = X.opt.params.find(X.readCStr(argc_(X, in, 0)));
  X.retVal(in, it == X.opt.params.end() ? argc_(X, in, 1) : it->second);
}
M(select_) {
  E c = mkNot(mkBin(K::Eq, argE(X, in, 0, 32), mkConst(0, 32)));
  X.retVal(in, X.fromE(mkIte(c, argE(X, in, 1, 64), argE(X, in, 2, 64))));
}

void Exec::setupModels() {
  auto &m = models;
  m["malloc"] = m_malloc; m["calloc"] = m_calloc; m["realloc"] = m_realloc; m["free"] = m_free;
  m["_Znwm"] = m_new_; m["_Znam"] = m_new_; m["_ZnwmSt11align_val_t"] = m_new_; m["_ZnamSt11align_val_t"] = m_new_;
  m["_ZnwmRKSt9nothrow_t"] = m_new_; m["_ZnamRKSt9nothrow_t"] = m_new_;
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t",
                 "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"})
    m[n] = m_free;
  m["posix_memalign"] = m_posix_memalign; m["aligned_alloc"] = m_aligned_alloc; m["memalign"] = m_aligned_alloc;
  m["strdup"] = m_strdup;
  for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline"}) m[n] = m_memcpy;
  m["memset"] = m_memset; m["llvm.memset"] = m_memset; m["llvm.memset.inline"] = m_memset;
  m["memcmp"] = m_memcmp; m["bcmp"] = m_bcmp; m["strlen"] = m_strlen; m["strnlen"] = m_strnlen; m["strcmp"] = m_strcmp;
  m["strncmp"] = m_strncmp; m["memchr"] = m_memchr; m["strchr"] = m_strchr;
  m["llvm.umin"] = m_umin; m["llvm.umax"] = m_umax; m["llvm.smin"] = m_smin; m["llvm.smax"] = m_smax; m["llvm.abs"] = m_abs;
  m["llvm.ctpop"] = m_ctpop; m["llvm.ctlz"] = m_ctlz; m["llvm.cttz"] = m_cttz; m["llvm.bswap"] = m_bswap;
  m["llvm.bitreverse"] = m_bitreverse; m["llvm.fshl"] = m_fshl; m["llvm.fshr"] = m_fshr;
  m["llvm.uadd.with.overflow"] = m_uaddo; m["llvm.usub.with.overflow"] = m_usubo; m["llvm.umul.with.overflow"] = m_umulo;
  m["llvm.sadd.with.overflow"] = m_saddo; m["llvm.ssub.with.overflow"] = m_ssubo; m["llvm.smul.with.overflow"] = m_smulo;
  m["llvm.uadd.sat"] = m_uaddsat; m["llvm.usub.sat"] = m_usubsat;
  m["llvm.expect"] = m_arg0; m["llvm.launder.invariant.group"] = m_arg0; m["llvm.strip.invariant.group"] = m_arg0;
  m["llvm.ssa.copy"] = m_arg0; m["llvm.annotation"] = m_arg0;
  m["llvm.trap"] = m_trap; m["llvm.debugtrap"] = m_trap; m["llvm.ubsantrap"] = m_trap; m["abort"] = m_trap; m["__assert_fail"] = m_trap;
  m["llvm.eh.typeid.for"] = m_typeidfor; m["llvm.objectsize"] = m_objectsize; m["llvm.is.constant"] = m_isconst;
  m["llvm.load.relative"] = m_loadrel; m["llvm.stacksave"] = m_ret0;
  m["llvm.fabs"] = m_fabs; m["llvm.sqrt"] = m_fsqrt; m["sqrt"] = m_fsqrt; m["sqrtf"] = m_fsqrt; m["fabs"] = m_fabs; m["fabsf"] = m_fabs;
  m["llvm.fmuladd"] = m_fmuladd; m["llvm.minnum"] = m_fminm; m["llvm.maxnum"] = m_fmaxm; m["llvm.copysign"] = m_copysign;
  m["fmin"] = m_fminm; m["fminf"] = m_fminm; m["fmax"] = m_fmaxm; m["fmaxf"] = m_fmaxm;
  m["llvm.floor"] = m["floor"] = m["floorf"] = mathFn<dfloor>;
  m["llvm.ceil"] = m["ceil"] = m["ceilf"] = mathFn<dceil>;
  m["llvm.round"] = m["round"] = m["roundf"] = mathFn<dround>;
  m["llvm.rint"] = m["llvm.nearbyint"] = m["rint"] = mathFn<drint>;
  m["llvm.trunc"] = m["trunc"] = m["truncf"] = mathFn<dtrunc>;
  m["llvm.exp"] = m["exp"] = m["expf"] = mathFn<dexp>;
  m["logl"] = m_logl;
  m["llvm.log"] = m["log"] = m["logf"] = mathFn<dlog>;
  m["llvm.log2"] = m["log2"] = m["log2f"] = mathFn<dlog2>;
  m["tanh"] = m["tanhf"] = mathFn<dtanh>;
  m["llvm.pow"] = m["pow"] = m["powf"] = m_pow;
  m["snprintf"] = m_snprintf;
  m["__cxa_allocate_exception"] = m_malloc; m["__cxa_free_exception"] = m_free; m["__cxa_throw"] = m_cxa_throw;
  m["__cxa_rethrow"] = m_cxa_rethrow; m["__cxa_begin_catch"] = m_cxa_begin_catch; m["__cxa_end_catch"] = m_cxa_end_catch;
  m["_ZSt9terminatev"] = m_terminate; m["__cxa_pure_virtual"] = m_terminate; m["__clang_call_terminate"] = m_terminate;
  for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt19__throw_logic_errorPKc",
                 "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt25__throw_bad_function_callv",
                 "_ZSt24__throw_invalid_argumentPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt16__throw_bad_castv",
                 "_ZSt21__throw_runtime_errorPKc", "_ZSt20__throw_system_errori", "_ZSt19__throw_range_errorPKc",
                 "_ZSt22__throw_overflow_errorPKc", "_ZSt19__throw_ios_failurePKc", "__cxa_throw_bad_array_new_length"})
    m[n] = m_std_throw;
  m["__cxa_guard_acquire"] = m_guard_acquire; m["__cxa_guard_release"] = m_guard_release; m["__cxa_guard_abort"] = m_nop;
  m["__cxa_atexit"] = m_ret0; m["__cxa_thread_atexit"] = m_ret0; m["atexit"] = m_ret0;
  m["__dynamic_cast"] = m_dynamic_cast_;
  m["exit"] = m_exit_; m["_exit"] = m_exit_;
  for (auto n : {"_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv", "madvise", "munmap", "getenv", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_self", "pthread_once",
                 "fputs", "fwrite", "fputc", "fflush", "puts", "printf", "fprintf", "write", "sched_yield"})
    m[n] = m_ret0;
  for (auto n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt6localeD1Ev",
                 "_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseD2Ev", "__cxa_end_cleanup"})
    m[n] = m_nop;
  m["_ZNSt6chrono3_V212system_clock3nowEv"] = m_ret0; m["_ZNSt6chrono3_V212steady_clock3nowEv"] = m_ret0;
  m["localtime_r"] = m_localtime; m["gmtime_r"] = m_localtime; m["time"] = m_ret0; m["close"] = m_ret0;
  for (auto n : {"_ZNSt8ios_base17_M_call_callbacksENS_5eventE", "_ZNSt8ios_base20_M_dispose_callbacksEv"}) m[n] = m_nop;
  m["_ZNSt6localeaSERKS_"] = m_arg0;
  m["_ZSt18uncaught_exceptionv"] = m_ret0; m["_ZSt19uncaught_exceptionsv"] = m_ret0;
  m["__stub_arg0"] = m_arg0; m["__rangetable"] = m_rangetable;
  m["jpp_make_symbolic"] = m_make_symbolic; m["jpp_assume_i"] = m_assume; m["jpp_check_i"] = m_check; m["jpp_reach"] = m_reach;
  m["jpp_observe"] = m_observe; m["jpp_concretize"] = m_concretize; m["jpp_symbolic_mode"] = m_is_symbolic_mode;
  m["jpp_is_symbolic"] = m_is_symbolic; m["jpp_print"] = m_print; m["jpp_select"] = m_select_;
  m["jpp_param"] = m_param;
}
