// Hash-consed bit-vector expressions used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
  Const, Sym, Concat, Extract, SExt,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Not, Ite,
  FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FOeq, FOlt, FOle, FUno,
  FExt, FTrunc, FToS, FToU, SToF, UToF,
  FKey  // the bits of a float reordered so that unsigned order is the order of the values
};

struct SymSet {
  std::vector<uint64_t> bits;
  uint32_t id = 0;
  int single = -1;       // the symbol, when there is exactly one
  bool empty() const { return bits.empty(); }
  bool intersects(const SymSet *o) const {
    size_t n = bits.size() < o->bits.size() ? bits.size() : o->bits.size();
    for (size_t i = 0; i < n; ++i)
      if (bits[i] & o->bits[i]) return true;
    return false;
  }
};

struct Expr {
  K k;
  uint8_t w;      // width in bits, 1..128
  uint16_t aux;   // Extract: low bit
  uint32_t id;
  const Expr *a, *b, *c;
  u128 val;       // Const: value; Sym: symbol index
  uint64_t umin, umax;  // unsigned range (width <= 64)
  const SymSet *syms;
  // evaluation memo
  mutable uint64_t epoch;
  mutable u128 ev;
  mutable void *z3;
  bool isConst() const { return k == K::Const; }
  uint64_t lo() const { return (uint64_t)val; }
};
typedef const Expr *E;

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}
inline i128 sx128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  return (i128)(v << (128 - w)) >> (128 - w);
}

struct SymInfo { std::string name; unsigned idx; };

// A model: one byte per symbol (symbols are 8 bits wide).
typedef std::vector<uint8_t> Model;

E mkConst(u128 v, unsigned w);
E mkSym(unsigned idx);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned lo, unsigned w);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkBin(K k, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkUn(K k, E a, unsigned w);
inline E mkBool(bool b) { return mkConst(b, 1); }
u128 evalExpr(E e, const Model &m, uint64_t epoch);
uint64_t newEpoch();
u128 evalConstOp(K k, unsigned w, unsigned aw, u128 a, u128 b, u128 c, unsigned aux);
const SymSet *unionSyms(const SymSet *a, const SymSet *b);
const SymSet *emptySyms();
std::string exprStr(E e, int depth = 6);
uint64_t exprCount();
