#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
using namespace llvm;

Obj *newObj(uint32_t size, uint8_t kind) {
  auto o = new Obj;
  o->size = size;
  o->kind = kind;
  o->data = (uint8_t *)malloc(size ? size : 1);
  return o;
}
Obj *cloneObj(const Obj *s) {
  auto o = new Obj;
  o->kind = s->kind; o->freed = s->freed; o->size = s->size; o->allocSite = s->allocSite;
  if (s->data) {
    o->data = (uint8_t *)malloc(s->size ? s->size : 1);
    memcpy(o->data, s->data, s->size);
  }
  if (s->sym) {
    o->sym = (E *)malloc(sizeof(E) * (s->size ? s->size : 1));
    memcpy((void *)o->sym, s->sym, sizeof(E) * s->size);
  }
  return o;
}

// ------------------------------------------------------------------ paths
void Exec::endPath(End k, const std::string &msg) {
  endKind = k;
  endMsg = msg;
  throw PathEnd{};
}

std::string Exec::where() const {
  if (!S || S->fr.empty()) return "?";
  // innermost frame with a debug location in the code base
  for (int i = (int)S->fr.size() - 1; i >= 0; --i) {
    auto &f = S->fr[i];
    if (f.pc >= f.fi->code.size()) continue;
    auto *ir = f.fi->code[f.pc].ir;
    if (auto &d = ir->getDebugLoc()) {
      auto *l = d.get();
      std::string s = l->getFilename().str() + ":" + std::to_string(l->getLine());
      return s;
    }
  }
  return S->fr.back().fi->name;
}
std::string Exec::stackStr() const {
  std::string s;
  int n = 0;
  for (int i = (int)S->fr.size() - 1; i >= 0 && n < 14; --i, ++n) {
    auto &f = S->fr[i];
    s += "  " + demangle(f.fi->name).substr(0, 160);
    if (f.pc < f.fi->code.size())
      if (auto &d = f.fi->code[f.pc].ir->getDebugLoc()) {
        auto *l = d.get();
        s += " at " + l->getFilename().str() + ":" + std::to_string(l->getLine());
        while ((l = l->getInlinedAt())) s += " <- " + std::to_string(l->getLine());
      }
    s += "\n";
  }
  return s;
}

std::string Exec::inputsStr(const State &s, const Model &m) {
  std::string r;
  char b[8];
  for (auto &rec : s.symRecs) {
    r += rec.name + "=";
    for (uint32_t i = 0; i < rec.n; ++i) {
      size_t ix = rec.first + i;
      snprintf(b, 8, "%02x", ix < m.size() ? m[ix] : 0);
      r += b;
    }
    r += " ";
  }
  return r;
}

std::string Exec::writeReplay(const State &s, const Model &m, const std::string &tag) {
  std::string fn = opt.replayDir + "/" + opt.prefix + tag + ".in";
  std::ofstream o(fn);
  o << "entry " << opt.entry << "\n";
  for (auto &p : opt.params) o << "param " << p.first << " " << p.second << "\n";
  char b[8];
  for (auto &rec : s.symRecs) {
    o << "sym " << rec.name << " " << rec.n << " ";
    for (uint32_t i = 0; i < rec.n; ++i) {
      size_t ix = rec.first + i;
      snprintf(b, 8, "%02x", ix < m.size() ? m[ix] : 0);
      o << b;
    }
    o << "\n";
  }
  return fn;
}

void Exec::violation(const std::string &kind, const std::string &msg, const State &s, const Model &m) {
  std::string w = where();
  std::string key = kind + "|" + msg + "|" + w;
  ++st.violation;
  if (!violationKeys.insert(key).second) return;
  if (violations.size() >= opt.maxViolations) return;
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.where = w;
  v.stack = stackStr();
  v.inputs = inputsStr(s, m);
  v.replayFile = writeReplay(s, m, "v" + std::to_string(violations.size()) + "_" + std::to_string(getpid()));
  violations.push_back(v);
  if (opt.verbose)
    fprintf(stderr, "VIOL %s: %s at %s\n%s inputs %s\n", kind.c_str(), msg.c_str(), w.c_str(), v.stack.c_str(), v.inputs.c_str());
}


State::State(const State *o)
    : id(o->id), fr(o->fr), regs(o->regs), mem(o->mem), freeStackIds(o->freeStackIds), pc(o->pc),
      model(o->model), modelEpoch(o->modelEpoch), symRecs(o->symRecs), nsyms(o->nsyms), sweep(o->sweep), bound(o->bound),
      observed(o->observed), reached(o->reached), icount(o->icount), branches(o->branches),
      exnPtr(o->exnPtr), exnType(o->exnType), caught(o->caught), inputDesc(o->inputDesc) {}

State *Exec::fork() {
  auto n = new State(S);
  n->id = nextStateId++;
  ++st.forks;
  return n;
}

// ------------------------------------------------------------------ constraints
void Exec::addConstraint(State &s, E c) {
  if (c->isConst()) return;
  if (c->k == K::And) {
    addConstraint(s, c->a);
    addConstraint(s, c->b);
    return;
  }
  for (E x : s.pc)
    if (x == c) return;
  s.pc.push_back(c);
  if (c->k == K::Eq && c->a->k == K::Sym && c->b->isConst()) {
    size_t i = (size_t)c->a->val;
    if (s.bound.size() <= i) s.bound.resize(i + 1, -1);
    s.bound[i] = (int16_t)c->b->lo();
  }
}

int Exec::pcKnows(E c) {
  E nc = mkNot(c);
  for (E x : S->pc) {
    if (x == c) return 1;
    if (x == nc) return 0;
  }
  return -1;
}

bool Exec::allBound(E e) {
  auto &b = e->syms->bits;
  for (size_t i = 0; i < b.size(); ++i)
    for (uint64_t w = b[i]; w; w &= w - 1) {
      size_t ix = i * 64 + __builtin_ctzll(w);
      if (ix >= S->bound.size() || S->bound[ix] < 0) return false;
    }
  return true;
}

// every value of a nearly decided byte becomes a path of its own
void Exec::maybeBind(E c) {
  int s = c->syms->single;
  if (!opt.bindSmall || s < 0) return;
  if ((size_t)s < S->bound.size() && S->bound[s] >= 0) return;
  if (domainSize(S->pc, s) > opt.bindSmall) return;
  uint64_t v = concretize(mkSym(s));
  addConstraint(*S, mkBin(K::Eq, mkSym(s), mkConst(v, 8)));
  S->sweep = true;
}

void Exec::sweepRegs() {
  S->sweep = false;
  for (auto &v : S->regs)
    if (v.e && !v.e->isConst() && v.e->w <= 64 && allBound(v.e)) {
      v.v = (uint64_t)evalS(v.e);
      v.e = nullptr;
    }
}

bool Exec::branchOn(E c) {
  if (c->isConst()) return c->val != 0;
  if (opt.bindSmall && allBound(c)) return evalS(c) != 0;
  bool r = branchOn1(c);
  if (opt.bindSmall && !binding) {
    struct G { bool &b; G(bool &x) : b(x) { b = true; } ~G() { b = false; } } g(binding);
    maybeBind(c);
  }
  return r;
}

bool Exec::branchOn1(E c) {
  E nc = mkNot(c);
  for (E x : S->pc) {
    if (x == c) return true;
    if (x == nc) return false;
  }
  if (elapsed() > opt.maxTime * 1.1 + 5) {
    ++st.pending;
    endPath(End::Dropped, "time limit");
  }
  bool ev = evalS(c) != 0;
  E taken = ev ? c : nc, other = ev ? nc : c;
  Model m;
  Sat r = solverCheck(S->pc, other, S->model, m);
  ++S->branches;
  if (r == Sat::Yes) {
    State *n = fork();
    addConstraint(*n, other);
    n->model = m;
    n->modelEpoch = newEpoch();
    work.push_back(n);
    addConstraint(*S, taken);
  } else if (r == Sat::Unknown) {
    ++st.unsupported;
    ++st.unsupportedMsgs["solver gave no answer for a branch at " + where()];
    addConstraint(*S, taken);
  }
  return ev;
}

uint64_t Exec::concretize(E e) {
  for (;;) {
    if (e->isConst()) return e->lo();
    u128 v = evalS(e);
    if (branchOn(mkBin(K::Eq, e, mkConst(v, e->w)))) return (uint64_t)v;
    // cannot happen: the model satisfies the equality
  }
}

void Exec::assume(E c) {
  if (c->isConst()) {
    if (!c->val) endPath(End::Assumed, "");
    return;
  }
  if (!evalS(c)) {
    Model m;
    Sat r = solverCheck(S->pc, c, S->model, m);
    if (r == Sat::No) endPath(End::Assumed, "");
    if (r == Sat::Unknown) unsupported("solver gave no answer for an assumption at " + where());
    S->model = m;
    S->modelEpoch = newEpoch();
  }
  addConstraint(*S, c);
}

void Exec::check(E c, const std::string &msg, const std::string &kind) {
  ++st.checks;
  if (c->isConst()) {
    ++st.checksConst;
    if (c->val) return;
    violation(kind, msg, *S, S->model);
    endPath(End::Violation, msg);
  }
  ++st.checksSolver;
  E nc = mkNot(c);
  if (!evalS(c)) {
    violation(kind, msg, *S, S->model);
    Model m;
    if (solverCheck(S->pc, c, S->model, m) != Sat::Yes) endPath(End::Violation, msg);
    S->model = m;
    S->modelEpoch = newEpoch();
    addConstraint(*S, c);
    return;
  }
  Model m;
  Sat r = solverCheck(S->pc, nc, S->model, m, true);
  if (r == Sat::No) return;
  if (r == Sat::Unknown) {
    ++st.unsupported;
    ++st.unsupportedMsgs["solver gave no answer for check '" + msg + "' at " + where()];
  } else violation(kind, msg, *S, m);
  addConstraint(*S, c);
}

// ------------------------------------------------------------------ memory
uint32_t Exec::newId(uint8_t kind) {
  if (kind == 1 && !S->freeStackIds.empty()) {
    uint32_t id = S->freeStackIds.back();
    S->freeStackIds.pop_back();
    return id;
  }
  return S->mem.count;
}

uint64_t Exec::alloc(uint64_t size, uint8_t kind, bool zero) {
  if (size > (1ull << 28)) unsupported("allocation of " + std::to_string(size) + " bytes at " + where());
  uint32_t id = newId(kind);
  Obj *o = newObj((uint32_t)size, kind);
  memset(o->data, zero ? 0 : 0xab, size);
  S->mem.set(id, o);
  return baseOf(id);
}

void Exec::boundsViolation(const std::string &what, uint64_t addr, uint64_t n) {
  violation("memory", what, *S, S->model);
  endPath(End::Violation, what);
}

void Exec::freeObj(uint64_t addr, const char *what) {
  if (!addr) return;
  uint32_t id = addr >> 32;
  Obj *o = S->mem.get(id);
  if (!o || o->kind != 0 || addr != baseOf(id)) boundsViolation(std::string("invalid pointer passed to ") + what, addr, 0);
  if (o->freed) boundsViolation("double free", addr, 0);
  auto t = new Obj;
  t->kind = 0;
  t->freed = true;
  t->size = o->size;
  S->mem.set(id, t);
}

Exec::Ref Exec::resolve(const Val &a, uint64_t n, bool write) {
  if (!a.e) {
    uint32_t id = a.v >> 32;
    Obj *o = S->mem.get(id);
    uint64_t off = a.v - baseOf(id);
    if (__builtin_expect(!o || o->freed || off > o->size || n > o->size - off || (write && o->kind >= 3 && n), 0)) {
      if (n == 0) return {id, off, nullptr};
      if (!o) boundsViolation(a.v < 4096 ? "null pointer access" : "access through an invalid or dangling pointer", a.v, n);
      if (o->freed) boundsViolation("use after free", a.v, n);
      if (o->kind == 5) unsupported("access to external global at " + where());
      if (write && o->kind == 3) boundsViolation("write to constant memory", a.v, n);
      char b[160];
      snprintf(b, 160, "out-of-bounds %s of %llu bytes at offset %lld of a %u-byte %s object", write ? "write" : "read",
               (unsigned long long)n, (long long)off, o->size, o->kind == 0 ? "heap" : o->kind == 1 ? "stack" : "global");
      violation("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " (" + (o->kind == 0 ? "heap" : o->kind == 1 ? "stack" : "global") + ")", *S, S->model);
      endPath(End::Violation, b);
    }
    return {id, off, nullptr};
  }
  if (opt.concAddr || (opt.bindSmall && allBound(a.e))) {
    Val c;
    c.v = concretize(a.e);
    return resolve(c, n, write);
  }
  uint64_t av = (uint64_t)evalS(a.e);
  uint32_t id = av >> 32;
  Obj *o = S->mem.get(id);
  E off = mkBin(K::Add, a.e, mkConst((u128)(-baseOf(id)), 64));
  bool ok = o && !o->freed && o->size >= n;
  E inb = ok ? mkBin(K::Ule, off, mkConst(o->size - n, 64)) : mkBool(false);
  if (!branchOn(inb)) {
    if (o && o->kind == 5) unsupported("access to external global at " + where());
    boundsViolation(std::string("out-of-bounds ") + (write ? "write" : "read") + " (symbolic address)", av, n);
  }
  if (write && o->kind >= 3) boundsViolation("write to constant memory", av, n);
  if (off->isConst()) return {id, off->lo(), nullptr};
  return {id, 0, off};
}

static inline E byteExpr(Obj *o, uint64_t i) {
  return o->sym && o->sym[i] ? o->sym[i] : mkConst(o->data[i], 8);
}

Val Exec::readAt(Obj *o, uint64_t off, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  Val r;
  if (o->sym) {
    bool any = false;
    for (unsigned i = 0; i < n; ++i) {
      E x = o->sym[off + i];
      if (!x) continue;
      if (x->k == K::Sym) {
        size_t ix = (size_t)x->val;
        if (ix < S->bound.size() && S->bound[ix] >= 0) continue;
      }
      any = true;
      break;
    }
    bool symAny = any;
    if (!symAny) {
      for (unsigned i = 0; i < n; ++i) symAny |= o->sym[off + i] != nullptr;
    }
    if (symAny) {
      E e = nullptr;
      for (unsigned i = 0; i < n; ++i) {
        E x = byteExpr(o, off + i);
        if (x->k == K::Sym) {
          size_t ix = (size_t)x->val;
          if (ix < S->bound.size() && S->bound[ix] >= 0) x = mkConst(S->bound[ix], 8);
        }
        e = e ? mkConcat(x, e) : x;
      }
      if (bits < n * 8) e = mkExtract(e, 0, bits);
      if (opt.bindSmall && !e->isConst() && allBound(e)) e = mkConst(evalS(e), e->w);
      return fromE(e);
    }
  }
  if (n <= 8) {
    memcpy(&r.v, o->data + off, n);
    r.v &= mask64(bits);
  } else {
    u128 x = 0;
    memcpy(&x, o->data + off, n);
    r.e = mkConst(x, bits);
  }
  return r;
}

void Exec::writeAt(Obj *o, uint64_t off, unsigned bits, const Val &v) {
  unsigned n = (bits + 7) / 8;
  if (!v.e) {
    memcpy(o->data + off, &v.v, n);
    if (o->sym) memset((void *)(o->sym + off), 0, n * sizeof(E));
    return;
  }
  if (v.e->isConst()) {
    u128 x = v.e->val;
    memcpy(o->data + off, &x, n);
    if (o->sym) memset((void *)(o->sym + off), 0, n * sizeof(E));
    return;
  }
  if (!o->sym) o->sym = (E *)calloc(o->size ? o->size : 1, sizeof(E));
  E e = v.e;
  if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; ++i) {
    E b = mkExtract(e, i * 8, 8);
    if (b->isConst()) { o->data[off + i] = (uint8_t)b->lo(); o->sym[off + i] = nullptr; }
    else o->sym[off + i] = b;
  }
}

Val Exec::readInt(const Ref &r, unsigned bits) {
  Obj *o = S->mem.get(r.id);
  unsigned n = (bits + 7) / 8;
  if (!r.soff) return readAt(o, r.off, bits);
  uint64_t lo = r.soff->umin, hi = std::min<uint64_t>(r.soff->umax, o->size - n);
  unsigned stride = 1;
  E se = r.soff;
  while (se->k == K::Concat && se->b->k == K::Concat) se = se->b;
  if (r.soff->k == K::Concat) {
    E t = r.soff;
    while (t->b->k == K::Concat) t = t->b;
    E last = t->b;
    if (last->isConst() && last->val == 0 && last->w < 16) stride = 1u << last->w;
  }
  if (stride > 1) lo = (lo + stride - 1) / stride * stride;
  uint64_t cnt = hi >= lo ? (hi - lo) / stride + 1 : 0;
  if (cnt == 0 || cnt > 4096) {
    uint64_t off = concretize(r.soff);
    return readAt(o, off, bits);
  }
  std::function<E(uint64_t, uint64_t)> rec = [&](uint64_t a, uint64_t b) -> E {
    if (a == b) {
      Val v = readAt(o, lo + a * stride, bits);
      return expr(v, bits);
    }
    uint64_t m = (a + b) / 2;
    E x = rec(a, m), y = rec(m + 1, b);
    if (x == y) return x;
    return mkIte(mkBin(K::Ult, r.soff, mkConst(lo + (m + 1) * stride, 64)), x, y);
  };
  return fromE(rec(0, cnt - 1));
}

void Exec::writeInt(const Ref &r, unsigned bits, const Val &v) {
  if (!r.soff) {
    writeAt(S->mem.writable(r.id), r.off, bits, v);
    return;
  }
  unsigned n = (bits + 7) / 8;
  Obj *o = S->mem.get(r.id);
  uint64_t lo = r.soff->umin, hi = std::min<uint64_t>(r.soff->umax, o->size - n);
  if (opt.iteWrite && hi >= lo && hi - lo < opt.iteWrite) {
    // byte-wise guarded update
    o = S->mem.writable(r.id);
    E val = expr(v, bits);
    if (val->w < n * 8) val = mkZExt(val, n * 8);
    std::vector<E> nb;
    for (uint64_t p = lo; p < hi + n; ++p) {
      E cur = byteExpr(o, p);
      for (unsigned k = 0; k < n; ++k)
        if (p >= k && p - k >= lo && p - k <= hi)
          cur = mkIte(mkBin(K::Eq, r.soff, mkConst(p - k, 64)), mkExtract(val, k * 8, 8), cur);
      nb.push_back(cur);
    }
    for (uint64_t p = lo; p < hi + n; ++p) writeAt(o, p, 8, fromE(nb[p - lo]));
    return;
  }
  uint64_t off = concretize(r.soff);
  writeAt(S->mem.writable(r.id), off, bits, v);
}

Val Exec::loadLeaf(const Val &addr, const Leaf &l) {
  Val a = addr;
  if (l.off) {
    if (a.e) a.e = mkBin(K::Add, a.e, mkConst(l.off, 64));
    else a.v += l.off;
  }
  Ref r = resolve(a, l.size, false);
  return readInt(r, l.bits);
}

Val Exec::readByte(uint64_t addr) {
  Val a;
  a.v = addr;
  Ref r = resolve(a, 1, false);
  return readAt(S->mem.get(r.id), r.off, 8);
}
uint8_t Exec::readByteC(uint64_t addr) { return (uint8_t)conc(readByte(addr)); }
void Exec::writeByte(uint64_t addr, const Val &v) {
  Val a;
  a.v = addr;
  Ref r = resolve(a, 1, true);
  writeAt(S->mem.writable(r.id), r.off, 8, v);
}
std::string Exec::readCStr(uint64_t addr) {
  std::string s;
  for (;;) {
    uint8_t c = readByteC(addr++);
    if (!c) break;
    s.push_back((char)c);
    if (s.size() > 100000) unsupported("unterminated string");
  }
  return s;
}

void Exec::copyBytes(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Val a, b;
  a.v = d;
  b.v = s;
  Ref rs = resolve(b, n, false);
  Ref rd = resolve(a, n, true);
  Obj *od = S->mem.writable(rd.id);
  Obj *os = S->mem.get(rs.id);
  memmove(od->data + rd.off, os->data + rs.off, n);
  if (os->sym) {
    bool any = od->sym != nullptr;
    if (!any)
      for (uint64_t i = 0; i < n && !any; ++i) any = os->sym[rs.off + i] != nullptr;
    if (any) {
      if (!od->sym) od->sym = (E *)calloc(od->size ? od->size : 1, sizeof(E));
      memmove((void *)(od->sym + rd.off), os->sym + rs.off, n * sizeof(E));
    }
  } else if (od->sym) memset((void *)(od->sym + rd.off), 0, n * sizeof(E));
}

// ------------------------------------------------------------------ frames
void Exec::pushFrame(FuncInfo *fi, const Inst *call) {
  if (S->fr.size() > 2000) {
    violation("memory", "unbounded recursion", *S, S->model);
    endPath(End::Violation, "stack overflow");
  }
  decode(fi);
  Frame f;
  f.fi = fi;
  f.pc = 0;
  f.base = S->regs.size();
  fi->wasRun = true;
  ++fi->count;
  std::vector<Val> tmp;
  uint32_t caller = S->fr.empty() ? 0 : S->fr.back().base;
  FuncInfo *cfi = S->fr.empty() ? nullptr : S->fr.back().fi;
  S->regs.resize(f.base + fi->nregs);
  std::vector<std::pair<uint32_t, uint64_t>> bv;
  if (call) {
    for (size_t i = 0; i < call->args.size() && i < fi->argSlot.size(); ++i) {
      int32_t op = call->args[i].first;
      for (uint32_t k = 0; k < call->args[i].second; ++k) {
        Val v = op >= 0 ? S->regs[caller + op + k] : cfi->consts[~op + k];
        if (call->byval[i]) {
          uint64_t src = conc(v);
          uint64_t d = alloc(call->byval[i], 1);
          f.allocas.push_back(d >> 32);
          copyBytes(d, src, call->byval[i]);
          v = Val();
          v.v = d;
        }
        if (v.e) fi->wasSymbolic = true;
        S->regs[f.base + fi->argSlot[i] + k] = v;
      }
    }
  }
  S->fr.push_back(std::move(f));
}

void Exec::popFrame() {
  auto &f = S->fr.back();
  for (auto id : f.allocas) {
    S->mem.set(id, nullptr);
    S->freeStackIds.push_back(id);
  }
  S->regs.resize(f.base);
  S->fr.pop_back();
}

void Exec::takeEdge(const Edge &e) {
  auto &f = S->fr.back();
  Val *R = S->regs.data() + f.base;
  const Val *C = f.fi->consts.data();
  auto &mv = e.moves;
  if (mv.size() == 1 && mv[0].n == 1) {
    R[mv[0].dst] = mv[0].src >= 0 ? R[mv[0].src] : C[~mv[0].src];
  } else if (!mv.empty()) {
    Val tmpS[32];
    std::vector<Val> tmpV;
    size_t tot = 0;
    for (auto &m : mv) tot += m.n;
    Val *t = tmpS;
    if (tot > 32) { tmpV.resize(tot); t = tmpV.data(); }
    size_t p = 0;
    for (auto &m : mv)
      for (uint32_t k = 0; k < m.n; ++k) t[p++] = m.src >= 0 ? R[m.src + k] : C[~m.src + k];
    p = 0;
    for (auto &m : mv)
      for (uint32_t k = 0; k < m.n; ++k) R[m.dst + k] = t[p++];
  }
  f.pc = e.target;
}

void Exec::finishCall(const Inst &in, const Val *rets, uint32_t n) {
  auto &f = S->fr.back();
  Val *R = S->regs.data() + f.base;
  if (in.dst >= 0)
    for (uint32_t k = 0; k < in.n && k < n; ++k) R[in.dst + k] = rets[k];
  if (in.isInvoke) takeEdge(in.edges[0]);
  else ++f.pc;
}

void Exec::doThrow(uint64_t ptr, uint64_t type) {
  S->exnPtr = ptr;
  S->exnType = type;
  uint64_t siVt = 0, vmiVt = 0;
  for (auto &g : mod->globals()) {
    if (g.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") siVt = gaddr[&g] + 16;
    if (g.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiVt = gaddr[&g] + 16;
  }
  std::function<bool(uint64_t, uint64_t)> matches = [&](uint64_t thrown, uint64_t want) -> bool {
    if (thrown == want) return true;
    Obj *o = S->mem.get(thrown >> 32);
    if (!o || o->kind == 5 || o->size < 24) return false;
    uint64_t off = thrown - baseOf(thrown >> 32);
    uint64_t vt, b;
    memcpy(&vt, o->data + off, 8);
    if (vt == siVt && siVt) { memcpy(&b, o->data + off + 16, 8); return matches(b, want); }
    if (vt == vmiVt && vmiVt) {
      uint32_t nb;
      memcpy(&nb, o->data + off + 20, 4);
      for (uint32_t i = 0; i < nb; ++i) {
        memcpy(&b, o->data + off + 24 + i * 16, 8);
        if (matches(b, want)) return true;
      }
    }
    return false;
  };
  std::string tname;
  for (auto &g : mod->globals())
    if (gaddr[&g] == type) tname = demangle(g.getName().str());
  std::string w = where(), stk = stackStr();
  State *keep = nullptr;
  (void)keep;
  size_t depth = S->fr.size();
  (void)depth;
  while (!S->fr.empty()) {
    auto &f = S->fr.back();
    const Inst &in = f.fi->code[f.pc];
    if (in.isInvoke) {
      const Inst &lp = f.fi->code[in.edges[1].target];
      int sel = -1;
      for (int32_t c : lp.catches) {
        uint64_t t = c >= 0 ? 0 : f.fi->consts[~c].v;
        if (t == 0 || (type && matches(type, t))) {
          auto it = typeIds.find(t);
          if (it == typeIds.end()) it = typeIds.emplace(t, (int)typeIds.size() + 1).first;
          sel = it->second;
          break;
        }
      }
      if (sel < 0 && lp.cleanup) sel = 0;
      if (sel >= 0) {
        takeEdge(in.edges[1]);
        auto &g = S->fr.back();
        const Inst &l2 = g.fi->code[g.pc];
        Val a, b;
        a.v = ptr;
        b.v = (uint32_t)sel;
        S->regs[g.base + l2.dst] = a;
        if (l2.n > 1) S->regs[g.base + l2.dst + 1] = b;
        ++g.pc;
        return;
      }
    }
    popFrame();
  }
  S->inputDesc = w;
  endPath(End::Exception, tname + " thrown at " + w);
}

uint64_t gBarrier = 0;

static inline K icmpKind(unsigned p, bool &swap, bool &neg) {
  swap = neg = false;
  switch (p) {
    case CmpInst::ICMP_EQ: return K::Eq;
    case CmpInst::ICMP_NE: neg = true; return K::Eq;
    case CmpInst::ICMP_ULT: return K::Ult;
    case CmpInst::ICMP_ULE: return K::Ule;
    case CmpInst::ICMP_UGT: swap = true; return K::Ult;
    case CmpInst::ICMP_UGE: swap = true; return K::Ule;
    case CmpInst::ICMP_SLT: return K::Slt;
    case CmpInst::ICMP_SLE: return K::Sle;
    case CmpInst::ICMP_SGT: swap = true; return K::Slt;
    default: swap = true; return K::Sle;
  }
}
static inline bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
    case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
    default: return sx(a, w) >= sx(b, w);
  }
}
static E fcmpE(unsigned p, E a, E b) {
  E un = mkBin(K::FUno, a, b);
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkBool(false);
    case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_OEQ: return mkBin(K::FOeq, a, b);
    case CmpInst::FCMP_OGT: return mkBin(K::FOlt, b, a);
    case CmpInst::FCMP_OGE: return mkBin(K::FOle, b, a);
    case CmpInst::FCMP_OLT: return mkBin(K::FOlt, a, b);
    case CmpInst::FCMP_OLE: return mkBin(K::FOle, a, b);
    case CmpInst::FCMP_ONE: return mkBin(K::And, mkNot(un), mkNot(mkBin(K::FOeq, a, b)));
    case CmpInst::FCMP_ORD: return mkNot(un);
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return mkBin(K::Or, un, mkBin(K::FOeq, a, b));
    case CmpInst::FCMP_UGT: return mkNot(mkBin(K::FOle, a, b));
    case CmpInst::FCMP_UGE: return mkNot(mkBin(K::FOlt, a, b));
    case CmpInst::FCMP_ULT: return mkNot(mkBin(K::FOle, b, a));
    case CmpInst::FCMP_ULE: return mkNot(mkBin(K::FOlt, b, a));
    case CmpInst::FCMP_UNE: return mkNot(mkBin(K::FOeq, a, b));
  }
  return mkBool(false);
}

void Exec::runState() {
  uint64_t barrier = gBarrier;
refresh:
  if (S->fr.size() <= barrier) return;
  {
    Frame &f = S->fr.back();
    FuncInfo *fi = f.fi;
    Val *R = S->regs.data() + f.base;
    const Val *C = fi->consts.data();
    const Inst *code = fi->code.data();
#define G(op, k) ((op) >= 0 ? R[(op) + (k)] : C[~(op) + (k)])
    for (;;) {
      const Inst &in = code[f.pc];
      ++S->icount;
      ++st.instrs;
      switch (in.op) {
        case Op::Bin: {
          for (uint32_t k = 0; k < in.n; ++k) {
            const Val &a = G(in.a, k), &b = G(in.b, k);
            K op = (K)in.sub;
            unsigned w = in.bits;
            if (!a.e && !b.e) {
              uint64_t x = a.v, y = b.v, r;
              switch (op) {
                case K::Add: r = x + y; break;
                case K::Sub: r = x - y; break;
                case K::Mul: r = x * y; break;
                case K::And: r = x & y; break;
                case K::Or: r = x | y; break;
                case K::Xor: r = x ^ y; break;
                case K::Shl: r = y >= w ? 0 : x << y; break;
                case K::LShr: r = y >= w ? 0 : x >> y; break;
                case K::AShr: r = (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
                default:
                  if (y == 0) {
                    violation("arithmetic", "division by zero", *S, S->model);
                    endPath(End::Violation, "division by zero");
                  }
                  if (op == K::UDiv) r = x / y;
                  else if (op == K::URem) r = x % y;
                  else r = (uint64_t)evalConstOp(op, w, w, x, y, 0, 0);
              }
              Val &d = R[in.dst + k];
              d.v = r & mask64(w);
              d.e = nullptr;
            } else {
              E x = expr(a, w), y = expr(b, w);
              fi->wasSymbolic = true;
              if (op == K::UDiv || op == K::SDiv || op == K::URem || op == K::SRem)
                check(mkNot(mkBin(K::Eq, y, mkConst(0, w))), "division by zero", "arithmetic");
              R[in.dst + k] = fromE(mkBin(op, x, y));
            }
          }
          ++f.pc;
          break;
        }
        case Op::FBin: {
          if (in.bits == 80) {
            long double x = ld(G(in.a, 0)), y = ld(G(in.b, 0));
            R[in.dst] = fromLd((K)in.sub == K::FAdd ? x + y : (K)in.sub == K::FSub ? x - y : (K)in.sub == K::FMul ? x * y : x / y);
            ++f.pc;
            break;
          }
          for (uint32_t k = 0; k < in.n; ++k) {
            const Val &a = G(in.a, k), &b = G(in.b, k);
            unsigned w = in.bits;
            if (!a.e && !b.e) {
              Val d;
              d.v = (uint64_t)evalConstOp((K)in.sub, w, w, a.v, b.v, 0, 0);
              R[in.dst + k] = d;
            } else {
              fi->wasSymbolic = true;
              R[in.dst + k] = fromE(mkBin((K)in.sub, expr(a, w), expr(b, w)));
            }
          }
          ++f.pc;
          break;
        }
        case Op::FNeg:
          for (uint32_t k = 0; k < in.n; ++k) {
            Val a = G(in.a, k);
            R[in.dst + k] = fromE(mkUn(K::FNeg, expr(a, in.bits), in.bits));
          }
          ++f.pc;
          break;
        case Op::ICmp: {
          for (uint32_t k = 0; k < in.n; ++k) {
            const Val &a = G(in.a, k), &b = G(in.b, k);
            if (!a.e && !b.e) {
              bool r = icmpC(in.sub, a.v, b.v, in.bits);
              Val &d = R[in.dst + k];
              d.v = r;
              d.e = nullptr;
            } else {
              fi->wasSymbolic = true;
              bool sw, ng;
              K op = icmpKind(in.sub, sw, ng);
              E x = expr(a, in.bits), y = expr(b, in.bits);
              E r = sw ? mkBin(op, y, x) : mkBin(op, x, y);
              if (ng) r = mkNot(r);
              R[in.dst + k] = fromE(r);
            }
          }
          ++f.pc;
          break;
        }
        case Op::FCmp: {
          if (in.bits == 80) {
            long double x = ld(G(in.a, 0)), y = ld(G(in.b, 0));
            unsigned rel = x != x || y != y ? 8 : x > y ? 2 : x < y ? 4 : 1;  // the bits of the predicates
            R[in.dst] = fromE(mkBool((in.sub & rel) != 0));
            ++f.pc;
            break;
          }
          for (uint32_t k = 0; k < in.n; ++k) {
            Val a = G(in.a, k), b = G(in.b, k);
            if (a.e || b.e) fi->wasSymbolic = true;
            R[in.dst + k] = fromE(fcmpE(in.sub, expr(a, in.bits), expr(b, in.bits)));
          }
          ++f.pc;
          break;
        }
        case Op::ZExt: case Op::SExt: case Op::Trunc: {
          for (uint32_t k = 0; k < in.n; ++k) {
            Val a = G(in.a, k);
            unsigned from = in.imm, to = in.bits;
            if (!a.e && from <= 64 && to <= 64) {
              Val &d = R[in.dst + k];
              d.v = in.op == Op::SExt ? (uint64_t)sx(a.v, from) & mask64(to) : a.v & mask64(to);
              d.e = nullptr;
            } else {
              E x = expr(a, from);
              E r = in.op == Op::ZExt ? mkZExt(x, to) : in.op == Op::SExt ? mkSExt(x, to) : mkExtract(x, 0, to);
              Val v;
              if (r->isConst() && to <= 64) v.v = r->lo();
              else v.e = r;
              R[in.dst + k] = v;
            }
          }
          ++f.pc;
          break;
        }
        case Op::FpToS: case Op::FpToU: case Op::SToF: case Op::UToF: case Op::FpExt: case Op::FpTrunc: {
          if (in.bits == 80 || in.imm == 80) {
            Val a = G(in.a, 0), d;
            if (in.bits == 80) {
              if (a.e) unsupported("symbolic value as long double");
              long double x;
              if (in.op == Op::SToF) x = (long double)sx(a.v, in.imm);
              else if (in.op == Op::UToF) x = (long double)a.v;
              else if (in.imm == 32) { float t; uint32_t b = (uint32_t)a.v; memcpy(&t, &b, 4); x = t; }
              else { double t; memcpy(&t, &a.v, 8); x = t; }
              R[in.dst] = fromLd(x);
            } else {
              long double x = ld(a);
              if (in.op == Op::FpToS) d.v = (uint64_t)(int64_t)x & mask64(in.bits);
              else if (in.op == Op::FpToU) d.v = (uint64_t)x & mask64(in.bits);
              else if (in.bits == 32) { float t = (float)x; uint32_t b; memcpy(&b, &t, 4); d.v = b; }
              else { double t = (double)x; memcpy(&d.v, &t, 8); }
              R[in.dst] = d;
            }
            ++f.pc;
            break;
          }
          for (uint32_t k = 0; k < in.n; ++k) {
            Val a = G(in.a, k);
            K op = in.op == Op::FpToS ? K::FToS : in.op == Op::FpToU ? K::FToU : in.op == Op::SToF ? K::SToF
                 : in.op == Op::UToF ? K::UToF : in.op == Op::FpExt ? K::FExt : K::FTrunc;
            R[in.dst + k] = fromE(mkUn(op, expr(a, in.imm), in.bits));
          }
          ++f.pc;
          break;
        }
        case Op::Copy: case Op::PtrCast:
          if (in.n == 1) R[in.dst] = G(in.a, 0);
          else
            for (uint32_t k = 0; k < in.n; ++k) R[in.dst + k] = G(in.a, k);
          ++f.pc;
          break;
        case Op::Load: {
          const Val &a = G(in.a, 0);
          if (!a.e && in.n == 1) {
            uint32_t id = a.v >> 32;
            Obj *o = S->mem.get(id);
            uint64_t off = a.v - baseOf(id);
            uint32_t sz = in.leaves[0].size;
            if (o && !o->freed && o->kind < 4 && off <= o->size && sz <= o->size - off) {
              if (!o->sym && in.bits <= 64) {
                uint64_t v = 0;
                memcpy(&v, o->data + off, sz);
                R[in.dst].v = v & mask64(in.bits);
                R[in.dst].e = nullptr;
              } else {
                Val v = readAt(o, off, in.bits);
                if (v.e) fi->wasSymbolic = true;
                R[in.dst] = v;
              }
              ++f.pc;
              break;
            }
          }
          std::vector<Val> vs(in.n);
          Val base = a;
          if (in.imm) resolve(base, in.imm, false);
          for (uint32_t k = 0; k < in.n; ++k) vs[k] = loadLeaf(base, in.leaves[k]);
          for (uint32_t k = 0; k < in.n; ++k) R[in.dst + k] = vs[k];
          ++f.pc;
          break;
        }
        case Op::Store: {
          Val a = G(in.a, 0);
          if (in.n == 1) {
            Ref r = resolve(a, in.leaves[0].size, true);
            if (r.soff) writeInt(r, in.leaves[0].bits <= 64 && in.leaves[0].bits % 8 ? (in.leaves[0].bits + 7) / 8 * 8 : in.leaves[0].bits, G(in.b, 0).e && G(in.b, 0).e->w % 8 ? fromE(mkZExt(G(in.b, 0).e, (in.leaves[0].bits + 7) / 8 * 8)) : G(in.b, 0));
            else writeAt(S->mem.writable(r.id), r.off, in.leaves[0].bits, G(in.b, 0));
          } else if (in.n) {
            if (a.e) a.v = concretize(a.e), a.e = nullptr;
            resolve(a, in.imm, true);
            for (uint32_t k = 0; k < in.n; ++k) {
              Val p;
              p.v = a.v + in.leaves[k].off;
              Ref r = resolve(p, in.leaves[k].size, true);
              writeAt(S->mem.writable(r.id), r.off, in.leaves[k].bits, G(in.b, k));
            }
          }
          ++f.pc;
          break;
        }
        case Op::Gep: {
          const Val &a = G(in.a, 0);
          uint64_t off = in.imm;
          E se = a.e;
          uint64_t base = a.v;
          for (size_t i = 0; i < in.gep.size(); ++i) {
            const Val &x = G(in.gep[i].first, 0);
            if (!x.e) off += (uint64_t)sx(x.v, in.gepBits[i]) * in.gep[i].second;
            else {
              E t = mkSExt(x.e, 64);
              if (in.gepBits[i] > 64) t = mkExtract(x.e, 0, 64);
              t = mkBin(K::Mul, t, mkConst(in.gep[i].second, 64));
              se = se ? mkBin(K::Add, se, t) : mkBin(K::Add, mkConst(base, 64), t);
              base = 0;
              fi->wasSymbolic = true;
            }
          }
          Val d;
          if (se) d = fromE(mkBin(K::Add, se, mkConst(off, 64)));
          else d.v = base + off;
          R[in.dst] = d;
          ++f.pc;
          break;
        }
        case Op::Alloca: {
          Val n = G(in.a, 0);
          uint64_t cnt = conc(n);
          uint64_t ad = alloc(in.imm * cnt, 1);
          f.allocas.push_back(ad >> 32);
          R[in.dst].v = ad;
          R[in.dst].e = nullptr;
          ++f.pc;
          break;
        }
        case Op::Br: {
          if (S->icount > opt.maxInstr && !inInit) endPath(End::Budget, "instruction budget exceeded at " + where());
          takeEdge(in.edges[0]);
          break;
        }
        case Op::CondBr: {
          if (S->icount > opt.maxInstr && !inInit) endPath(End::Budget, "instruction budget exceeded at " + where());
          if (S->sweep) sweepRegs();
          const Val &c = G(in.a, 0);
          bool t = c.e ? branchOn(c.e) : (c.v & 1);
          takeEdge(in.edges[t ? 0 : 1]);
          break;
        }
        case Op::Switch: {
          const Val &c = G(in.a, 0);
          if (!c.e) {
            size_t t = 0;
            for (size_t i = 0; i < in.cases.size(); ++i)
              if (in.cases[i] == c.v) { t = i + 1; break; }
            takeEdge(in.edges[t]);
          } else {
            // group the cases by destination block
            E ce = c.e;
            uint64_t v = (uint64_t)evalS(ce);
            size_t t = 0;
            for (size_t i = 0; i < in.cases.size(); ++i)
              if (in.cases[i] == v) { t = i + 1; break; }
            auto same = [&](size_t i) {
              if (in.edges[i].target != in.edges[t].target) return false;
              auto &x = in.edges[i].moves, &y = in.edges[t].moves;
              for (size_t q = 0; q < x.size(); ++q)
                if (x[q].src != y[q].src) return false;
              return true;
            };
            E cond = mkBool(false), any = mkBool(false);
            for (size_t i = 0; i < in.cases.size(); ++i) {
              E q = mkBin(K::Eq, ce, mkConst(in.cases[i], in.bits));
              any = mkBin(K::Or, any, q);
              if (same(i + 1)) cond = mkBin(K::Or, cond, q);
            }
            if (t == 0 || same(0)) cond = mkBin(K::Or, cond, mkNot(any));
            branchOn(cond);
            takeEdge(in.edges[t]);
          }
          break;
        }
        case Op::Select: {
          if (!in.imm) {
            const Val c = G(in.a, 0);
            if (!c.e) {
              int32_t s = (c.v & 1) ? in.b : in.c;
              for (uint32_t k = 0; k < in.n; ++k) R[in.dst + k] = G(s, k);
            } else {
              fi->wasSymbolic = true;
              int known = pcKnows(c.e);
              // pointer choices become paths: addresses stay concrete
              bool ptr = in.ir->getType()->isPointerTy() && !G(in.b, 0).e && !G(in.c, 0).e && G(in.b, 0).v != G(in.c, 0).v;
              if (known < 0 && ptr && !opt.noPtrFork) known = branchOn(c.e);
              if (known >= 0) {
                int32_t s = known ? in.b : in.c;
                for (uint32_t k = 0; k < in.n; ++k) R[in.dst + k] = G(s, k);
                ++f.pc;
                break;
              }
              std::vector<Val> o(in.n);
              for (uint32_t k = 0; k < in.n; ++k) {
                unsigned w = in.leaves[k].bits;
                o[k] = fromE(mkIte(c.e, expr(G(in.b, k), w), expr(G(in.c, k), w)));
              }
              for (uint32_t k = 0; k < in.n; ++k) R[in.dst + k] = o[k];
            }
          } else {
            for (uint32_t k = 0; k < in.n; ++k) {
              const Val c = G(in.a, k);
              unsigned w = in.leaves[k].bits;
              R[in.dst + k] = fromE(mkIte(expr(c, 1), expr(G(in.b, k), w), expr(G(in.c, k), w)));
            }
          }
          ++f.pc;
          break;
        }
        case Op::InsertV: {
          if (in.dst != in.a)
            for (uint32_t k = 0; k < in.n; ++k) R[in.dst + k] = G(in.a, k);
          for (int32_t k = 0; k < in.c; ++k) R[in.dst + in.imm + k] = G(in.b, k);
          ++f.pc;
          break;
        }
        case Op::ExtractEl: {
          uint64_t ix = conc(G(in.b, 0));
          R[in.dst] = G(in.a, (uint32_t)ix);
          ++f.pc;
          break;
        }
        case Op::InsertEl: {
          uint64_t ix = conc(G(in.c, 0));
          for (uint32_t k = 0; k < in.n; ++k) R[in.dst + k] = G(in.a, k);
          R[in.dst + ix] = G(in.b, 0);
          ++f.pc;
          break;
        }
        case Op::Shuffle: {
          for (size_t k = 0; k < in.mask.size(); ++k) {
            int m = in.mask[k];
            R[in.dst + k] = m < 0 ? Val() : (uint64_t)m < in.imm ? G(in.a, m) : G(in.b, m - (int)in.imm);
          }
          ++f.pc;
          break;
        }
        case Op::Call: {
          if (S->icount > opt.maxInstr && !inInit) endPath(End::Budget, "instruction budget exceeded at " + where());
          doCall(in);
          goto refresh;
        }
        case Op::Ret: {
          std::vector<Val> rv(in.n);
          for (uint32_t k = 0; k < in.n; ++k) {
            rv[k] = G(in.a, k);
          }
          popFrame();
          if (S->fr.empty()) return;
          auto &cf = S->fr.back();
          const Inst &ci = cf.fi->code[cf.pc];
          finishCall(ci, rv.data(), rv.size());
          goto refresh;
        }
        case Op::Unreachable:
          violation("unreachable", "execution reached unreachable code (undefined behaviour)", *S, S->model);
          endPath(End::Violation, "unreachable");
        case Op::LandingPad:
          unsupported("landing pad reached by normal control flow");
        case Op::Resume: {
          uint64_t p = G(in.a, 0).v;
          popFrame();
          if (S->fr.empty()) endPath(End::Exception, "uncaught exception");
          doThrow(p, S->exnType);
          goto refresh;
        }
        case Op::CmpXchg: {
          Val a = G(in.a, 0);
          if (a.e) a.v = concretize(a.e), a.e = nullptr;
          Leaf l{TK::Int, in.bits, 0, (uint32_t)in.bits / 8};
          Val cur = loadLeaf(a, l);
          uint64_t cv = conc(cur), exp = conc(G(in.b, 0));
          Ref r = resolve(a, in.bits / 8, true);
          bool eq = cv == exp;
          if (eq) writeAt(S->mem.writable(r.id), r.off, in.bits, G(in.c, 0));
          R[in.dst] = cur;
          R[in.dst + 1].v = eq;
          R[in.dst + 1].e = nullptr;
          ++f.pc;
          break;
        }
        case Op::RMW: {
          Val a = G(in.a, 0);
          if (a.e) a.v = concretize(a.e), a.e = nullptr;
          Leaf l{TK::Int, in.bits, 0, (uint32_t)in.bits / 8};
          Val cur = loadLeaf(a, l);
          E x = expr(cur, in.bits), y = expr(G(in.b, 0), in.bits), r;
          switch (in.sub) {
            case AtomicRMWInst::Xchg: r = y; break;
            case AtomicRMWInst::Add: r = mkBin(K::Add, x, y); break;
            case AtomicRMWInst::Sub: r = mkBin(K::Sub, x, y); break;
            case AtomicRMWInst::And: r = mkBin(K::And, x, y); break;
            case AtomicRMWInst::Or: r = mkBin(K::Or, x, y); break;
            default: unsupported("atomicrmw");
          }
          Ref rr = resolve(a, in.bits / 8, true);
          writeAt(S->mem.writable(rr.id), rr.off, in.bits, fromE(r));
          R[in.dst] = cur;
          ++f.pc;
          break;
        }
        case Op::Fence: ++f.pc; break;
        default: {
          std::string s;
          raw_string_ostream os(s);
          in.ir->print(os);
          unsupported("instruction" + s + " in " + demangle(fi->name));
        }
      }
    }
  }
}

void Exec::doCall(const Inst &in) {
  FuncInfo *fi = in.callee;
  if (!fi) {
    uint64_t addr = conc(get(in.a));
    auto it = funcByAddr.find(addr);
    if (it == funcByAddr.end()) {
      violation("memory", "call through an invalid function pointer", *S, S->model);
      endPath(End::Violation, "bad call");
    }
    fi = it->second;
  }
  if (!fi->modelLooked) {
    fi->modelLooked = true;
    auto it = models.find(fi->name);
    if (it == models.end() && fi->isDecl) {
      // overloaded intrinsics: strip the type suffix
      StringRef n = fi->name;
      if (n.starts_with("llvm.")) {
        std::string k = n.str();
        while (it == models.end() && k.rfind('.') != std::string::npos && k.size() > 5) {
          k = k.substr(0, k.rfind('.'));
          it = models.find(k);
        }
      }
    }
    if (it != models.end()) fi->model = it->second;
    if (!opt.tableFn.empty() && fi->name.find(opt.tableFn) != std::string::npos) fi->model = models["__rangetable"];
    for (auto &p : opt.stubFns)
      if (fi->name.find(p) != std::string::npos) fi->model = models["__stub_arg0"];
    for (auto &p : opt.replaceFns)
      if (fi->name.find(p.first) != std::string::npos)
        for (auto &kv : funcs)
          if (kv.second->name == p.second) fi->redirect = kv.second;
  }
  if (fi->redirect) fi = fi->redirect;
  if (fi->model) {
    fi->model(*this, in);
    return;
  }
  if (fi->isDecl) {
    unsupported("call to unmodelled external " + demangle(fi->name) + " [" + fi->name + "] from " + where());
  }
  if (fi->merge && runMerged(in, fi)) return;
  pushFrame(fi, &in);
}

uint64_t Exec::runMerged(const Inst &in, FuncInfo *fi) {
  bool sym = false;
  for (auto &a : in.args)
    for (uint32_t k = 0; k < a.second; ++k) sym |= get(a.first >= 0 ? a.first + k : ~(~a.first + k)).e != nullptr;
  // pointer arguments may also reach symbolic data, so always try
  (void)sym;
  State *pre = new State(S);
  std::deque<State *> saved;
  saved.swap(work);
  uint64_t savedBarrier = gBarrier;
  gBarrier = S->fr.size();
  pushFrame(fi, &in);
  std::vector<State *> done;
  State *outer = S;
  (void)outer;
  State *cur = S;
  bool bad = false;
  while (true) {
    S = cur;
    bool ok = true;
    try {
      runState();
    } catch (PathEnd &) {
      ok = false;
      pathFinished(endKind, endMsg);
      bad = true;
    }
    if (ok) done.push_back(S);
    else delete S;
    if (work.empty()) break;
    cur = work.back();
    work.pop_back();
  }
  gBarrier = savedBarrier;
  work.swap(saved);
  if (done.empty()) {
    delete pre;
    S = new State();  // dummy, replaced by the caller's handler
    endPath(End::Dropped, "");
  }
  if (done.size() == 1) {
    S = done[0];
    delete pre;
    return 1;
  }
  // memory must be untouched (apart from released stack slots)
  bool mergeable = true;
  for (auto *d : done) {
    if (d->nsyms != pre->nsyms || d->observed.size() != pre->observed.size() || d->fr.size() != pre->fr.size() ||
        d->reached.size() != pre->reached.size()) {
      mergeable = false;
      break;
    }
    for (uint32_t id = 0; id < d->mem.count && mergeable; ++id) {
      if ((id & 255) == 0 && (id >> 8) < pre->mem.ch.size() && d->mem.ch[id >> 8] == pre->mem.ch[id >> 8]) {
        id += 255;
        continue;
      }
      Obj *x = d->mem.get(id), *y = pre->mem.get(id);
      if (x != y && !(x == nullptr && (y == nullptr)) && !(x && x->freed && !y)) mergeable = false;
    }
    if (!mergeable) break;
  }
  if (!mergeable) {
    delete pre;
    S = done[0];
    for (size_t i = 1; i < done.size(); ++i) work.push_back(done[i]);
    return 1;
  }
  ++st.merges;
  auto cond = [&](State *d) {
    E c = mkBool(true);
    for (E x : d->pc) {
      bool old = false;
      for (E p : pre->pc)
        if (p == x) { old = true; break; }
      if (!old) c = mkBin(K::And, c, x);
    }
    return c;
  };
  std::vector<Val> out(in.dst >= 0 ? in.n : 0);
  std::vector<E> conds;
  for (auto *d : done) conds.push_back(cond(d));
  if (in.dst >= 0)
    for (uint32_t k = 0; k < in.n; ++k) {
      unsigned w = in.leaves[k].bits;
      E r = nullptr;
      for (int i = (int)done.size() - 1; i >= 0; --i) {
        E v = expr(done[i]->regs[pre->fr.back().base + in.dst + k], w);
        r = r ? mkIte(conds[i], v, r) : v;
      }
      out[k] = fromE(r);
    }
  uint64_t ic = 0;
  for (auto *d : done) ic = std::max(ic, d->icount);
  if (bad) {
    E any = mkBool(false);
    for (auto c : conds) any = mkBin(K::Or, any, c);
    // pick a surviving model
    pre->model = done[0]->model;
    pre->modelEpoch = done[0]->modelEpoch;
    addConstraint(*pre, any);
  }
  for (auto *d : done) delete d;
  S = pre;
  S->icount = ic;
  finishCall(in, out.data(), out.size());
  return 1;
}

// ------------------------------------------------------------------ exploration
void Exec::pathFinished(End k, const std::string &msg) {
  switch (k) {
    case End::Done: ++st.paths; ++st.done; break;
    case End::Assumed: ++st.assumed; break;
    case End::Violation: ++st.paths; break;
    case End::Budget:
      ++st.paths;
      ++st.budget;
      ++st.unsupportedMsgs[msg];
      if (opt.hangIsViolation) violation("hang", "does not terminate within the instruction budget", *S, S->model);
      break;
    case End::Unsupported:
      ++st.paths;
      ++st.unsupported;
      ++st.unsupportedMsgs[msg];
      if (opt.verbose) fprintf(stderr, "unsupported: %s\n%s", msg.c_str(), S->fr.empty() ? "" : stackStr().c_str());
      break;
    case End::Exception:
      ++st.paths;
      ++st.exception;
      if (!opt.exceptionOk) violation("exception", "uncaught exception " + msg, *S, S->model);
      break;
    case End::Dropped: break;
  }
  if (k == End::Done) {
    for (auto &r : S->reached) ++st.reach[r];
    // sampled paths become native regression runs
    uint64_t n = st.done;
    bool take = samples.size() < opt.samples && (n <= 2 || (n & (n - 1)) == 0 || n % 37 == 0);
    if (take) {
      std::string fn = writeReplay(*S, S->model, "s" + std::to_string(samples.size()) + "_" + std::to_string(getpid()));
      std::string exp;
      for (auto &v : S->observed) {
        uint64_t x = v.e ? (uint64_t)evalS(v.e) : v.v;
        exp += std::to_string(x) + " ";
      }
      samples.push_back({fn, exp});
    }
  }
}

struct WorkerResult { int fd; pid_t pid; };

void Exec::explore() {
  while (!work.empty()) {
    if (elapsed() > opt.maxTime || st.paths >= opt.maxPaths || violations.size() >= opt.maxViolations) {
      st.pending += work.size();
      return;
    }
    if (opt.jobs > 1 && work.size() >= opt.splitAt) return;
    if (opt.bfs || (opt.jobs > 1)) { S = work.front(); work.pop_front(); }
    else { S = work.back(); work.pop_back(); }
    try {
      runState();
      pathFinished(End::Done, "");
    } catch (PathEnd &) {
      pathFinished(endKind, endMsg);
    }
    delete S;
    S = nullptr;
  }
}
