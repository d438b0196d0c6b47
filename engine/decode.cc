// LLVM IR -> decoded instructions, globals, constants.
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include "exec.h"
using namespace llvm;

void Exec::load(const std::string &file) {
  static LLVMContext lc;
  SMDiagnostic err;
  auto m = parseIRFile(file, err, lc);
  if (!m) {
    err.print("jppsym", errs());
    exit(3);
  }
  mod = m.release();
  dl = &mod->getDataLayout();
}

void Exec::flatten(Type *t, std::vector<Leaf> &out, uint32_t off) {
  if (t->isIntegerTy()) {
    uint16_t b = t->getIntegerBitWidth();
    out.push_back({TK::Int, b, off, (uint32_t)dl->getTypeStoreSize(t)});
  } else if (t->isPointerTy()) out.push_back({TK::Ptr, 64, off, 8});
  else if (t->isFloatTy()) out.push_back({TK::F32, 32, off, 4});
  else if (t->isDoubleTy()) out.push_back({TK::F64, 64, off, 8});
  else if (t->isX86_FP80Ty()) out.push_back({TK::F80, 80, off, 10});
  else if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = dl->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      flatten(st->getElementType(i), out, off + (uint32_t)sl->getElementOffset(i).getFixedValue());
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = dl->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), out, off + i * es);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = dl->getTypeStoreSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), out, off + i * es);
  } else if (t->isVoidTy()) {
  } else if (t->isMetadataTy() || t->isTokenTy()) {
  } else {
    out.push_back({TK::Int, 64, off, 8});
  }
}
uint32_t Exec::leafCount(Type *t) {
  std::vector<Leaf> l;
  flatten(t, l);
  return l.size();
}

FuncInfo *Exec::info(const Function *f) {
  auto it = funcs.find(f);
  if (it != funcs.end()) return it->second;
  auto *fi = new FuncInfo;
  fi->f = const_cast<Function *>(f);
  fi->name = f->getName().str();
  fi->isDecl = f->isDeclaration();
  funcs[f] = fi;
  allFuncs.push_back(fi);
  return fi;
}

uint64_t Exec::constAddr(const Constant *c) {
  std::vector<Val> v;
  if (!constToVals(c, v) || v.size() != 1 || v[0].e) return 0;
  return v[0].v;
}

static uint64_t gepConst(Exec &X, const GEPOperator *g, bool &ok) {
  APInt off(64, 0);
  ok = g->accumulateConstantOffset(*X.dl, off);
  return off.getZExtValue();
}

bool Exec::constToVals(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
    uint32_t n = leafCount(t);
    std::vector<Leaf> l;
    flatten(t, l);
    for (uint32_t i = 0; i < n; ++i) {
      Val v;
      if (l[i].bits > 64) v.e = mkConst(0, l[i].bits);
      out.push_back(v);
    }
    return true;
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    Val v;
    if (ci->getBitWidth() <= 64) v.v = ci->getZExtValue();
    else {
      u128 x = ci->getValue().extractBitsAsZExtValue(64, 0);
      x |= (u128)ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth() - 64), 64) << 64;
      v.e = mkConst(x, ci->getBitWidth());
    }
    out.push_back(v);
    return true;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    Val v;
    APInt a = cf->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() <= 64) v.v = a.getZExtValue();
    else v.e = mkConst((u128)a.extractBitsAsZExtValue(64, 0) | ((u128)a.extractBitsAsZExtValue(16, 64) << 64), 80);
    out.push_back(v);
    return true;
  }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constToVals(ga->getAliasee(), out);
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    Val v;
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) {
      if (auto *f = dyn_cast<Function>(gv)) {
        auto *fi = info(f);
        if (!fi->addr) {
          uint64_t a = alloc(0, 4);
          fi->addr = a;
          funcByAddr[a] = fi;
        }
        gaddr[gv] = fi->addr;
        v.v = fi->addr;
        out.push_back(v);
        return true;
      }
      return false;
    }
    v.v = it->second;
    out.push_back(v);
    return true;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); ++i)
      if (!constToVals(cast<Constant>(ca->getOperand(i)), out)) return false;
    return true;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); ++i)
      if (!constToVals(cd->getElementAsConstant(i), out)) return false;
    return true;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    std::vector<Val> ops;
    auto op = [&](int i) {
      ops.clear();
      constToVals(cast<Constant>(ce->getOperand(i)), ops);
      return ops.empty() ? Val() : ops[0];
    };
    Val v;
    unsigned w = t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        bool ok;
        uint64_t off = gepConst(*this, cast<GEPOperator>(ce), ok);
        if (!ok) return false;
        v = op(0);
        v.v += off;
        break;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast:
        return constToVals(cast<Constant>(ce->getOperand(0)), out);
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
        v = op(0);
        v.v &= mask64(w);
        break;
      case Instruction::Sub: { auto a = op(0).v; v.v = (a - op(1).v) & mask64(w); break; }
      case Instruction::Add: { auto a = op(0).v; v.v = (a + op(1).v) & mask64(w); break; }
      case Instruction::ICmp: {
        auto a = op(0).v, b = op(1).v;
        auto p = (CmpInst::Predicate)ce->getPredicate();
        v.v = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : a > b;
        break;
      }
      default: return false;
    }
    out.push_back(v);
    return true;
  }
  return false;
}

void Exec::initConst(uint64_t addr, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    auto raw = cd->getRawDataValues();
    uint32_t id = addr >> 32;
    Obj *o = S->mem.writable(id);
    memcpy(o->data + (addr - baseOf(id)), raw.data(), raw.size());
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = dl->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i)
      initConst(addr + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = dl->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(addr + i * es, ca->getOperand(i));
    return;
  }
  std::vector<Val> v;
  std::vector<Leaf> l;
  flatten(t, l);
  if (!constToVals(c, v) || v.size() != l.size()) {
    errs() << "jppsym: unsupported constant initialiser: " << *c << "\n";
    return;
  }
  uint32_t id = addr >> 32;
  Obj *o = S->mem.writable(id);
  for (size_t i = 0; i < l.size(); ++i) {
    if (v[i].e) { u128 x = v[i].e->val; memcpy(o->data + (addr - baseOf(id)) + l[i].off, &x, l[i].size); }
    else memcpy(o->data + (addr - baseOf(id)) + l[i].off, &v[i].v, l[i].size);
  }
}

void Exec::setupGlobals() {
  for (auto &f : *mod) {
    auto *fi = info(&f);
    for (auto &p : opt.mergeFns)
      if (fi->name.find(p) != std::string::npos) fi->merge = true;
  }
  for (auto &g : mod->globals()) {
    Type *t = g.getValueType();
    uint64_t sz = t->isSized() ? (uint64_t)dl->getTypeAllocSize(t) : 0;
    bool ext = g.isDeclaration();
    if (ext) sz = std::max<uint64_t>(sz, 512);
    gaddr[&g] = alloc(sz, ext ? 5 : g.isConstant() ? 3 : 2, true);
  }
  for (auto &g : mod->globals())
    if (g.hasInitializer()) initConst(gaddr[&g], g.getInitializer());
}

void Exec::decode(FuncInfo *fi) {
  if (fi->decoded) return;
  fi->decoded = true;
  Function *f = fi->f;
  if (f->isDeclaration()) return;
  std::unordered_map<const Value *, int32_t> slots;
  std::unordered_map<const Value *, int32_t> cslots;
  uint32_t n = 0;
  for (auto &a : f->args()) {
    uint32_t k = leafCount(a.getType());
    fi->argSlot.push_back(n);
    fi->argLeaves.push_back(k);
    slots[&a] = n;
    n += k;
  }
  for (auto &bb : *f)
    for (auto &i : bb) {
      if (i.getType()->isVoidTy()) continue;
      slots[&i] = n;
      n += std::max(1u, leafCount(i.getType()));
    }
  fi->nregs = n;
  auto opnd = [&](const Value *v) -> int32_t {
    auto it = slots.find(v);
    if (it != slots.end()) return it->second;
    auto ic = cslots.find(v);
    if (ic != cslots.end()) return ic->second;
    int32_t s = ~(int32_t)fi->consts.size();
    std::vector<Val> vals;
    if (auto *c = dyn_cast<Constant>(v)) {
      if (!constToVals(c, vals)) {
        errs() << "jppsym: unsupported constant " << *c << "\n";
        vals.assign(std::max(1u, leafCount(v->getType())), Val());
      }
    } else vals.push_back(Val());
    for (auto &x : vals) fi->consts.push_back(x);
    cslots[v] = s;
    return s;
  };
  std::unordered_map<const BasicBlock *, uint32_t> start;
  uint32_t pc = 0;
  for (auto &bb : *f) {
    start[&bb] = pc;
    for (auto &i : bb) {
      if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
            id == Intrinsic::donothing || id == Intrinsic::experimental_noalias_scope_decl ||
            id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch ||
            id == Intrinsic::stackrestore || id == Intrinsic::var_annotation || id == Intrinsic::sideeffect)
          continue;
      }
      ++pc;
    }
  }
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.target = start[to];
    for (auto &phi : to->phis()) {
      PhiMove m;
      m.dst = slots[&phi];
      m.n = leafCount(phi.getType());
      m.src = opnd(phi.getIncomingValueForBlock(from));
      e.moves.push_back(m);
    }
    return e;
  };
  fi->code.reserve(pc);
  for (auto &bb : *f)
    for (auto &i : bb) {
      if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
      Inst in;
      in.ir = &i;
      in.op = Op::Unsupported;
      if (!i.getType()->isVoidTy()) {
        in.dst = slots[&i];
        in.n = leafCount(i.getType());
        flatten(i.getType(), in.leaves);
        if (!in.leaves.empty()) in.bits = in.leaves[0].bits;
      }
      auto sbits = [&](const Value *v) {
        std::vector<Leaf> l;
        flatten(v->getType(), l);
        return l.empty() ? 0 : l[0].bits;
      };
      if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
            id == Intrinsic::donothing || id == Intrinsic::experimental_noalias_scope_decl ||
            id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch ||
            id == Intrinsic::stackrestore || id == Intrinsic::var_annotation || id == Intrinsic::sideeffect)
          continue;
      }
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
        in.a = opnd(bo->getOperand(0));
        in.b = opnd(bo->getOperand(1));
        in.op = Op::Bin;
        switch (bo->getOpcode()) {
          case Instruction::Add: in.sub = (int)K::Add; break;
          case Instruction::Sub: in.sub = (int)K::Sub; break;
          case Instruction::Mul: in.sub = (int)K::Mul; break;
          case Instruction::UDiv: in.sub = (int)K::UDiv; break;
          case Instruction::SDiv: in.sub = (int)K::SDiv; break;
          case Instruction::URem: in.sub = (int)K::URem; break;
          case Instruction::SRem: in.sub = (int)K::SRem; break;
          case Instruction::And: in.sub = (int)K::And; break;
          case Instruction::Or: in.sub = (int)K::Or; break;
          case Instruction::Xor: in.sub = (int)K::Xor; break;
          case Instruction::Shl: in.sub = (int)K::Shl; break;
          case Instruction::LShr: in.sub = (int)K::LShr; break;
          case Instruction::AShr: in.sub = (int)K::AShr; break;
          case Instruction::FAdd: in.sub = (int)K::FAdd; in.op = Op::FBin; break;
          case Instruction::FSub: in.sub = (int)K::FSub; in.op = Op::FBin; break;
          case Instruction::FMul: in.sub = (int)K::FMul; in.op = Op::FBin; break;
          case Instruction::FDiv: in.sub = (int)K::FDiv; in.op = Op::FBin; break;
          default: in.op = Op::Unsupported;
        }
      } else if (auto *uo = dyn_cast<UnaryOperator>(&i)) {
        in.op = Op::FNeg;
        in.a = opnd(uo->getOperand(0));
      } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
        in.op = Op::ICmp;
        in.sub = ic->getPredicate();
        in.a = opnd(ic->getOperand(0));
        in.b = opnd(ic->getOperand(1));
        in.bits = sbits(ic->getOperand(0));
      } else if (auto *fc = dyn_cast<FCmpInst>(&i)) {
        in.op = Op::FCmp;
        in.sub = fc->getPredicate();
        in.a = opnd(fc->getOperand(0));
        in.b = opnd(fc->getOperand(1));
        in.bits = sbits(fc->getOperand(0));
      } else if (auto *ca = dyn_cast<CastInst>(&i)) {
        in.a = opnd(ca->getOperand(0));
        in.imm = sbits(ca->getOperand(0));
        bool same = leafCount(ca->getSrcTy()) == in.n;
        switch (ca->getOpcode()) {
          case Instruction::ZExt: in.op = Op::ZExt; break;
          case Instruction::SExt: in.op = Op::SExt; break;
          case Instruction::Trunc: in.op = Op::Trunc; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr:
            in.op = in.bits > in.imm ? Op::ZExt : in.bits < in.imm ? Op::Trunc : Op::Copy;
            break;
          case Instruction::BitCast: in.op = same && in.bits == in.imm ? Op::Copy : Op::Unsupported; break;
          case Instruction::AddrSpaceCast: in.op = Op::Copy; break;
          case Instruction::FPToSI: in.op = Op::FpToS; break;
          case Instruction::FPToUI: in.op = Op::FpToU; break;
          case Instruction::SIToFP: in.op = Op::SToF; break;
          case Instruction::UIToFP: in.op = Op::UToF; break;
          case Instruction::FPExt: in.op = Op::FpExt; break;
          case Instruction::FPTrunc: in.op = Op::FpTrunc; break;
          default: break;
        }
      } else if (auto *ld = dyn_cast<LoadInst>(&i)) {
        in.op = Op::Load;
        in.a = opnd(ld->getPointerOperand());
        in.imm = dl->getTypeStoreSize(ld->getType());
      } else if (auto *sto = dyn_cast<StoreInst>(&i)) {
        in.op = Op::Store;
        in.a = opnd(sto->getPointerOperand());
        in.b = opnd(sto->getValueOperand());
        flatten(sto->getValueOperand()->getType(), in.leaves);
        in.n = in.leaves.size();
        in.imm = dl->getTypeStoreSize(sto->getValueOperand()->getType());
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        in.op = g->getType()->isVectorTy() ? Op::Unsupported : Op::Gep;
        in.a = opnd(g->getPointerOperand());
        if (in.op == Op::Gep)
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value *idx = gi.getOperand();
            if (StructType *sty = gi.getStructTypeOrNull()) {
              in.imm += dl->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              uint64_t sc = dl->getTypeAllocSize(gi.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(idx)) in.imm += ci->getSExtValue() * sc;
              else {
                in.gep.push_back({opnd(idx), sc});
                in.gepBits.push_back(idx->getType()->getIntegerBitWidth());
              }
            }
          }
      } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
        in.op = Op::Alloca;
        in.imm = dl->getTypeAllocSize(al->getAllocatedType());
        in.a = opnd(al->getArraySize());
      } else if (auto *br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) {
          in.op = Op::CondBr;
          in.a = opnd(br->getCondition());
          in.edges.push_back(edge(&bb, br->getSuccessor(0)));
          in.edges.push_back(edge(&bb, br->getSuccessor(1)));
        } else {
          in.op = Op::Br;
          in.edges.push_back(edge(&bb, br->getSuccessor(0)));
        }
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        in.op = Op::Switch;
        in.a = opnd(sw->getCondition());
        in.bits = sw->getCondition()->getType()->getIntegerBitWidth();
        in.edges.push_back(edge(&bb, sw->getDefaultDest()));
        for (auto &c : sw->cases()) {
          in.cases.push_back(c.getCaseValue()->getZExtValue());
          in.edges.push_back(edge(&bb, c.getCaseSuccessor()));
        }
      } else if (auto *cb = dyn_cast<CallBase>(&i)) {
        in.op = Op::Call;
        auto *ct = cb->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(ct)) ct = ga->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(ct)) in.callee = info(cf);
        else if (isa<InlineAsm>(ct)) in.op = Op::Unsupported;
        else in.a = opnd(ct);
        if (in.op == Op::Call) {
          for (unsigned k = 0; k < cb->arg_size(); ++k) {
            Value *av = cb->getArgOperand(k);
            if (av->getType()->isMetadataTy()) { in.args.push_back({~0, 0}); in.byval.push_back(0); continue; }
            in.args.push_back({opnd(av), leafCount(av->getType())});
            uint64_t bv = 0;
            if (cb->isByValArgument(k)) bv = dl->getTypeAllocSize(cb->getParamByValType(k));
            in.byval.push_back(bv);
          }
          if (auto *inv = dyn_cast<InvokeInst>(cb)) {
            in.isInvoke = true;
            in.edges.push_back(edge(&bb, inv->getNormalDest()));
            in.edges.push_back(edge(&bb, inv->getUnwindDest()));
          }
        }
      } else if (auto *rt = dyn_cast<ReturnInst>(&i)) {
        in.op = Op::Ret;
        in.n = 0;
        if (rt->getReturnValue()) {
          in.a = opnd(rt->getReturnValue());
          in.n = leafCount(rt->getReturnValue()->getType());
        }
      } else if (auto *sel = dyn_cast<SelectInst>(&i)) {
        in.op = Op::Select;
        in.a = opnd(sel->getCondition());
        in.b = opnd(sel->getTrueValue());
        in.c = opnd(sel->getFalseValue());
        in.imm = sel->getCondition()->getType()->isVectorTy();
      } else if (isa<FreezeInst>(&i)) {
        in.op = Op::Copy;
        in.a = opnd(i.getOperand(0));
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
        in.op = Op::Copy;
        Type *t = ev->getAggregateOperand()->getType();
        uint32_t o = 0;
        for (unsigned ix : ev->getIndices()) {
          for (unsigned k = 0; k < ix; ++k)
            o += leafCount(isa<StructType>(t) ? cast<StructType>(t)->getElementType(k) : cast<ArrayType>(t)->getElementType());
          t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType();
        }
        int32_t base = opnd(ev->getAggregateOperand());
        in.a = base >= 0 ? base + (int32_t)o : ~(~base + (int32_t)o);
      } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
        in.op = Op::InsertV;
        in.a = opnd(iv->getAggregateOperand());
        in.b = opnd(iv->getInsertedValueOperand());
        Type *t = iv->getAggregateOperand()->getType();
        uint32_t o = 0;
        for (unsigned ix : iv->getIndices()) {
          for (unsigned k = 0; k < ix; ++k)
            o += leafCount(isa<StructType>(t) ? cast<StructType>(t)->getElementType(k) : cast<ArrayType>(t)->getElementType());
          t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType();
        }
        in.imm = o;
        in.c = leafCount(t);
      } else if (auto *ee = dyn_cast<ExtractElementInst>(&i)) {
        in.op = Op::ExtractEl;
        in.a = opnd(ee->getVectorOperand());
        in.b = opnd(ee->getIndexOperand());
        in.imm = leafCount(ee->getVectorOperandType());
      } else if (auto *ie = dyn_cast<InsertElementInst>(&i)) {
        in.op = Op::InsertEl;
        in.a = opnd(ie->getOperand(0));
        in.b = opnd(ie->getOperand(1));
        in.c = opnd(ie->getOperand(2));
      } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&i)) {
        in.op = Op::Shuffle;
        in.a = opnd(sv->getOperand(0));
        in.b = opnd(sv->getOperand(1));
        in.imm = leafCount(sv->getOperand(0)->getType());
        for (int m : sv->getShuffleMask()) in.mask.push_back(m);
      } else if (isa<UnreachableInst>(&i)) {
        in.op = Op::Unreachable;
      } else if (auto *lp = dyn_cast<LandingPadInst>(&i)) {
        in.op = Op::LandingPad;
        in.cleanup = lp->isCleanup();
        for (unsigned k = 0; k < lp->getNumClauses(); ++k)
          if (lp->isCatch(k)) in.catches.push_back(opnd(lp->getClause(k)));
          else in.cleanup = true;  // filters: treated as cleanups
      } else if (isa<ResumeInst>(&i)) {
        in.op = Op::Resume;
        in.a = opnd(i.getOperand(0));
      } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) {
        in.op = Op::CmpXchg;
        in.a = opnd(cx->getPointerOperand());
        in.b = opnd(cx->getCompareOperand());
        in.c = opnd(cx->getNewValOperand());
        in.bits = sbits(cx->getCompareOperand());
      } else if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) {
        in.op = Op::RMW;
        in.sub = rm->getOperation();
        in.a = opnd(rm->getPointerOperand());
        in.b = opnd(rm->getValOperand());
      } else if (isa<FenceInst>(&i)) {
        in.op = Op::Fence;
      }
      fi->code.push_back(std::move(in));
    }
}
