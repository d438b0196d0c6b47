// Decoded form of LLVM IR.
#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <string>
#include <unordered_map>
#include <vector>
#include "expr.h"

struct Val {
  uint64_t v = 0;
  E e = nullptr;
};

enum class TK : uint8_t { Int, F32, F64, F80, Ptr };
struct Leaf {
  TK k;
  uint16_t bits;
  uint32_t off;    // byte offset inside the aggregate
  uint32_t size;   // store size in bytes
};

enum class Op : uint8_t {
  Bin, FBin, FNeg, ICmp, FCmp, ZExt, SExt, Trunc, PtrCast, FpToS, FpToU, SToF, UToF, FpExt, FpTrunc,
  Load, Store, Gep, Alloca, Br, CondBr, Switch, Call, Ret, Select, Copy, ExtractV, InsertV,
  ExtractEl, InsertEl, Shuffle, Unreachable, LandingPad, Resume, CmpXchg, RMW, Fence, Unsupported
};

struct PhiMove { int32_t dst, src; uint32_t n; };
struct Edge { uint32_t target; std::vector<PhiMove> moves; };

struct FuncInfo;

struct Inst {
  Op op;
  uint8_t sub = 0;      // sub-opcode (binary opcode, predicate)
  uint16_t bits = 0;    // element width
  int32_t dst = -1;
  uint32_t n = 1;       // number of leaves
  int32_t a = 0, b = 0, c = 0;
  uint64_t imm = 0;
  std::vector<std::pair<int32_t, uint64_t>> gep;  // (operand, scale)
  std::vector<uint16_t> gepBits;
  std::vector<Leaf> leaves;
  std::vector<Edge> edges;
  std::vector<uint64_t> cases;
  std::vector<std::pair<int32_t, uint32_t>> args;  // operand, leaf count
  std::vector<uint64_t> byval;                     // per arg: byval size or 0
  std::vector<int32_t> mask;
  FuncInfo *callee = nullptr;
  const llvm::Instruction *ir = nullptr;
  bool isInvoke = false, cleanup = false, nullSafe = false;
  std::vector<int32_t> catches;  // landing pad catch operands
};

struct Exec;
typedef void (*Model_fn)(Exec &, const Inst &);

struct FuncInfo {
  llvm::Function *f = nullptr;
  std::string name;
  bool decoded = false;
  bool isDecl = false;
  uint32_t nregs = 0;
  std::vector<Val> consts;
  std::vector<Inst> code;
  std::vector<uint32_t> argSlot, argLeaves;
  uint64_t addr = 0;
  Model_fn model = nullptr;
  bool modelLooked = false;
  FuncInfo *redirect = nullptr;
  bool wasSymbolic = false;   // computed with symbolic data
  bool wasRun = false;
  bool merge = false;
  uint64_t count = 0;
};
