#pragma once
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include "ir.h"
#include "solver.h"

struct Obj {
  uint32_t rc = 1;
  uint8_t kind = 0;      // 0 heap 1 stack 2 global 3 const global 4 function 5 external
  bool freed = false;
  uint32_t size = 0;
  uint32_t allocSite = 0;
  uint8_t *data = nullptr;
  E *sym = nullptr;      // per byte, null when concrete
  ~Obj() { free(data); free(sym); }
};
Obj *newObj(uint32_t size, uint8_t kind);
Obj *cloneObj(const Obj *o);
inline void ref(Obj *o) { if (o) ++o->rc; }
inline void unref(Obj *o) { if (o && --o->rc == 0) delete o; }

// chunked copy-on-write object table
struct Chunk {
  uint32_t rc = 1;
  Obj *o[256];
  Chunk() { memset(o, 0, sizeof(o)); }
};
struct ObjTable {
  std::vector<Chunk *> ch;
  uint32_t count = 1;  // id 0 unused
  ObjTable() {}
  ObjTable(const ObjTable &t) : ch(t.ch), count(t.count) { for (auto c : ch) ++c->rc; }
  ObjTable &operator=(const ObjTable &) = delete;
  ~ObjTable() {
    for (auto c : ch) drop(c);
  }
  static void drop(Chunk *c) {
    if (--c->rc == 0) {
      for (auto o : c->o) unref(o);
      delete c;
    }
  }
  Obj *get(uint32_t id) const {
    if (id >= count) return nullptr;
    return ch[id >> 8]->o[id & 255];
  }
  Chunk *wchunk(uint32_t id) {
    Chunk *&c = ch[id >> 8];
    if (c->rc > 1) {
      auto n = new Chunk;
      for (int i = 0; i < 256; ++i) { n->o[i] = c->o[i]; ref(n->o[i]); }
      --c->rc;
      c = n;
    }
    return c;
  }
  void set(uint32_t id, Obj *o) {  // takes ownership
    while (ch.size() <= (id >> 8)) ch.push_back(new Chunk);
    auto c = wchunk(id);
    Obj *old = c->o[id & 255];
    c->o[id & 255] = o;
    unref(old);
    if (id >= count) count = id + 1;
  }
  Obj *writable(uint32_t id) {
    Obj *o = get(id);
    if (ch[id >> 8]->rc > 1 || o->rc > 1) {
      auto c = wchunk(id);
      o = c->o[id & 255];
      if (o->rc > 1) {
        Obj *n = cloneObj(o);
        --o->rc;
        c->o[id & 255] = n;
        o = n;
      }
    }
    return o;
  }
};

struct Frame {
  FuncInfo *fi;
  uint32_t pc;
  uint32_t base;             // first register
  std::vector<uint32_t> allocas;
};

struct SymRec { std::string name; uint32_t first, n; };

struct State {
  uint64_t id;
  std::vector<Frame> fr;
  std::vector<Val> regs;
  ObjTable mem;
  std::vector<uint32_t> freeStackIds;
  std::vector<E> pc;
  Model model;
  uint64_t modelEpoch;       // memo epoch for model
  std::vector<SymRec> symRecs;
  uint32_t nsyms = 0;
  bool sweep = false;
  std::vector<int16_t> bound;  // known concrete value per symbol, -1 otherwise
  std::vector<Val> observed;
  std::vector<std::string> reached;
  uint64_t icount = 0;
  uint32_t branches = 0;
  // exceptions
  uint64_t exnPtr = 0, exnType = 0;
  std::vector<std::pair<uint64_t, uint64_t>> caught;
  std::string inputDesc;
  State() = default;
  explicit State(const State *o);
  State(const State &) = delete;
};

enum class End { Done, Assumed, Violation, Budget, Unsupported, Exception, Dropped };

struct PathEnd {};       // thrown to stop the current path (fast unwinding is rare)

struct Violation {
  std::string msg, where, stack;
  std::string replayFile;
  std::string kind;
  std::string inputs;
};

struct Options {
  std::map<std::string, uint64_t> params;
  std::string module, entry, out, replayDir, prefix;
  uint64_t maxInstr = 20000000;     // per path (after entry starts)
  uint64_t maxPaths = 1000000;
  double maxTime = 600;
  unsigned maxViolations = 4;
  unsigned solverTimeout = 30000;
  unsigned samples = 8;
  unsigned jobs = 1;
  unsigned splitAt = 48;
  unsigned iteWrite = 0;
  bool verbose = false;
  bool hangIsViolation = false;
  bool bfs = false;
  bool noPtrFork = false;
  bool concAddr = false;
  std::string tableFn;  // replaced by the table of --table
  unsigned bindSmall = 0;  // bind a byte with at most this many values left
  bool exceptionOk = false;
  uint64_t seed = 1;
  std::vector<std::string> mergeFns;
  std::vector<std::pair<std::string, std::string>> replaceFns;  // functions replaced by one of the harness
  std::vector<std::string> stubFns;  // functions replaced by "return first argument"
};

struct Stats {
  uint64_t paths = 0, done = 0, assumed = 0, violation = 0, budget = 0, unsupported = 0, exception = 0, dropped = 0;
  uint64_t instrs = 0, forks = 0, checks = 0, checksConst = 0, checksSolver = 0, merges = 0;
  uint64_t pending = 0;
  std::map<std::string, uint64_t> reach;
  std::map<std::string, uint64_t> unsupportedMsgs;
  std::map<std::string, uint64_t> checkMsgs;
};

struct Exec {
  Options opt;
  llvm::Module *mod = nullptr;
  const llvm::DataLayout *dl = nullptr;
  std::unordered_map<const llvm::Function *, FuncInfo *> funcs;
  std::vector<FuncInfo *> allFuncs;
  std::unordered_map<uint64_t, FuncInfo *> funcByAddr;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::unordered_map<std::string, Model_fn> models;
  Stats st;
  std::vector<Violation> violations;
  std::set<std::string> violationKeys;
  std::vector<std::pair<std::string, std::string>> samples;  // replay file, expected
  std::deque<State *> work;
  State *S = nullptr;
  State *init = nullptr;
  std::chrono::steady_clock::time_point t0;
  bool inInit = false;
  End endKind;
  std::string endMsg;
  std::vector<std::string> entryNames;
  uint64_t nextStateId = 1;
  FuncInfo *curSymFn = nullptr;
  std::unordered_map<uint64_t, int> typeIds;

  // --- setup
  void load(const std::string &file);
  void setupGlobals();
  FuncInfo *info(const llvm::Function *f);
  void decode(FuncInfo *fi);
  void run();

  // --- interpretation
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  [[noreturn]] void endPath(End k, const std::string &msg);
  // long double: only known values
  long double ld(const Val &v) {
    if (!v.e || !v.e->isConst()) unsupported("symbolic long double");
    long double x = 0;
    memcpy(&x, &v.e->val, 10);
    return x;
  }
  Val fromLd(long double x) {
    u128 b = 0;
    memcpy(&b, &x, 10);
    Val v;
    v.e = mkConst(b, 80);
    return v;
  }
  [[noreturn]] void unsupported(const std::string &msg) { endPath(End::Unsupported, msg); }
  void violation(const std::string &kind, const std::string &msg, const State &s, const Model &m);
  void runState();
  void step();
  void pushFrame(FuncInfo *fi, const Inst *call);
  void popFrame();
  void takeEdge(const Edge &e);
  void doCall(const Inst &in);
  void finishCall(const Inst &in, const Val *rets, uint32_t n);
  void retVal(const Inst &in, uint64_t v) { Val x; x.v = v; finishCall(in, &x, 1); }
  void retVal(const Inst &in, Val x) { finishCall(in, &x, 1); }
  void retVoid(const Inst &in) { finishCall(in, nullptr, 0); }
  void doThrow(uint64_t ptr, uint64_t type);

  // --- symbolic helpers
  const Val &get(int32_t op) const {
    return op >= 0 ? S->regs[S->fr.back().base + op] : S->fr.back().fi->consts[~op];
  }
  Val &reg(int32_t slot) { return S->regs[S->fr.back().base + slot]; }
  E expr(const Val &v, unsigned bits) const { return v.e ? v.e : mkConst(v.v, bits); }
  Val fromE(E e) {
    Val r;
    if (e->isConst() && e->w <= 64) { r.v = e->lo(); return r; }
    r.e = e;
    return r;
  }
  int pcKnows(E c);                        // 1/0 when the path condition contains c / not c, else -1
  bool branchOn(E c);
  bool branchOn1(E c);
  bool allBound(E e);
  void maybeBind(E c);
  void sweepRegs();
  bool binding = false;                      // forks; true if this path takes c
  uint64_t concretize(E e);                // forks per feasible value
  uint64_t conc(const Val &v) { return v.e ? concretize(v.e) : v.v; }
  void addConstraint(State &s, E c);
  void assume(E c);
  void check(E c, const std::string &msg, const std::string &kind = "check");
  u128 evalS(E e) { return evalExpr(e, S->model, S->modelEpoch); }
  State *fork();

  // --- memory
  uint32_t newId(uint8_t kind);
  uint64_t alloc(uint64_t size, uint8_t kind, bool zero = false);
  void freeObj(uint64_t addr, const char *what);
  static uint64_t baseOf(uint32_t id) { return ((uint64_t)id << 32) | 0x10000000ull; }
  // resolves an address to (object id, offset); forks when needed
  struct Ref { uint32_t id; uint64_t off; E soff; };
  Ref resolve(const Val &addr, uint64_t n, bool write);
  Val readInt(const Ref &r, unsigned bits);
  Val readAt(Obj *o, uint64_t off, unsigned bits);
  void writeAt(Obj *o, uint64_t off, unsigned bits, const Val &v);
  void writeInt(const Ref &r, unsigned bits, const Val &v);
  Val loadLeaf(const Val &addr, const Leaf &l);
  uint8_t readByteC(uint64_t addr);        // concrete byte or concretize
  Val readByte(uint64_t addr);
  void writeByte(uint64_t addr, const Val &v);
  std::string readCStr(uint64_t addr);
  void copyBytes(uint64_t d, uint64_t s, uint64_t n);
  void boundsViolation(const std::string &what, uint64_t addr, uint64_t n);
  void initConst(uint64_t addr, const llvm::Constant *c);
  uint64_t constAddr(const llvm::Constant *c);
  bool constToVals(const llvm::Constant *c, std::vector<Val> &out);
  void flatten(llvm::Type *t, std::vector<Leaf> &out, uint32_t off = 0);
  uint32_t leafCount(llvm::Type *t);
  std::string where() const;
  std::string stackStr() const;
  std::string writeReplay(const State &s, const Model &m, const std::string &tag);
  std::string inputsStr(const State &s, const Model &m);
  void pathFinished(End k, const std::string &msg);
  void explore();
  void report(double wall);
  void setupModels();
  uint64_t runMerged(const Inst &in, FuncInfo *fi);
};
