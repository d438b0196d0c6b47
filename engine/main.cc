#include <llvm/Demangle/Demangle.h>
#include <pthread.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "exec.h"
using namespace llvm;

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

void Exec::report(double wall) {
  std::ostringstream o;
  o << "{\n \"entry\": " << js(opt.entry) << ",\n";
  o << " \"paths\": " << st.paths << ", \"completed\": " << st.done << ", \"assumed_away\": " << st.assumed
    << ", \"budget\": " << st.budget << ", \"unsupported\": " << st.unsupported << ", \"exceptions\": " << st.exception
    << ", \"pending\": " << st.pending << ", \"forks\": " << st.forks << ", \"merges\": " << st.merges
    << ", \"instructions\": " << st.instrs << ",\n";
  o << " \"checks\": " << st.checks << ", \"checks_constant\": " << st.checksConst << ", \"checks_solver\": " << st.checksSolver << ",\n";
  o << " \"queries\": " << gSolver.queries << ", \"query_cache_hits\": " << gSolver.cacheHits << ", \"z3_calls\": " << gSolver.z3Calls
    << ", \"byte_domain\": " << gSolver.domain << ", \"slow_queries\": " << gSolver.slow << ", \"sat\": " << gSolver.sat << ", \"unsat\": " << gSolver.unsat << ", \"unknown\": " << gSolver.unknown
    << ", \"solver_s\": " << gSolver.z3Time << ", \"solver_max_s\": " << gSolver.maxZ3 << ", \"wall_s\": " << wall << ",\n";
  o << " \"reach\": {";
  bool f = true;
  for (auto &p : st.reach) { o << (f ? "" : ", ") << js(p.first) << ": " << p.second; f = false; }
  o << "},\n \"check_msgs\": {";
  f = true;
  for (auto &p : st.checkMsgs) { o << (f ? "" : ", ") << js(p.first) << ": " << p.second; f = false; }
  o << "},\n \"notes\": {";
  f = true;
  for (auto &p : st.unsupportedMsgs) { o << (f ? "" : ", ") << js(p.first) << ": " << p.second; f = false; }
  o << "},\n \"violations\": [";
  f = true;
  for (auto &v : violations) {
    o << (f ? "" : ",") << "\n  {\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where)
      << ", \"replay\": " << js(v.replayFile) << ", \"inputs\": " << js(v.inputs) << ", \"stack\": " << js(v.stack) << "}";
    f = false;
  }
  o << "],\n \"samples\": [";
  f = true;
  for (auto &s : samples) { o << (f ? "" : ", ") << "[" << js(s.first) << ", " << js(s.second) << "]"; f = false; }
  o << "],\n \"functions_symbolic\": [";
  f = true;
  int n = 0;
  for (auto *fi : allFuncs)
    if (fi->wasRun && fi->wasSymbolic) {
      std::string d = demangle(fi->name);
      if (d.find("jumanpp") == std::string::npos && d.compare(0, 3, "rnn") != 0) continue;
      if (n++ > 400) break;
      o << (f ? "" : ", ") << js(d.substr(0, 140));
      f = false;
    }
  uint64_t nrun = 0;
  for (auto *fi : allFuncs) nrun += fi->wasRun;
  o << "],\n \"functions_run\": " << nrun << "\n}\n";
  std::ofstream out(opt.out + ".tmp");
  out << o.str();
  out.close();
  rename((opt.out + ".tmp").c_str(), opt.out.c_str());
}

void Exec::run() {
  t0 = std::chrono::steady_clock::now();
  setupModels();
  State *s = new State();
  s->id = 0;
  s->modelEpoch = newEpoch();
  S = s;
  setupGlobals();
  // static constructors
  inInit = true;
  try {
    if (auto *gc = mod->getGlobalVariable("llvm.global_ctors")) {
      auto *arr = dyn_cast<ConstantArray>(gc->getInitializer());
      std::vector<std::pair<uint64_t, Function *>> ctors;
      if (arr)
        for (unsigned i = 0; i < arr->getNumOperands(); ++i) {
          auto *cs = cast<ConstantStruct>(arr->getOperand(i));
          if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
            ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
        }
      std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : ctors) {
        pushFrame(info(c.second), nullptr);
        runState();
      }
    }
  } catch (PathEnd &) {
    fprintf(stderr, "jppsym: static initialisation failed: %s\n%s", endMsg.c_str(), S->fr.empty() ? "" : stackStr().c_str());
    exit(3);
  }
  inInit = false;
  Function *ef = mod->getFunction(opt.entry);
  if (!ef || ef->isDeclaration()) {
    fprintf(stderr, "jppsym: no entry %s\n", opt.entry.c_str());
    exit(3);
  }
  S->icount = 0;
  pushFrame(info(ef), nullptr);
  work.push_back(S);
  unsigned jobs = opt.jobs;
  explore();
  if (!work.empty() && jobs > 1 && elapsed() < opt.maxTime && violations.size() < opt.maxViolations) {
    // hand the remaining states to worker processes
    std::vector<State *> all(work.begin(), work.end());
    st.pending = 0;
    std::vector<pid_t> pids;
    std::string base = opt.out;
    for (unsigned w = 0; w < jobs; ++w) {
      pid_t p = ::fork();
      if (p == 0) {
        if (w != 0) {
          st = Stats();
          violations.clear();
          samples.clear();
          gSolver = SolverStats();
        }
        opt.jobs = 1;
        opt.out = base + ".w" + std::to_string(w);
        work.clear();
        for (size_t i = w; i < all.size(); i += jobs) work.push_back(all[i]);
        explore();
        report(elapsed());
        _exit(0);
      }
      pids.push_back(p);
    }
    int bad = 0;
    for (auto p : pids) {
      int stt = 0;
      waitpid(p, &stt, 0);
      if (!WIFEXITED(stt) || WEXITSTATUS(stt)) ++bad;
    }
    std::ofstream o(base);
    o << "{\"workers\": " << jobs << ", \"lost_workers\": " << bad << "}\n";
    return;
  }
  report(elapsed());
}

static Options gOpt;
bool loadRangeTable(const std::string &f);
static void *threadMain(void *) {
  solverInit(gOpt.solverTimeout);
  auto *x = new Exec;
  x->opt = gOpt;
  x->load(gOpt.module);
  x->run();
  fflush(stdout);
  _exit(0);
}

int main(int argc, char **argv) {
  auto &o = gOpt;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto eq = a.find('=');
    std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
    if (k == "--module") o.module = v;
    else if (k == "--entry") o.entry = v;
    else if (k == "--out") o.out = v;
    else if (k == "--replay-dir") o.replayDir = v;
    else if (k == "--prefix") o.prefix = v;
    else if (k == "--max-instr") o.maxInstr = strtoull(v.c_str(), 0, 10);
    else if (k == "--max-paths") o.maxPaths = strtoull(v.c_str(), 0, 10);
    else if (k == "--max-time") o.maxTime = atof(v.c_str());
    else if (k == "--max-violations") o.maxViolations = atoi(v.c_str());
    else if (k == "--solver-timeout") o.solverTimeout = atoi(v.c_str());
    else if (k == "--samples") o.samples = atoi(v.c_str());
    else if (k == "--jobs") o.jobs = atoi(v.c_str());
    else if (k == "--split-at") o.splitAt = atoi(v.c_str());
    else if (k == "--ite-write") o.iteWrite = atoi(v.c_str());
    else if (k == "--verbose") o.verbose = true;
    else if (k == "--no-ptr-fork") o.noPtrFork = true;
    else if (k == "--conc-addr") o.concAddr = true;
    else if (k == "--bind") o.bindSmall = atoi(v.c_str());
    else if (k == "--bfs") o.bfs = true;
    else if (k == "--hang-violation") o.hangIsViolation = true;
    else if (k == "--exceptions-ok") o.exceptionOk = true;
    else if (k == "--merge") o.mergeFns.push_back(v);
    else if (k == "--param") {
      auto e2 = v.find('=');
      o.params[v.substr(0, e2)] = strtoull(v.c_str() + e2 + 1, 0, 10);
    }
    else if (k == "--table") {  // function:file
      auto c = v.find(':');
      o.tableFn = v.substr(0, c);
      if (!loadRangeTable(v.substr(c + 1))) { fprintf(stderr, "bad table %s\n", v.c_str()); return 3; }
    }
    else if (k == "--replace") { auto c = v.find(':'); o.replaceFns.push_back({v.substr(0, c), v.substr(c + 1)}); }
    else if (k == "--stub") o.stubFns.push_back(v);
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t th;
  pthread_create(&th, &at, threadMain, nullptr);
  pthread_join(th, nullptr);
  return 0;
}
