// Native side of the harness API: values come from a replay file, failed
// checks print a line and exit 1.
#include "../harness/jpp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct Rec { std::string name; std::vector<unsigned char> data; };
static std::vector<Rec> recs;
static size_t next_ = 0;
static std::string obs;
static std::map<std::string, uint64_t> params;

extern "C" {
void jpp_make_symbolic(void *p, size_t n, const char *name) {
  memset(p, 0, n);
  if (next_ < recs.size()) {
    auto &r = recs[next_++];
    if (r.name != name) fprintf(stderr, "[replay] warning: expected %s, file has %s\n", name, r.name.c_str());
    memcpy(p, r.data.data(), std::min(n, r.data.size()));
  }
}
void jpp_assume_i(int c) {
  if (!c) {
    printf("REPLAY assumption-not-met\n");
    fflush(stdout);
    _exit(42);
  }
}
void jpp_check_i(int c, const char *msg) {
  if (!c) {
    printf("REPLAY check-failed: %s\n", msg);
    fflush(stdout);
    _exit(1);
  }
}
void jpp_reach(const char *) {}
void jpp_observe(uint64_t v) { obs += std::to_string(v) + " "; }
uint64_t jpp_concretize(uint64_t v) { return v; }
int jpp_symbolic_mode(void) { return 0; }
void jpp_print(const char *l, uint64_t v) { fprintf(stderr, "[jpp] %s = %llu (0x%llx)\n", l, (unsigned long long)v, (unsigned long long)v); }
uint64_t jpp_param(const char *n, uint64_t d) { return params.count(n) ? params[n] : d; }
uint64_t jpp_select(int c, uint64_t a, uint64_t b) { return c ? a : b; }
}

int main(int argc, char **argv) {
  if (argc < 2) return 3;
  std::ifstream in(argv[1]);
  std::string line, entry;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string k;
    ls >> k;
    if (k == "entry") ls >> entry;
    else if (k == "param") { std::string n; ls >> n; ls >> params[n]; }
    else if (k == "sym") {
      Rec r;
      size_t n;
      std::string hex;
      ls >> r.name >> n >> hex;
      for (size_t i = 0; i + 1 < hex.size(); i += 2) r.data.push_back((unsigned char)strtol(hex.substr(i, 2).c_str(), 0, 16));
      r.data.resize(n);
      recs.push_back(r);
    }
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
  if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  fn();
  printf("REPLAY ok observed %s\n", obs.c_str());
  fflush(stdout);
  _exit(0);
}
