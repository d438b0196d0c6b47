// SMT layer: independent-constraint slicing, model reuse, query cache, Z3.
#pragma once
#include "expr.h"

enum class Sat { Yes, No, Unknown };

struct SolverStats {
  uint64_t queries = 0;      // satisfiability questions asked by the executor
  uint64_t cacheHits = 0;
  uint64_t z3Calls = 0, slow = 0, domain = 0, linear = 0;
  uint64_t sat = 0, unsat = 0, unknown = 0;
  double z3Time = 0;
  double maxZ3 = 0;
};
extern SolverStats gSolver;

void solverInit(unsigned timeoutMs);
// Is pc /\ extra satisfiable?  pc is known to be satisfied by `base`.
// On Yes, `out` is a full model (base patched with the new assignment).
Sat solverCheck(const std::vector<E> &pc, E extra, const Model &base, Model &out, bool assertion = false);
// An upper bound of the number of values a byte can still take.
unsigned domainSize(const std::vector<E> &pc, int s);
