// Z3 back end: satisfiability of path conditions, models, caching and constraint slicing.
#pragma once
#include "expr.h"
#include <memory>

enum Sat { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double seconds = 0, maxSeconds = 0; };
extern SolverStats gStats;

struct Solver {
  Solver();
  // Is pc and extra satisfiable? When SAT and model != null, *model (which satisfies pc on entry, or is empty)
  // is updated to satisfy pc and extra. modelOk tells whether the model could be extracted.
  Sat check(const std::vector<Expr *> &pc, Expr *extra, Assign *model, bool *modelOk);
  unsigned timeoutMs = 60000;
  std::string dumpPrefix;
};
