// Decides feasibility of path conditions with Z3, with slicing into independent sets, caching of
// results and re-use of models.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <set>

namespace tcs {
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, z3 = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double z3Time = 0, maxTime = 0; uint64_t intQueries = 0; };

struct Solver {
  SolverStats st;
  unsigned timeoutMs = 60000;
  Solver();
  // Is pc /\ e satisfiable?  If Sat and out != null, *out satisfies the slice of pc relevant to e, and e.
  Res check(const std::vector<E>& pc, E e, Model* out);
  // Full model of pc (all constraints)
  Res fullModel(const std::vector<E>& pc, Model& out);
  std::string dumpDir;  // when set, slow queries are written there as SMT-LIB
  struct Impl; std::unique_ptr<Impl> im;
  ~Solver();
 private:
  Res solveSet(std::vector<E>& cs, Model* out);
};
}
