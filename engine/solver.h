#pragma once
#include "expr.h"
#include <set>
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, relaxed = 0; double seconds = 0, maxSeconds = 0; };
extern SolverStats g_sstats;
enum class Res { Sat, Unsat, Unknown };
// decide the conjunction; on Sat m holds values for every symbol of the conjunction
Res solveConj(const std::vector<Ex>& cs, Model& m);
// constraints of pc that share symbols (transitively) with e
void sliceFor(const std::vector<Ex>& pc, Ex e, std::vector<Ex>& out);
// the same over a relaxation of the floating-point terms: Unsat is definite, the model of Sat only a candidate
Res relaxConj(const std::vector<Ex>& cs, Model& m, unsigned timeoutMs, bool margin);
extern unsigned g_solverTimeoutMs;
extern double g_deadline;      // end of the whole run (steady clock)
extern volatile double* g_firstBug; // shared by all workers: when the first violation was found, 0 if none
const double bugGrace = 20;
bool timeUp();
