// Query layer: independence slicing, query cache, model reuse, z3 (QF_BV).
#pragma once
#include "expr.h"
struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, cached = 0, modelhit = 0;
    double time = 0, maxtime = 0;
};
extern SolverStats g_ss;
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
void solverInit(unsigned rlimit);
// Is (pc && cond) satisfiable?  On R_SAT the symbols of the relevant slice are
// updated in *m so that m satisfies pc && cond (m satisfied pc before).
Res solve(const std::vector<E> &pc, E cond, Model *m);
