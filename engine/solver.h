#pragma once
#include "expr.h"
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, unknown = 0; double time = 0, maxTime = 0; };
extern SolverStats g_solver;
extern unsigned g_solverTimeoutMs;
// Is (/\ pc) /\ q satisfiable?  base satisfies pc. On SAT, out satisfies pc /\ q.
Res solverCheck(const std::vector<E> &pc, E q, const ModelPtr &base, ModelPtr &out);
// full check of a constraint list
Res solverCheckAll(const std::vector<E> &cs, ModelPtr &out);
E substEval(E e);
