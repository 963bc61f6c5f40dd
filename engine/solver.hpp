// Path conditions, feasibility and validity queries.
#pragma once
#include "poly.hpp"
#include <unordered_set>

enum Res { R_UNSAT, R_SAT, R_UNK };

struct Model {
    std::map<uint32_t, mpq_class> r;
    std::map<uint32_t, uint64_t> b;
    bool valid = false;
};

struct SharedStats {
    volatile long queries, qUnsat, qSat, qUnk, qExternal, qRelax, qNl;
    volatile long solverUs;
    volatile long asserts, assertsSymbolic, assertsConcrete, assertsUndecided;
    volatile long paths, pathsDone, pathsKilled, truncated, engineErrors, forks, instrs;
    volatile long violations;
    volatile long tokens;
    volatile long deadline;  // absolute seconds
    volatile long maxPaths;
    volatile long reach;
};
extern SharedStats* ST;
extern int optExtTimeout;   // seconds for external portfolio (0 = off)
extern long optRlimit;

struct PathState {
    std::vector<Expr*> pc;
    std::unordered_set<Expr*> pcSet;
    Model model;
};
extern PathState PS;
extern bool forceSolver;

void pcAdd(Expr* c);
// is c consistent with the path condition?  m receives a full model on SAT
Res query(Expr* c, Model* m, bool allowExternal = true);
// evaluates under a model; returns -1 unknown, 0/1
int evalBool(Expr* c, const Model& m);
bool evalReal(Expr* c, const Model& m, mpq_class& out);
bool evalBV(Expr* c, const Model& m, uint64_t& out);
// decide a boolean cheaply: -1 unknown else 0/1
int quickBool(Expr* c);
Res queryClose(Expr* a, Expr* b, double tol, Model* m);
double nowS();
