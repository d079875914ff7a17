// Problem generators.
#pragma once
#include "base.h"

struct GenOpt {
  int maxDom = 64;            // largest domain size the solver under test accepts
  long long maxSpace = 4000;  // largest number of assignments of "small" problems
  bool degenerate = true;     // repeated literals, tautologies, empty clauses, domains of one value ...
};

Problem genSmall(Rng &r, const GenOpt &o);       // exhaustively checkable
Problem genMid(Rng &r, const GenOpt &o);         // conflict-rich, too large to enumerate
Problem genPlanted(Rng &r, const GenOpt &o, int nmin, int nmax);     // satisfiable, model known
Problem genStructured(Rng &r, const GenOpt &o);  // pigeonholes, queens, colouring, latin squares, chains, parity
Problem genChain(Rng &r, const GenOpt &o, int n);        // long implication chains
Problem genDeep(Rng &r, const GenOpt &o, int n);
Problem genDeepCore(Rng &r, int free);               // conflicts hundreds of decisions deep
Problem genLongRun(Rng &r, bool chrono);           // tens of thousands of decisions
Problem genHuge(Rng &r, const GenOpt &o);        // tens of thousands of clauses
Problem genLargeDomain(Rng &r, const GenOpt &o);
Problem genLong(Rng &r, const GenOpt &o);        // clause lines of thousands of characters
Problem genSpecial(Rng &r, const GenOpt &o);     // hundreds of units at once; domains used up value by value; variables that come back in long clauses
Problem genAny(Rng &r, const GenOpt &o);         // mixture, small to mid
void addDegenerate(Rng &r, Problem &p, bool allowEmpty);
long long space(const Problem &p, long long cap);

// A random layout of the same problem. strict: only what the README allows.
str writeLayout(Rng &r, const Problem &p, bool wild, str *desc = nullptr);

// Boolean CNF
struct Cnf { int n = 0; std::vector<std::vector<int>> cls; };
Cnf genCnf(Rng &r, int maxVar);
Cnf genBigCnf(Rng &r);                           // tens of thousands of variables or clauses
str writeCnf(Rng &r, const Cnf &c, bool wild, bool satlib);
