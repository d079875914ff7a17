// Online-style monitor over the event log that the solver (src/) prints with -verbose:
// replays every reported assignment, conflict, learned clause, backtrack and restart on a
// model of the assignment and checks each event against it.
#pragma once
#include "base.h"
#include "runner.h"
#include "oracle.h"

enum Mode { M_CHRONO, M_NC, M_WL };

struct Anomaly {
  str kind, detail;
  bool afterBacktrack = false, afterRestart = false;
};

struct TraceCounts {
  long long decisions = 0, clauseUnits = 0, entails = 0, conflicts = 0, learned = 0, backtracks = 0, restarts = 0, flips = 0, events = 0,
            unknownLines = 0, bcpChecks = 0, learnedUnit = 0, backjumps = 0 /* over more than one level */, resolvents = 0, maxLevel = 0, scored = 0,
            chains = 0 /* conflict analyses followed */, steps = 0 /* their resolution steps */, longestChain = 0;
};

struct TraceOpt {
  Mode mode = M_NC;
  long long restartK = 0;
  bool checkBcp = true;
  const std::vector<std::vector<int>> *models = nullptr;   // all models, when enumerated
  bool checkEntail = false;
  str heur;            // judge every decision against this heuristic: bk, vsids, vsids_pos, lazy
};

struct TraceResult {
  std::vector<Anomaly> bad;
  TraceCounts n;
  std::vector<Cls> learned;
  bool usable = false;         // the log has the expected shape
  u64 shape = 0;               // hash of the event sequence
  std::vector<Lit> finalTrue;  // v=d literals true at the end, in order
  std::vector<std::vector<std::pair<int, u64>>> learnedSets;   // bitvec: learned clauses
  std::vector<u64> finalDom;                                   // bitvec: value sets at the end, by variable
};

TraceResult replayTrace(const Problem &p, const str &out, const SolveOut &so, const TraceOpt &o);
// the same for the bit-vector solver (values as sets of at most 64)
TraceResult replayBv(const Problem &p, const str &out, const SolveOut &so, const TraceOpt &o);
