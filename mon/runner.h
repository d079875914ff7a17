// Runs the instrumented program through the fork server in shim.cc and parses its output.
#pragma once
#include "base.h"
#include "fault.h"
#include "mem.h"

struct RunReq {
  std::vector<str> args;          // without argv[0]
  str stdinPath = "/dev/null";
  long long stepLimit = 0, baseSec = 1700000000, baseUsec = 0, stepUsec = 0, jumpAt = 0, jumpUsec = 0;
  long long outAt = 0;            // the clock jumps by jumpUsec once so many bytes have been printed
  int cpuSec = 20, perturb = -1, uid = -1, memMB = 6000;
  int ioUsec = 0;                 // time each file transfer takes; only in the *_fault variants
  MvlFault fault = {-1, -1, 5, 28, 0, 0};   // only the *_fault variants heed it
};
struct RunRes {
  bool serverDied = false;
  int status = 0;                 // wait status
  long long reads = 0, cpuUsec = 0, maxrssKB = 0;
  bool stepLimitHit = false;
  MvlFaultSeen seen = {0, 0, 0, 0, 0, 0, 0, 0};
  MvlMem mem;                      // only the *_mem variants fill it
  str out, err;
  bool exited() const;
  int code() const;               // exit code, or -1
  int sig() const;                // signal, or 0
  bool cpuKilled() const;
  bool wallKilled() const;
  bool sanitizer() const;         // a sanitizer or libstdc++ check reported something
  bool ok0() const { return exited() && code() == 0 && !sanitizer(); }
  str describe() const;
};

class Runner {
 public:
  Runner(const str &binary, const str &workdir, const str &tag);
  ~Runner();
  RunRes run(const RunReq &r);
  str dir() const { return dir_; }
  str bin() const { return bin_; }
  long long runs = 0;
 private:
  bool start();
  void stop();
  str bin_, dir_, tag_;
  int fd_ = -1, pid_ = -1;
};

enum Verdict { V_NONE, V_SAT, V_UNSAT, V_TIMEOUT, V_MANY };
const char *verdictName(int v);

struct SolveOut {
  int verdict = V_NONE;
  bool hasStats = false;
  long long decisions = -1, units = -1, backtracks = -1, entails = -1, vars = -1, clauses = -1, restarts = -1;
  bool hasModel = false, modelGarbage = false;
  std::vector<Lit> model;                         // src: "v=d" lines in order
  std::vector<std::pair<int, u64>> bvModel;       // bitvec: value sets
  int verified = -1;                              // 1 CORRECT, 0 INCORRECT, -1 nothing said
  int verifyLines = 0, verdictLines = 0;
  str canonical() const;                          // everything but times and the log
  str stats() const;
};
SolveOut parseSolve(const str &out, bool bitvec);
