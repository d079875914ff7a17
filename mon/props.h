// Campaigns: one per property. Every case is determined by (seed, property, index).
#pragma once
#include "base.h"
#include "gen.h"
#include "oracle.h"
#include "runner.h"
#include "trace.h"
#include <functional>
#include <memory>

struct Cfg {
  bool bitvec = false;
  Mode mode = M_NC;
  str heur;                 // "", "-vsids", "-vsids_pos", "-lazy"
  long long k = 0;          // restart threshold
  bool verbose = false;
  str restartOpt = "-restart";
  std::vector<str> args(const str &file, Rng *shuffle = nullptr) const;
  str name() const;
};

struct Violation {
  str kind, detail, replay;
};

struct Ctx {
  str prop, work, replayRoot, binDir, tier;
  u64 seed = 1;
  long long cases = 0, shard = 0, nshards = 1, only = -1;
  std::map<str, long long> count;
  std::unordered_set<u64> distinct;
  std::unordered_set<u64> shapes;
  std::vector<str> samples;
  std::vector<Violation> violations;
  long long evaluations = 0, hangs = 0;
  long long caseIdx = 0;
  bool stop = false;
  double foundAt = 0;

  std::map<str, std::unique_ptr<Runner>> runners;
  Runner &runner(const str &variant);
  bool haveVariant(const str &variant);
  void add(const str &k, long long n = 1) { count[k] += n; }
  void maxi(const str &k, long long n) { if (count[k] < n) count[k] = n; }
  void nontrivial(u64 h) { distinct.insert(h); }
  void sample(const str &s) { if (samples.size() < 3) samples.push_back(s); }
  // files: name -> content
  void violation(const str &kind, const str &detail, const std::map<str, str> &files);
  void forCases(const std::function<void(Rng &, long long)> &f);
  bool noteBadRun(const RunRes &r);   // true when the run cannot be judged
};

struct SolveRun {
  RunRes res;
  SolveOut out;
  std::vector<str> args;
  bool good = false;     // exit 0, one verdict
};
SolveRun solveText(Ctx &c, const str &variant, const str &text, const Cfg &cfg, long long stepLimit = 3000000,
                   const std::vector<str> &extra = {}, RunReq base = RunReq(), Rng *shuffle = nullptr);
SolveRun solveProblem(Ctx &c, const Problem &p, const Cfg &cfg, long long stepLimit = 3000000);
std::map<str, str> bundle(const Problem &p, const SolveRun &s, const str &text = "");
str cmdOf(const std::vector<str> &args);

Cfg rndCfg(Rng &r, bool allowChrono = true);
Cfg rndBvCfg(Rng &r);
std::vector<Cfg> allCfgs();
str checkModel(const Problem &p, const SolveOut &o);      // "" when genuine and complete
str checkBvModel(const Problem &p, const SolveOut &o);
// first value of each set; empty when malformed
std::vector<int> modelOf(const Problem &p, const SolveOut &o);

struct Truth { int sat = -1; bool enumerated = false; std::vector<std::vector<int>> models; };
Truth truthOf(const Problem &p, long long cap = 20000, long long nodes = 60000);

bool parseCnf(const str &text, Cnf &c, int &nvHeader, int &ncHeader, str &why);
bool parseExt(const str &text, Problem &p, int &nvHeader, int &ncHeader, str &why);

typedef void (*PropFn)(Ctx &);
PropFn propFor(const str &id);

void C01(Ctx &); void C02(Ctx &); void C03(Ctx &); void C04(Ctx &); void C05(Ctx &); void C06(Ctx &); void C07(Ctx &); void C08(Ctx &);
void C09(Ctx &); void C10(Ctx &); void C11(Ctx &); void C12(Ctx &); void C13(Ctx &); void C14(Ctx &); void C15(Ctx &); void C16(Ctx &);
void C17(Ctx &); void C18(Ctx &); void C19(Ctx &); void C20(Ctx &); void C21(Ctx &); void C22(Ctx &); void C23(Ctx &); void C24(Ctx &);
void C25(Ctx &); void C26(Ctx &); void C27(Ctx &); void C28(Ctx &); void C29(Ctx &); void C30(Ctx &); void C31(Ctx &); void C32(Ctx &);
void C33(Ctx &); void C34(Ctx &);
