// Independent deciders used as oracles: exhaustive enumeration, a DPLL search, and
// unit-propagation refutation (RUP) of learned clauses.
#pragma once
#include "base.h"

// All models of p (values indexed 1..n); false when the space is larger than cap.
bool enumerate(const Problem &p, long long cap, std::vector<std::vector<int>> &models);

// 1 satisfiable (model filled), 0 unsatisfiable, -1 node limit reached
int decide(const Problem &p, long long nodeLimit, std::vector<int> *model = nullptr, const Cls *assumeFalse = nullptr);

// Propagation engine over domains held as flags.
class Prop {
 public:
  explicit Prop(const std::vector<int> &dom);
  void addClause(const Cls &c);
  // true when asserting the negation of every literal of c and propagating is contradictory
  bool rup(const Cls &c);
  bool entailsByUp(const Cls &c) { return rup(c); }
 private:
  struct W { int cls; };
  bool removeVal(int v, int d);
  bool setVal(int v, int d);
  bool assertLit(const Lit &l);
  bool propagate();
  int status(const Lit &l) const { char s = st_[off_[l.var] + l.val]; return s == 0 ? 2 : ((s == 1) == l.eq); }
  std::vector<int> dom_, off_, left_;
  std::vector<char> st_;            // 0 open, 1 equal, 2 excluded
  std::vector<Cls> cls_;
  std::vector<std::vector<int>> occEq_, occNe_;   // clauses containing v=d / v!=d
  std::vector<int> queue_;          // slots whose status changed
  std::vector<int> varOf_;
  bool hasEmpty_ = false;
  std::vector<int> units_;
};
