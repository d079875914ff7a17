#include "oracle.h"

bool enumerate(const Problem &p, long long cap, std::vector<std::vector<int>> &models) {
  models.clear();
  long long sp = 1;
  for (int v = 1; v <= p.n(); v++) { sp *= p.dom[v]; if (sp > cap) return false; }
  std::vector<int> a(p.n() + 1, 0);
  for (;;) {
    if (isModel(p, a)) models.push_back(a);
    int v = 1;
    while (v <= p.n() && ++a[v] == p.dom[v]) a[v++] = 0;
    if (v > p.n()) break;
  }
  return true;
}

namespace {
// Plain DPLL: pick the open variable with the smallest domain, try its values, propagate units.
struct Dpll {
  const Problem &p;
  std::vector<std::vector<char>> ok;    // value still possible
  std::vector<int> left;
  std::vector<std::pair<int, int>> trail;
  std::vector<std::vector<int>> occ;    // clauses per variable
  long long nodes = 0, limit;
  std::vector<int> pend;
  std::vector<char> inq;
  std::vector<Cls> cls;

  Dpll(const Problem &q, long long lim) : p(q), limit(lim) {
    ok.resize(p.n() + 1); left.resize(p.n() + 1); occ.resize(p.n() + 1);
    for (int v = 1; v <= p.n(); v++) { ok[v].assign(p.dom[v], 1); left[v] = p.dom[v]; }
    cls = p.cls;
  }
  void index() {
    for (size_t i = 0; i < cls.size(); i++) { int last = -1; for (auto &l : cls[i]) if (l.var != last) { occ[l.var].push_back((int)i); last = l.var; } }
    inq.assign(cls.size(), 0);
  }
  bool rm(int v, int d) {
    if (!ok[v][d]) return true;
    ok[v][d] = 0; left[v]--;
    trail.push_back({v, d});
    for (int c : occ[v]) if (!inq[c]) { inq[c] = 1; pend.push_back(c); }
    return left[v] > 0;
  }
  bool set(int v, int d) {
    if (!ok[v][d]) return false;
    for (int x = 0; x < p.dom[v]; x++) if (x != d && !rm(v, x)) return false;
    return true;
  }
  // 1 true, 0 false, 2 open
  int st(const Lit &l) {
    bool o = ok[l.var][l.val];
    if (l.eq) return !o ? 0 : left[l.var] == 1 ? 1 : 2;
    return !o ? 1 : left[l.var] == 1 ? 0 : 2;
  }
  bool prop() {
    bool good = true;
    while (!pend.empty()) {
      int c = pend.back(); pend.pop_back(); inq[c] = 0;
      if (!good) continue;
      int open = 0; const Lit *u = nullptr; bool sat = false;
      for (auto &l : cls[c]) { int s = st(l); if (s == 1) { sat = true; break; } if (s == 2) { open++; u = &l; if (open > 1 && 0) break; } }
      if (sat) continue;
      if (open == 0) { good = false; continue; }
      if (open == 1) { if (!(u->eq ? set(u->var, u->val) : rm(u->var, u->val))) good = false; }
    }
    return good;
  }
  void undo(size_t to) {
    while (trail.size() > to) { auto t = trail.back(); trail.pop_back(); ok[t.first][t.second] = 1; left[t.first]++; }
    for (int c : pend) inq[c] = 0;
    pend.clear();
  }
  int go() {
    if (++nodes > limit) return -1;
    if (!prop()) return 0;
    int best = 0;
    double bs = -1;
    for (int v = 1; v <= p.n(); v++) if (left[v] > 1) { double s = (occ[v].size() + 1.0) / left[v]; if (s > bs) { bs = s; best = v; } }
    if (!best) return 1;
    bool unknown = false;
    for (int d = 0; d < p.dom[best]; d++) {
      if (!ok[best][d]) continue;
      size_t m = trail.size();
      int r = set(best, d) ? go() : 0;
      if (r == 1) return 1;
      undo(m);
      if (r == -1) { unknown = true; break; }
      if (!rm(best, d)) return 0;
      if (!prop()) return 0;
      if (left[best] == 1) { return go(); }
    }
    return unknown ? -1 : 0;
  }
};
}

int decide(const Problem &p, long long nodeLimit, std::vector<int> *model, const Cls *assumeFalse) {
  Dpll s(p, nodeLimit);
  s.index();
  for (int v = 1; v <= p.n(); v++) if (p.dom[v] < 1) return 0;
  for (size_t i = 0; i < s.cls.size(); i++) { s.inq[i] = 1; s.pend.push_back((int)i); }
  if (assumeFalse)
    for (auto &l : *assumeFalse) {
      if (l.eq) { if (!s.rm(l.var, l.val)) return 0; }
      else if (!s.set(l.var, l.val)) return 0;
    }
  int r = s.go();
  if (r == 1 && model) {
    model->assign(p.n() + 1, 0);
    for (int v = 1; v <= p.n(); v++) for (int d = 0; d < p.dom[v]; d++) if (s.ok[v][d]) { (*model)[v] = d; break; }
    if (!isModel(p, *model)) { fprintf(stderr, "oracle bug: not a model\n"); abort(); }
  }
  return r;
}

Prop::Prop(const std::vector<int> &dom) : dom_(dom) {
  off_.assign(dom.size(), 0);
  int t = 0;
  for (size_t v = 1; v < dom.size(); v++) { off_[v] = t; t += dom[v]; for (int i = 0; i < dom[v]; i++) varOf_.push_back((int)v); }
  st_.assign(t, 0);
  left_ = dom;
  occEq_.resize(t); occNe_.resize(t);
}
void Prop::addClause(const Cls &c0) {
  Cls c = normal(c0);
  if (c.empty()) { hasEmpty_ = true; return; }
  int id = (int)cls_.size();
  cls_.push_back(c);
  for (auto &l : c) (l.eq ? occEq_ : occNe_)[off_[l.var] + l.val].push_back(id);
  if (c.size() == 1) units_.push_back(id);
}
bool Prop::removeVal(int v, int d) {
  int s = off_[v] + d;
  if (st_[s] == 2) return true;
  if (st_[s] == 1) return false;
  st_[s] = 2; queue_.push_back(s);
  left_[v]--;
  if (left_[v] == 0) return false;
  if (left_[v] == 1)
    for (int x = 0; x < dom_[v]; x++) if (st_[off_[v] + x] == 0) return setVal(v, x);
  return true;
}
bool Prop::setVal(int v, int d) {
  int s = off_[v] + d;
  if (st_[s] == 1) return true;
  if (st_[s] == 2) return false;
  st_[s] = 1; queue_.push_back(s);
  for (int x = 0; x < dom_[v]; x++) if (x != d && st_[off_[v] + x] == 0) { st_[off_[v] + x] = 2; queue_.push_back(off_[v] + x); }
  left_[v] = 1;
  return true;
}
bool Prop::assertLit(const Lit &l) { return l.eq ? setVal(l.var, l.val) : removeVal(l.var, l.val); }
bool Prop::propagate() {
  size_t h = 0;
  while (h < queue_.size()) {
    int s = queue_[h++];
    const std::vector<int> &f = st_[s] == 1 ? occNe_[s] : occEq_[s];   // clauses with a literal that became false
    for (int id : f) {
      int open = 0; const Lit *u = nullptr; bool sat = false;
      for (auto &l : cls_[id]) { int t = status(l); if (t == 1) { sat = true; break; } if (t == 2) { open++; u = &l; } }
      if (sat) continue;
      if (open == 0) return false;
      if (open == 1 && !assertLit(*u)) return false;
    }
  }
  return true;
}
bool Prop::rup(const Cls &c) {
  if (hasEmpty_) return true;
  std::fill(st_.begin(), st_.end(), 0);
  left_ = dom_;
  queue_.clear();
  for (size_t v = 1; v < dom_.size(); v++) if (dom_[v] == 1) { if (!setVal((int)v, 0)) return true; }
  for (auto &l : c) { Lit m = l; m.eq = !l.eq; if (!assertLit(m)) return true; }
  for (int id : units_) if (!assertLit(cls_[id][0])) return true;
  return !propagate();
}
