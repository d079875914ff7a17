#include "trace.h"
#include <cmath>
#include <unordered_map>

namespace {
enum T { E_DEC, E_RED, E_REASON_N, E_REASON_C, E_ENT, E_CONF, E_CCLAUSE, E_LEARN, E_BACK, E_NBACK, E_FLIP, E_PIVOT, E_RESOLVENT };
struct Ev {
  T t;
  Lit l{0, 0, false};
  long long num = 0;
  Cls c;
};

bool parseLit(const char *s, Lit &l, const char **rest = nullptr) {
  char *e;
  long v = strtol(s, &e, 10);
  if (e == s) return false;
  if (*e == '=') { l.eq = true; e++; }
  else if (*e == '!') { l.eq = false; e++; if (*e == '=') e++; }
  else return false;
  char *f;
  long d = strtol(e, &f, 10);
  if (f == e) return false;
  l.var = (int)v; l.val = (int)d;
  if (rest) *rest = f;
  return true;
}

bool starts(const str &s, const char *k) { return s.compare(0, strlen(k), k) == 0; }

struct Lines {
  const str &s;
  size_t i = 0;
  explicit Lines(const str &t) : s(t) {}
  bool next(str &l) {
    if (i >= s.size()) return false;
    size_t e = s.find('\n', i);
    if (e == str::npos) e = s.size();
    l.assign(s, i, e - i);
    i = e + 1;
    return true;
  }
};

Cls readClause(Lines &in) {
  Cls c;
  str l;
  for (;;) {
    size_t save = in.i;
    if (!in.next(l)) break;
    Lit x; const char *rest;
    if (l.empty()) break;
    if (parseLit(l.c_str(), x, &rest) && *rest == 0) c.push_back(x);
    else { in.i = save; break; }
  }
  return c;
}

std::vector<Ev> parseEvents(const str &out, long long &unknown) {
  std::vector<Ev> ev;
  Lines in(out);
  str l;
  while (in.next(l)) {
    while (!l.empty() && l[0] == '\a') l.erase(0, 1);
    if (l == "SAT" || l == "UNSAT" || l == "TIMEOUT") break;
    size_t pos = l.find("Solving with");
    if (pos != str::npos) continue;
    // the first event of the log can share a line with the timing prefix
    const char *keys[] = {"Decision: ", "Reducing literal: ", "Conflict: Propagating ", "There is a conflict at level", "Entailment... "};
    for (auto k : keys) { size_t q = l.find(k); if (q != str::npos && q > 0) l.erase(0, q); }
    Ev e;
    const char *rest;
    if (starts(l, "Decision: ")) { e.t = E_DEC; if (parseLit(l.c_str() + 10, e.l)) { ev.push_back(e); continue; } }
    else if (starts(l, "Reducing literal: ")) {
      e.t = E_RED;
      if (parseLit(l.c_str() + 18, e.l, &rest)) {
        const char *a = strstr(rest, "at level ");
        if (a) { e.num = atoll(a + 9); ev.push_back(e); continue; }
      }
    } else if (starts(l, "The reason for the literal")) {
      size_t save = in.i;
      str m;
      if (in.next(m)) {
        char *f; long k = strtol(m.c_str(), &f, 10);
        if (f != m.c_str() && *f == 0) { e.t = E_REASON_N; e.num = k; ev.push_back(e); continue; }
        in.i = save;
        e.t = E_REASON_C; e.c = readClause(in); ev.push_back(e);
        continue;
      }
    } else if (starts(l, "Entailment... ")) { e.t = E_ENT; if (parseLit(l.c_str() + 14, e.l)) { ev.push_back(e); continue; } }
    else if (starts(l, "There is a conflict at level")) { size_t q = l.find(':'); e.t = E_CONF; e.num = q == str::npos ? -99 : atoll(l.c_str() + q + 1); ev.push_back(e); continue; }
    else if (starts(l, "Conflicting clause")) { e.t = E_CCLAUSE; e.c = readClause(in); ev.push_back(e); continue; }
    else if (starts(l, "Learned a clause")) { e.t = E_LEARN; e.c = readClause(in); ev.push_back(e); continue; }
    else if (starts(l, "Resolvent")) { e.t = E_RESOLVENT; e.c = readClause(in); ev.push_back(e); continue; }
    else if (starts(l, "We are backtracking to the level")) { size_t q = l.find(':'); e.t = E_BACK; e.num = q == str::npos ? -99 : atoll(l.c_str() + q + 1); ev.push_back(e); continue; }
    else if (starts(l, "# of backtracks so far")) { size_t q = l.find(':'); e.t = E_NBACK; e.num = q == str::npos ? -99 : atoll(l.c_str() + q + 1); ev.push_back(e); continue; }
    else if (starts(l, "Conflict: Propagating ")) { e.t = E_FLIP; if (parseLit(l.c_str() + 22, e.l)) { ev.push_back(e); continue; } }
    else if (starts(l, "Latest falsified literal")) { str m; size_t save = in.i; if (in.next(m) && parseLit(m.c_str(), e.l, &rest) && *rest == 0) { e.t = E_PIVOT; ev.push_back(e); } else in.i = save; continue; }
    else if (starts(l, "It's reason") || starts(l, "Finding backtrack level") || starts(l, "Conflict") || l.empty()) continue;
    // clauses and numbers printed along with conflict analysis, and the banner
    Lit x; char *f;
    if (parseLit(l.c_str(), x, &rest) && *rest == 0) continue;
    strtol(l.c_str(), &f, 10);
    if (f != l.c_str() && *f == 0) continue;
    if (l[0] == '*' || starts(l, "Finite Domain") || starts(l, "p.mv")) continue;
    unknown++;
  }
  return ev;
}

struct Mon {
  const Problem &p;
  const TraceOpt &o;
  TraceResult &r;
  std::vector<int> off, left;
  std::vector<char> st;      // 0 open 1 equal 2 excluded
  std::vector<int> lv;
  std::vector<int> ord;      // which assignment falsified or satisfied the slot
  std::vector<Lit> by;       // the literal of that assignment
  std::vector<int> why;      // its reason: clause (index in reasons), -1 decision, -2 entailment, -3 unknown
  std::vector<Cls> reasons;
  int assigns = 0, curWhy = -3;
  struct Tr { int slot; int var; int level; char was; };
  std::vector<Tr> trail;
  struct Dec { Lit l; int level; };
  std::vector<Dec> decs;
  int level = 0;
  std::vector<Cls> db;
  std::unordered_set<u64> known;
  bool backtracked = false, restarted = false;

  Mon(const Problem &q, const TraceOpt &oo, TraceResult &rr) : p(q), o(oo), r(rr) {
    off.assign(p.n() + 1, 0);
    int t = 0;
    for (int v = 1; v <= p.n(); v++) { off[v] = t; t += p.dom[v]; }
    st.assign(t, 0); lv.assign(t, -1); left = p.dom;
    ord.assign(t, -1); why.assign(t, -3); by.assign(t, Lit{0, 0, false});
    for (auto &c : p.cls) { Cls k = normal(c); db.push_back(k); known.insert(hashCls(k)); }
  }
  void bad(const char *kind, const str &d) {
    if (r.bad.size() < 6) { Anomaly a; a.kind = kind; a.detail = fmt("event %lld, level %d: ", r.n.events, level) + d; a.afterBacktrack = backtracked; a.afterRestart = restarted; r.bad.push_back(a); }
  }
  bool valid(const Lit &l) const { return l.var >= 1 && l.var <= p.n() && l.val >= 0 && l.val < p.dom[l.var]; }
  bool validC(const Cls &c) const { for (auto &l : c) if (!valid(l)) return false; return true; }
  int slot(const Lit &l) const { return off[l.var] + l.val; }
  // 1 true 0 false 2 open
  int status(const Lit &l) const { char s = st[slot(l)]; return s == 0 ? 2 : ((s == 1) == l.eq ? 1 : 0); }
  Lit curBy{0, 0, false};
  void put(int v, int s, char x) {
    trail.push_back({s, v, level, st[s]});
    st[s] = x; lv[s] = level; ord[s] = assigns; why[s] = curWhy; by[s] = curBy;
    if (x == 2) left[v]--;
  }
  // literals of c falsified at the current level
  int atLevel(const Cls &c) const { int n = 0; for (auto &l : c) n += lv[slot(l)] == level; return n; }
  static bool clash(const Lit &a, const Lit &b) {   // no interpretation satisfies both
    if (a.var != b.var) return false;
    if (a.val == b.val) return a.eq != b.eq;
    return a.eq && b.eq;
  }
  // one step of conflict analysis: cur resolved on its literal l gave res
  void step(const Cls &cur, const Lit &l, const Cls &res) {
    bool in = false;
    for (auto &k : cur) in = in || k == l;
    if (!in) { bad("chain-pivot", "resolved on " + litStr(l) + ", which is not in " + stateOf(cur)); return; }
    if (atLevel(cur) < 2) bad("chain-not-first", "analysis goes on although the clause is asserting: " + stateOf(cur));
    for (auto &k : cur) if (ord[slot(k)] > ord[slot(l)]) { bad("chain-pivot", "resolved on " + litStr(l) + ", but " + litStr(k) + " was falsified later: " + stateOf(cur)); break; }
    int w = why[slot(l)];
    if (w == -3) { steps++; return; }
    Cls reason;
    if (w == -1) { Lit f = by[slot(l)], g = f; g.eq = !g.eq; reason = {f, g}; }
    else if (w == -2) for (int d = 0; d < p.dom[l.var]; d++) reason.push_back({l.var, d, true});
    else reason = reasons[w];
    Lit nl = l; nl.eq = !nl.eq;
    // what must be there: the part of either clause that is not resolved away
    auto has = [](const Cls &c, const Lit &x) { for (auto &k : c) if (k == x) return true; return false; };
    for (auto &k : cur) if (!clash(k, nl) && !has(res, k)) { bad("chain-resolvent", "resolving " + clsStr(cur) + " on " + litStr(l) + " with " + clsStr(reason) + " lost " + litStr(k) + ": " + clsStr(res)); return; }
    for (auto &k : reason) if (!clash(k, l) && !has(res, k)) { bad("chain-resolvent", "resolving " + clsStr(cur) + " on " + litStr(l) + " with " + clsStr(reason) + " lost " + litStr(k) + ": " + clsStr(res)); return; }
    for (auto &k : res) if (!(has(cur, k) && !clash(k, nl)) && !(has(reason, k) && !clash(k, l))) { bad("chain-resolvent", "resolving " + clsStr(cur) + " on " + litStr(l) + " with " + clsStr(reason) + " brought in " + litStr(k) + ": " + clsStr(res)); return; }
    steps++;
  }
  long long steps = 0;
  void assign(const Lit &l) {
    assigns++; curBy = l;
    if (l.eq) {
      if (st[slot(l)] == 0) put(l.var, slot(l), 1);
      for (int d = 0; d < p.dom[l.var]; d++) if (st[off[l.var] + d] == 0) put(l.var, off[l.var] + d, 2);
    } else if (st[slot(l)] == 0) put(l.var, slot(l), 2);
  }
  void undo(int to) {
    while (!trail.empty() && trail.back().level > to) {
      Tr t = trail.back(); trail.pop_back();
      if (st[t.slot] == 2) left[t.var]++;
      st[t.slot] = 0; lv[t.slot] = -1;
    }
    while (!decs.empty() && decs.back().level > to) decs.pop_back();
    level = to;
  }
  // activities of v=d and v!=d
  std::vector<double> act, nact;
  void bump(const Cls &c) {
    if (act.empty()) { act.assign(st.size(), 0); nact = act; }
    for (auto &l : c) {
      if (o.heur == "vsids_pos" && !l.eq) { for (int d = 0; d < p.dom[l.var]; d++) if (d != l.val) act[off[l.var] + d]++; }
      else (l.eq ? act : nact)[slot(l)]++;
    }
  }
  void learnedScores(const Cls &c) {
    if (o.heur != "vsids" && o.heur != "vsids_pos") return;
    bump(c);
    for (auto &x : act) x /= 2;
    for (auto &x : nact) x /= 2;
  }
  void heuristic(const Lit &l) {
    if (o.heur.empty() || status(l) != 2) return;
    r.n.scored++;
    if (o.heur == "lazy") {
      for (auto &c : db) for (auto &m : c) if (m == l) return;
      bad("heuristic", "lazy decision " + litStr(l) + " is no literal of a clause");
      return;
    }
    double best = -1e300, mine = -1e300;
    Lit bl{0, 0, false};
    std::vector<double> cnt;
    if (o.heur == "bk") {
      cnt.assign(st.size(), 0);
      for (auto &c : db) {
        bool sat = false;
        for (auto &m : c) if (status(m) == 1) { sat = true; break; }
        if (!sat) for (auto &m : c) cnt[slot(m)] += m.eq ? 1 : -1;
      }
    }
    auto see = [&](const Lit &m, double x) { if (x > best) { best = x; bl = m; } if (m == l) mine = x; };
    for (int v = 1; v <= p.n(); v++)
      for (int d = 0; d < p.dom[v]; d++) {
        int s = off[v] + d;
        if (st[s]) continue;
        see({v, d, true}, o.heur == "bk" ? cnt[s] : act[s]);
        if (o.heur == "vsids") see({v, d, false}, nact[s]);
      }
    if (mine < best - 1e-9 * (1 + fabs(best))) bad("heuristic", "decision " + litStr(l) + (mine < -1e299 ? " is of the wrong kind" : fmt(" scores %g", mine)) + ", " + litStr(bl) + fmt(" scores %g (", best) + o.heur + ")");
  }
  bool allFalse(const Cls &c) const { for (auto &l : c) if (status(l) != 0) return false; return true; }
  bool conflicting() const {
    for (auto &c : db) if (allFalse(c)) return true;
    for (int v = 1; v <= p.n(); v++) if (left[v] <= 0) return true;
    return false;
  }
  str stateOf(const Cls &c) const {
    str s;
    for (auto &l : c) { int t = status(l); s += litStr(l) + (t == 1 ? "[true] " : t == 0 ? fmt("[false@%d] ", lv[slot(l)]) : "[open] "); }
    return s.empty() ? "(empty)" : s;
  }
  void bcp(bool atEnd) {
    r.n.bcpChecks++;
    for (auto &c : db) {
      int open = 0; bool sat = false; Lit u{0, 0, false};
      for (auto &l : c) { int t = status(l); if (t == 1) { sat = true; break; } if (t == 2) { open++; u = l; } }
      if (sat) continue;
      if (open == 0) { bad(atEnd ? "sat-with-false-clause" : "false-clause-at-decision", "clause " + clsStr(c) + " is false"); return; }
      if (atEnd) continue;
      if (open == 1) { bad("unit-at-decision", "clause " + stateOf(c) + " forces " + litStr(u)); return; }
    }
    if (!atEnd)
      for (int v = 1; v <= p.n(); v++) {
        int eq = 0, opn = 0;
        for (int d = 0; d < p.dom[v]; d++) { char s = st[off[v] + d]; eq += s == 1; opn += s == 0; }
        if (!eq && opn == 1) { bad("single-value-at-decision", fmt("variable %d has one open value left and is not assigned", v)); return; }
        if (!eq && opn == 0) { bad("wiped-at-decision", fmt("variable %d has no value left", v)); return; }
      }
  }
};
}

TraceResult replayTrace(const Problem &p, const str &out, const SolveOut &so, const TraceOpt &o) {
  TraceResult r;
  std::vector<Ev> ev = parseEvents(out, r.n.unknownLines);
  Mon m(p, o, r);
  m.bump({});
  for (auto &c : m.db) m.bump(c);
  u64 h = 5;
  // what the next "Reducing" line belongs to: 0 forced, 1 decision, 2 flip, 3 entailment
  int pending = 0;
  Lit pendLit{0, 0, false};
  Cls lastLearned;
  bool haveLearned = false, expectLearned = false, sawReason = false;
  int learnedBack = 0;
  // after a backtrack: the level the learned clause must be propagated at, or -1
  bool afterBack = false; bool afterRestart = false; int backLevel = 0;
  Lit curLit{0, 0, false};
  int curKind = -1;
  // conflict analysis: the clause it is at
  Cls chain;
  bool haveChain = false, havePivot = false;
  long long chainLen = 0;
  Lit pivot{0, 0, false};
  auto reasonMissing = [&]() { if (curKind == 0 && !sawReason) m.bad("no-reason", "assignment of " + litStr(curLit) + " without a reason"); };
  for (size_t i = 0; i < ev.size(); i++) {
    Ev &e = ev[i];
    r.n.events++;
    h = mix64(h ^ ((u64)e.t << 50) ^ ((u64)e.l.var << 25) ^ (u64)e.l.val ^ ((u64)e.l.eq << 60) ^ (u64)e.num);
    if (r.bad.size() >= 4) break;
    switch (e.t) {
      case E_DEC: {
        r.n.decisions++;
        if (!m.valid(e.l)) { m.bad("decision-invalid", "decision on " + litStr(e.l)); goto done; }
        if (expectLearned) m.bad("conflict-ignored", "decision after a conflict without backtracking");
        if (m.status(e.l) != 2) m.bad("decision-on-assigned", "decision " + litStr(e.l) + " is already " + (m.status(e.l) == 1 ? "true" : "false"));
        if (o.checkBcp) m.bcp(false);
        m.heuristic(e.l);
        m.level++;
        if (m.level > r.n.maxLevel) r.n.maxLevel = m.level;
        m.decs.push_back({e.l, m.level});
        pending = 1; pendLit = e.l;
        afterBack = false;
        break;
      }
      case E_FLIP: {
        r.n.flips++; r.n.backtracks++;
        if (!m.valid(e.l)) { m.bad("flip-invalid", "flip to " + litStr(e.l)); goto done; }
        Lit neg = e.l; neg.eq = !neg.eq;
        if (m.decs.empty() || !(m.decs.back().l == neg)) {
          m.bad("flip-wrong", "flip to " + litStr(e.l) + ", last open decision is " + (m.decs.empty() ? str("none") : litStr(m.decs.back().l)));
          goto done;
        }
        if (!m.conflicting()) m.bad("flip-no-conflict", "decision " + litStr(neg) + " given up although nothing is false");
        m.undo(m.decs.back().level - 1);
        m.backtracked = true;
        pending = 2; pendLit = e.l;
        break;
      }
      case E_ENT: {
        r.n.entails++;
        if (!m.valid(e.l)) { m.bad("entail-invalid", litStr(e.l)); goto done; }
        pending = 3; pendLit = e.l;
        break;
      }
      case E_RED: {
        if (!m.valid(e.l)) { m.bad("assign-invalid", "assignment of " + litStr(e.l)); goto done; }
        if (e.num != m.level) {
          if (afterBack && afterRestart && e.num > 0) m.bad("restart-missing", fmt("assignment of %s at level %lld right after backtrack %lld, which should have restarted", litStr(e.l).c_str(), e.num, r.n.backtracks));
          else if (afterBack && !afterRestart && e.num == 0) m.bad("restart-unexpected", fmt("assignment of %s at level 0 after backtrack %lld to level %d", litStr(e.l).c_str(), r.n.backtracks, backLevel));
          else m.bad("level", fmt("assignment of %s at level %lld, replay is at level %d", litStr(e.l).c_str(), e.num, m.level));
          goto done;
        }
        if (pending && !(pendLit == e.l)) m.bad("announce", "announced " + litStr(pendLit) + ", assigned " + litStr(e.l));
        if (m.status(e.l) == 1 && pending != 1) m.bad("reassign", "assignment of " + litStr(e.l) + ", which is already true");
        if (m.status(e.l) == 0 && pending != 1) m.bad("contradict", "assignment of " + litStr(e.l) + ", which is already false");
        if (afterBack && pending == 0) {
          // the learned clause must be what is propagated first
          if (!afterRestart && haveLearned) {
            bool in = false;
            for (auto &l : lastLearned) if (l == e.l) in = true;
            if (!in) m.bad("learned-not-used", "after learning " + clsStr(lastLearned) + " the first assignment is " + litStr(e.l));
          }
        } else if (afterBack && pending == 1) {}
        afterBack = false;
        curLit = e.l; curKind = pending; sawReason = false;
        if (i + 1 >= ev.size() || (ev[i + 1].t != E_REASON_N && ev[i + 1].t != E_REASON_C)) {
          if (pending == 0) r.n.clauseUnits++;
          reasonMissing();
          m.curWhy = -3;
          m.assign(e.l);
          pending = 0;
        }
        break;
      }
      case E_REASON_N:
      case E_REASON_C: {
        sawReason = true;
        if (curKind < 0) break;
        if (curKind == 0) {
          r.n.clauseUnits++;
          if (e.t == E_REASON_N) m.bad("reason-kind", fmt("forced assignment of %s has reason %lld instead of a clause", litStr(curLit).c_str(), e.num));
          else {
            if (!m.validC(e.c)) { m.bad("reason-invalid", clsStr(e.c)); goto done; }
            bool in = false; const char *prob = nullptr;
            for (auto &l : e.c) {
              if (l == curLit) { in = true; continue; }
              if (m.status(l) != 0) prob = "has another literal that is not false";
            }
            if (!in) m.bad("reason-misses-literal", "reason " + clsStr(e.c) + " does not contain " + litStr(curLit));
            else if (prob) m.bad("reason-not-unit", "reason of " + litStr(curLit) + " " + prob + ": " + m.stateOf(e.c));
            if (!m.known.count(hashCls(normal(e.c)))) m.bad("reason-unknown-clause", "reason " + clsStr(e.c) + " is neither given nor learned");
          }
        } else if (curKind == 3) {
          if (e.t == E_REASON_C) m.bad("reason-kind", "entailed assignment of " + litStr(curLit) + " has a clause as reason");
          bool okE = curLit.eq;
          for (int d = 0; okE && d < p.dom[curLit.var]; d++) if (d != curLit.val && m.st[m.off[curLit.var] + d] != 2) okE = false;
          if (!okE) m.bad("entail-not-forced", "entailed " + litStr(curLit) + " although other values are open");
        } else if (curKind == 1 && o.mode != M_CHRONO) {
          if (e.t == E_REASON_C || e.num != -1) m.bad("reason-kind", "decision " + litStr(curLit) + " carries a reason");
        }
        if (e.t == E_REASON_C) { m.curWhy = (int)m.reasons.size(); m.reasons.push_back(normal(e.c)); }
        else m.curWhy = e.num == -1 || e.num == -2 ? (int)e.num : -3;
        m.assign(curLit);
        pending = 0; curKind = -1;
        break;
      }
      case E_CONF: {
        r.n.conflicts++;
        if (e.num != m.level) m.bad("conflict-level", fmt("conflict reported at level %lld, replay is at level %d", e.num, m.level));
        expectLearned = e.num > 0;
        haveLearned = false;
        afterBack = false;
        haveChain = havePivot = false;
        break;
      }
      case E_CCLAUSE: {
        if (!m.validC(e.c)) { m.bad("conflict-invalid", clsStr(e.c)); goto done; }
        haveChain = true; havePivot = false; chain = normal(e.c); chainLen = 0;
        if (!m.allFalse(e.c)) m.bad("conflict-not-false", "conflicting clause is not false: " + m.stateOf(e.c));
        if (!m.known.count(hashCls(normal(e.c)))) m.bad("conflict-unknown-clause", "conflicting clause " + clsStr(e.c) + " is neither given nor learned");
        break;
      }
      case E_PIVOT:
        if (!m.valid(e.l)) { m.bad("chain-pivot", "resolved on " + litStr(e.l)); goto done; }
        havePivot = true; pivot = e.l;
        break;
      case E_RESOLVENT: {
        r.n.resolvents++;
        if (!m.validC(e.c)) { m.bad("chain-resolvent", clsStr(e.c)); goto done; }
        Cls k = normal(e.c);
        if (haveChain && havePivot) { m.step(chain, pivot, k); chainLen++; if (chainLen > r.n.longestChain) r.n.longestChain = chainLen; }
        chain = k; havePivot = false;
        break;
      }
      case E_LEARN: {
        r.n.learned++;
        if (!m.validC(e.c)) { m.bad("learned-invalid", clsStr(e.c)); goto done; }
        int cur = 0, second = 0;
        for (auto &l : e.c) {
          if (m.status(l) != 0) { m.bad("learned-not-false", "learned clause is not false: " + m.stateOf(e.c)); break; }
          int x = m.lv[m.slot(l)];
          if (x == m.level) cur++; else if (x > second) second = x;
        }
        if (cur != 1) m.bad("learned-not-asserting", fmt("learned clause has %d literals falsified at the current level %d: ", cur, m.level) + m.stateOf(e.c));
        learnedBack = second;
        lastLearned = e.c; haveLearned = true; expectLearned = false;
        if (e.c.size() == 1) r.n.learnedUnit++;
        Cls k = normal(e.c);
        if (haveChain) {
          r.n.chains++;
          if (hashCls(k) != hashCls(chain)) m.bad("chain-result", "analysis ended at " + clsStr(chain) + " but learned " + clsStr(k));
        }
        m.db.push_back(k); m.known.insert(hashCls(k));
        m.learnedScores(k);
        r.learned.push_back(k);
        break;
      }
      case E_BACK: {
        r.n.backtracks++;
        if (!haveLearned) m.bad("backtrack-without-learning", "");
        else if (e.num != learnedBack) m.bad("backjump-level", fmt("backtrack to level %lld, second highest level in the learned clause is %d: ", e.num, learnedBack) + m.stateOf(lastLearned));
        if (e.num >= m.level || e.num < 0) { m.bad("backjump-level", fmt("backtrack from level %d to %lld", m.level, e.num)); goto done; }
        if (m.level - e.num > 1) r.n.backjumps++;
        bool rs = o.restartK > 0 && r.n.backtracks % o.restartK == 0;
        backLevel = (int)e.num;
        m.undo(rs ? 0 : (int)e.num);
        m.backtracked = true;
        if (rs) { r.n.restarts++; m.restarted = true; }
        afterBack = true; afterRestart = rs;
        break;
      }
      case E_NBACK: {
        // printed before or after the level; accept either order
        long long want = r.n.backtracks;
        bool before = i + 1 < ev.size() && ev[i + 1].t == E_BACK;
        if (e.num != want + (before ? 1 : 0)) m.bad("backtrack-count", fmt("reported %lld backtracks so far, %lld seen", e.num, want));
        break;
      }
    }
  }
  if (r.bad.empty()) {
    if (so.verdict == V_SAT) {
      m.bcp(true);
    } else if (so.verdict == V_UNSAT) {
      if (o.mode == M_CHRONO) {
        r.n.backtracks++;
        if (!m.decs.empty()) m.bad("unsat-with-open-decision", "UNSAT although decision " + litStr(m.decs.back().l) + " was not flipped");
        else if (!m.conflicting()) m.bad("unsat-without-conflict", "UNSAT although no clause is false at level 0");
      } else {
        if (m.level != 0 || !m.conflicting()) m.bad("unsat-without-conflict", fmt("UNSAT although no clause is false at level 0 (replay level %d)", m.level));
      }
    }
  }
done:
  for (int v = 1; v <= p.n(); v++) for (int d = 0; d < p.dom[v]; d++) if (m.st[m.off[v] + d] == 1) r.finalTrue.push_back({v, d, true});
  r.usable = !ev.empty() && (r.n.unknownLines == 0 || r.n.events > 3 * r.n.unknownLines || r.n.unknownLines <= 8);
  r.n.steps = m.steps;
  r.shape = h;
  return r;
}
