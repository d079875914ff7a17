// Monitor over the -verbose log of bitvec/: replays domain reductions, conflicts, learned
// clauses, backtracks and restarts on value sets of its own.
#include "trace.h"
#include <cstring>

namespace {
typedef std::vector<std::pair<int, u64>> SC;

bool parseSet(const char *s, int &var, u64 &set, const char **rest) {
  char *e;
  long v = strtol(s, &e, 10);
  if (e == s || *e != '=') return false;
  e++;
  size_t n = strspn(e, "01");
  if (n == 0) return false;
  u64 x = 0;
  for (size_t i = 0; i < n; i++) { if (i + 64 < n && e[i] == '1') return false; x = x * 2 + (e[i] == '1'); }
  var = (int)v; set = x; *rest = e + n;
  return true;
}
bool bits(const char *s, u64 &set) {
  str t = str("0=") + s;
  int v; const char *rest;
  return parseSet(t.c_str(), v, set, &rest) && *rest == 0;
}

enum T { B_UNIT, B_RED, B_EFFECT, B_NEW, B_DEC, B_CONF, B_CCLAUSE, B_LEARN, B_BACK, B_NBACK, B_PIVOT, B_RESOLVENT };
struct Ev { T t; int var = 0; u64 set = 0; long long num = 0; SC c; };

bool starts(const str &s, const char *k) { return s.compare(0, strlen(k), k) == 0; }

std::vector<Ev> parse(const str &out, long long &unknown) {
  std::vector<Ev> ev;
  size_t i = 0;
  str l;
  auto next = [&](str &t) {
    if (i >= out.size()) return false;
    size_t e = out.find('\n', i);
    if (e == str::npos) e = out.size();
    t.assign(out, i, e - i);
    i = e + 1;
    return true;
  };
  auto clause = [&] {
    SC c;
    str t;
    for (;;) {
      size_t save = i;
      if (!next(t) || t.empty()) break;
      int v; u64 s; const char *rest;
      if (parseSet(t.c_str(), v, s, &rest) && *rest == 0) c.push_back({v, s});
      else { i = save; break; }
    }
    return c;
  };
  while (next(l)) {
    while (!l.empty() && l[0] == '\a') l.erase(0, 1);
    if (l == "SAT" || l == "UNSAT" || l == "TIMEOUT") break;
    if (l.find("Solving with") != str::npos) continue;
    Ev e;
    const char *rest;
    if (starts(l, "unit c")) { size_t q = l.find(':'); e.t = B_UNIT; e.num = q == str::npos ? -99 : atoll(l.c_str() + q + 1); e.c = clause(); ev.push_back(e); continue; }
    if (starts(l, "Effect:") ) { e.t = B_EFFECT; const char *q = l.c_str() + 7; while (*q == ' ') q++; if (bits(q, e.set)) { ev.push_back(e); continue; } }
    else if (starts(l, "New domain:")) { e.t = B_NEW; const char *q = l.c_str() + 11; while (*q == ' ') q++; if (bits(q, e.set)) { ev.push_back(e); continue; } }
    else if (starts(l, "Decision: ")) { e.t = B_DEC; if (parseSet(l.c_str() + 10, e.var, e.set, &rest)) { ev.push_back(e); continue; } }
    else if (starts(l, "There is a conflict at level")) { size_t q = l.find(':'); e.t = B_CONF; e.num = q == str::npos ? -99 : atoll(l.c_str() + q + 1); ev.push_back(e); continue; }
    else if (starts(l, "Conflicting clause")) { e.t = B_CCLAUSE; e.c = clause(); ev.push_back(e); continue; }
    else if (starts(l, "Learned a clause")) { e.t = B_LEARN; e.c = clause(); ev.push_back(e); continue; }
    else if (starts(l, "We are backtracking to the level")) { size_t q = l.find(':'); e.t = B_BACK; e.num = q == str::npos ? -99 : atoll(l.c_str() + q + 1); ev.push_back(e); continue; }
    else if (starts(l, "# of backtracks so far")) { size_t q = l.find(':'); e.t = B_NBACK; e.num = q == str::npos ? -99 : atoll(l.c_str() + q + 1); ev.push_back(e); continue; }
    else if (starts(l, "Latest falsified")) {
      size_t save = i;
      str t;
      if (next(t) && parseSet(t.c_str(), e.var, e.set, &rest) && *rest == 0) { e.t = B_PIVOT; ev.push_back(e); } else i = save;
      continue;
    } else if (starts(l, "It's reason")) { clause(); continue; }
    else if (starts(l, "Resolvent")) { e.t = B_RESOLVENT; e.c = clause(); ev.push_back(e); continue; }
    else if (starts(l, "Conflict") || l.empty()) continue;
    else if (parseSet(l.c_str(), e.var, e.set, &rest)) {
      if (*rest == 0) continue;                  // literals printed along with the analysis
      const char *a = strstr(rest, "at level ");
      if (a) { e.t = B_RED; e.num = atoll(a + 9); ev.push_back(e); continue; }
    }
    if (l[0] == '*' || starts(l, "Finite Domain") || starts(l, "p.mv") || starts(l, "-1=")) continue;
    unknown++;
  }
  return ev;
}

u64 hashSC(SC c) {
  std::sort(c.begin(), c.end());
  u64 h = 77;
  for (auto &l : c) h = mix64(h ^ mix64((u64)l.first * 0x9e37 + 1) ^ l.second);
  return h;
}
str setOf(u64 s) {
  str t;
  for (int d = 0; d < 64; d++) if (s >> d & 1) t += (t.empty() ? "" : ",") + std::to_string(d);
  return "{" + t + "}";
}
str scStr(const SC &c) {
  str s;
  for (auto &l : c) s += fmt("%d in ", l.first) + setOf(l.second) + " ";
  return s.empty() ? "(empty)" : s;
}

struct Mon {
  const Problem &p;
  TraceResult &r;
  std::vector<u64> full, dom;
  struct Tr { int var, level; u64 removed; int ord, why; };
  int reductions = 0;
  std::vector<SC> reasons;
  long long steps = 0;
  std::vector<Tr> trail;
  int level = 0;
  std::vector<SC> db;
  std::unordered_set<u64> known;
  bool backtracked = false, restarted = false;
  Mon(const Problem &q, TraceResult &rr) : p(q), r(rr) {
    full.assign(p.n() + 1, 0);
    for (int v = 1; v <= p.n(); v++) full[v] = p.dom[v] >= 64 ? ~0ULL : (1ULL << p.dom[v]) - 1;
    dom = full;
    for (auto &c : p.cls) {
      std::map<int, u64> m;
      for (auto &l : c) {
        u64 b = l.val >= 0 && l.val < 64 ? 1ULL << l.val : 0;
        u64 s = l.eq ? b & full[l.var] : full[l.var] & ~b;
        if (s) m[l.var] |= s;
      }
      SC k(m.begin(), m.end());
      add(k);
    }
  }
  void add(const SC &k) { db.push_back(k); known.insert(hashSC(k)); }
  void bad(const char *kind, const str &d) {
    if (r.bad.size() < 6) { Anomaly a; a.kind = kind; a.detail = fmt("event %lld, level %d: ", r.n.events, level) + d; a.afterBacktrack = backtracked; a.afterRestart = restarted; r.bad.push_back(a); }
  }
  bool valid(const SC &c) const { for (auto &l : c) if (l.first < 1 || l.first > p.n()) return false; return true; }
  // 1 true 0 false 2 open
  int status(const std::pair<int, u64> &l) const { u64 d = dom[l.first]; return !(d & l.second) ? 0 : !(d & ~l.second) ? 1 : 2; }
  // level of the latest removal of one of the literal's values; -1 when nothing was removed
  int lastLevel(const std::pair<int, u64> &l) const {
    for (size_t i = trail.size(); i-- > 0;) if (trail[i].var == l.first && (trail[i].removed & l.second)) return trail[i].level;
    return -1;
  }
  const Tr *lastTrail(const std::pair<int, u64> &l) const {
    for (size_t i = trail.size(); i-- > 0;) if (trail[i].var == l.first && (trail[i].removed & l.second)) return &trail[i];
    return nullptr;
  }
  static u64 setIn(const SC &c, int v) { u64 s = 0; for (auto &l : c) if (l.first == v) s |= l.second; return s; }
  int atLevel(const SC &c) const { int n = 0; for (auto &l : c) n += lastLevel(l) == level; return n; }
  // one step of conflict analysis: cur resolved on its literal l gave res
  void step(const SC &cur, const std::pair<int, u64> &l, const SC &res) {
    bool in = false;
    for (auto &k : cur) in = in || k == l;
    if (!in) { bad("chain-pivot", fmt("resolved on variable %d, literal not in ", l.first) + stateOf(cur)); return; }
    if (atLevel(cur) < 2) bad("chain-not-first", "analysis goes on although the clause is asserting: " + stateOf(cur));
    const Tr *t = lastTrail(l);
    if (!t) { bad("chain-pivot", "resolved on a literal that is not false: " + stateOf(cur)); return; }
    for (auto &k : cur) { const Tr *u = lastTrail(k); if (u && u->ord > t->ord) { bad("chain-pivot", fmt("resolved on variable %d, but variable %d was falsified later: ", l.first, k.first) + stateOf(cur)); break; } }
    if (t->why < 0) return;
    const SC &reason = reasons[t->why];
    std::map<int, u64> want;
    for (auto &k : cur) want[k.first] |= k.second;
    for (auto &k : reason) want[k.first] |= k.second;
    want[l.first] = setIn(cur, l.first) & setIn(reason, l.first);
    std::map<int, u64> got;
    for (auto &k : res) got[k.first] |= k.second;
    for (auto &k : want) if (k.second & ~got[k.first]) { bad("chain-resolvent", "resolving " + scStr(cur) + fmt("on variable %d with ", l.first) + scStr(reason) + fmt("lost values of variable %d: ", k.first) + scStr(res)); return; }
    for (auto &k : got) if (k.second & ~want[k.first]) { bad("chain-resolvent", "resolving " + scStr(cur) + fmt("on variable %d with ", l.first) + scStr(reason) + fmt("brought in values of variable %d: ", k.first) + scStr(res)); return; }
    steps++;
  }
  void undo(int to) {
    while (!trail.empty() && trail.back().level > to) { dom[trail.back().var] |= trail.back().removed; trail.pop_back(); }
    level = to;
  }
  std::vector<std::vector<double>> act;
  void bump(const SC &c) {
    if (act.empty()) for (int v = 0; v <= p.n(); v++) act.push_back(std::vector<double>(v ? p.dom[v] : 0, 0));
    for (auto &l : c) for (int d = 0; d < p.dom[l.first]; d++) if (l.second >> d & 1) act[l.first][d]++;
  }
  void heuristic(const str &h, const std::pair<int, u64> &l) {
    if (h.empty() || status(l) != 2) return;
    r.n.scored++;
    if (h == "lazy") {
      for (auto &c : db) for (auto &m : c) if (m == l) return;
      bad("heuristic", fmt("lazy decision on variable %d is no literal of a clause", l.first));
      return;
    }
    double best = -1, mine = -1;
    int bv = 0, bd = 0;
    for (int v = 1; v <= p.n(); v++) {
      if (!(dom[v] & (dom[v] - 1))) continue;
      for (int d = 0; d < p.dom[v]; d++) {
        if (!(dom[v] >> d & 1)) continue;
        if (act[v][d] > best) { best = act[v][d]; bv = v; bd = d; }
        if (v == l.first && l.second == 1ULL << d) mine = act[v][d];
      }
    }
    if (mine < best - 1e-9 * (1 + best)) bad("heuristic", fmt("decision %d in ", l.first) + setOf(l.second) + (mine < 0 ? str(" is of the wrong kind") : fmt(" scores %g", mine)) + fmt(", %d=%d scores %g (vsids)", bv, bd, best));
  }
  bool allFalse(const SC &c) const { for (auto &l : c) if (status(l)) return false; return true; }
  bool conflicting() const { for (auto &c : db) if (allFalse(c)) return true; return false; }
  str stateOf(const SC &c) const {
    str s;
    for (auto &l : c) { int t = status(l); s += fmt("%d in ", l.first) + setOf(l.second) + (t == 1 ? "[true] " : t == 0 ? fmt("[false@%d] ", lastLevel(l)) : "[open, now " + setOf(dom[l.first]) + "] "); }
    return s.empty() ? "(empty)" : s;
  }
  void bcp(bool atEnd) {
    r.n.bcpChecks++;
    for (auto &c : db) {
      int open = 0; bool sat = false;
      for (auto &l : c) { int t = status(l); if (t == 1) { sat = true; break; } open += t == 2; }
      if (sat) continue;
      if (open == 0) { bad(atEnd ? "sat-with-false-clause" : "false-clause-at-decision", "clause " + scStr(c) + " is false"); return; }
      if (!atEnd && open == 1) { bad("unit-at-decision", "clause " + stateOf(c) + " has one open literal and no true one"); return; }
    }
    for (int v = 1; v <= p.n(); v++) if (!dom[v]) { bad("wiped-at-decision", fmt("variable %d has no value left", v)); return; }
  }
};
}

TraceResult replayBv(const Problem &p, const str &out, const SolveOut &so, const TraceOpt &o) {
  TraceResult r;
  for (int v = 1; v <= p.n(); v++) if (p.dom[v] > 64) return r;
  std::vector<Ev> ev = parse(out, r.n.unknownLines);
  Mon m(p, r);
  m.bump({});
  for (auto &c : m.db) m.bump(c);
  u64 h = 6;
  bool expectLearned = false, haveLearned = false, decided = false;
  bool afterBack = false, afterRestart = false;
  int learnedBack = 0, backLevel = 0;
  SC lastLearned;
  std::pair<int, u64> dec{0, 0};
  const Ev *unit = nullptr;
  SC chain;
  bool haveChain = false, havePivot = false;
  long long chainLen = 0;
  std::pair<int, u64> pivot{0, 0};
  int redVar = 0; u64 redOld = 0, redSet = 0;
  auto missing = [&] { if (decided) { m.bad("announce", fmt("decision on variable %d was not carried out", dec.first)); decided = false; } };
  for (size_t i = 0; i < ev.size(); i++) {
    Ev &e = ev[i];
    r.n.events++;
    h = mix64(h ^ ((u64)e.t << 50) ^ ((u64)e.var << 25) ^ mix64(e.set) ^ (u64)e.num);
    if (r.bad.size() >= 4) break;
    if (e.t != B_RED) missing();
    switch (e.t) {
      case B_UNIT: unit = &e; break;
      case B_DEC: {
        r.n.decisions++;
        unit = nullptr;
        if (e.var < 1 || e.var > p.n()) { m.bad("decision-invalid", fmt("decision on variable %d", e.var)); goto done; }
        if (expectLearned) m.bad("conflict-ignored", "decision after a conflict without backtracking");
        std::pair<int, u64> l{e.var, e.set};
        if (m.status(l) != 2) m.bad("decision-on-assigned", fmt("decision %d in ", e.var) + setOf(e.set) + ", values left " + setOf(m.dom[e.var]));
        if (o.checkBcp) m.bcp(false);
        m.heuristic(o.heur, l);
        m.level++;
        if (m.level > r.n.maxLevel) r.n.maxLevel = m.level;
        dec = l; decided = true;
        afterBack = false;
        break;
      }
      case B_RED: {
        if (e.var < 1 || e.var > p.n()) { m.bad("assign-invalid", fmt("reduction of variable %d", e.var)); goto done; }
        if (e.num != m.level) {
          if (afterBack && afterRestart && e.num > 0) m.bad("restart-missing", fmt("reduction of %d at level %lld right after backtrack %lld, which should have restarted", e.var, e.num, r.n.backtracks));
          else if (afterBack && !afterRestart && e.num == 0) m.bad("restart-unexpected", fmt("reduction of %d at level 0 after backtrack %lld to level %d", e.var, r.n.backtracks, backLevel));
          else m.bad("level", fmt("reduction of %d at level %lld, replay is at level %d", e.var, e.num, m.level));
          goto done;
        }
        std::pair<int, u64> l{e.var, e.set};
        if (decided) {
          if (!(l == dec)) m.bad("announce", fmt("announced a decision on %d, reduced %d", dec.first, e.var));
          decided = false;
        } else {
          r.n.clauseUnits++;
          int st = m.status(l);
          if (st == 1) m.bad("reassign", fmt("forced %d in ", e.var) + setOf(e.set) + ", which already holds");
          if (st == 0) m.bad("contradict", fmt("forced %d in ", e.var) + setOf(e.set) + ", but the values left are " + setOf(m.dom[e.var]));
          if (!unit) m.bad("no-reason", fmt("reduction of %d to ", e.var) + setOf(e.set) + " without a clause");
          else {
            if (!m.valid(unit->c)) { m.bad("reason-invalid", scStr(unit->c)); goto done; }
            bool in = false, prob = false;
            for (auto &k : unit->c) { if (k == l) { in = true; continue; } if (m.status(k) != 0) prob = true; }
            if (!in) m.bad("reason-misses-literal", "clause " + scStr(unit->c) + fmt(" does not contain %d in ", e.var) + setOf(e.set));
            else if (prob) m.bad("reason-not-unit", fmt("clause used for %d has another literal that is not false: ", e.var) + m.stateOf(unit->c));
            if (!m.known.count(hashSC(unit->c))) m.bad("reason-unknown-clause", "clause " + scStr(unit->c) + " is neither given nor learned");
            if (afterBack && !afterRestart && haveLearned && hashSC(unit->c) != hashSC(lastLearned)) m.bad("learned-not-used", "after learning " + scStr(lastLearned) + fmt(" the first reduction is of %d", e.var));
          }
        }
        int why = -1;
        if (unit) { why = (int)m.reasons.size(); m.reasons.push_back(unit->c); }
        unit = nullptr;
        afterBack = false;
        u64 gone = m.dom[e.var] & ~e.set;
        redVar = e.var; redOld = m.dom[e.var]; redSet = e.set;
        if (gone) m.trail.push_back({e.var, m.level, gone, ++m.reductions, why});
        m.dom[e.var] &= e.set;
        break;
      }
      case B_EFFECT:
        if (redVar && e.set != (redOld & ~redSet)) m.bad("level", fmt("the log removes %s from variable %d, the replay %s", setOf(e.set).c_str(), redVar, setOf(redOld & ~redSet).c_str()));
        break;
      case B_NEW:
        if (redVar && e.set != m.dom[redVar]) m.bad("level", fmt("the log leaves %s for variable %d, the replay %s", setOf(e.set).c_str(), redVar, setOf(m.dom[redVar]).c_str()));
        break;
      case B_CONF:
        r.n.conflicts++;
        unit = nullptr;
        if (e.num != m.level) m.bad("conflict-level", fmt("conflict reported at level %lld, replay is at level %d", e.num, m.level));
        expectLearned = e.num > 0; haveLearned = false; afterBack = false; haveChain = havePivot = false;
        break;
      case B_PIVOT: havePivot = true; pivot = {e.var, e.set}; break;
      case B_RESOLVENT:
        r.n.resolvents++;
        if (!m.valid(e.c)) { m.bad("chain-resolvent", scStr(e.c)); goto done; }
        if (haveChain && havePivot) { m.step(chain, pivot, e.c); chainLen++; if (chainLen > r.n.longestChain) r.n.longestChain = chainLen; }
        chain = e.c; havePivot = false;
        break;
      case B_CCLAUSE:
        if (!m.valid(e.c)) { m.bad("conflict-invalid", scStr(e.c)); goto done; }
        haveChain = true; havePivot = false; chain = e.c; chainLen = 0;
        if (!m.allFalse(e.c)) m.bad("conflict-not-false", "conflicting clause is not false: " + m.stateOf(e.c));
        if (!m.known.count(hashSC(e.c))) m.bad("conflict-unknown-clause", "conflicting clause " + scStr(e.c) + " is neither given nor learned");
        break;
      case B_LEARN: {
        r.n.learned++;
        if (!m.valid(e.c)) { m.bad("learned-invalid", scStr(e.c)); goto done; }
        int cur = 0, second = 0;
        for (auto &l : e.c) {
          if (m.status(l) != 0) { m.bad("learned-not-false", "learned clause is not false: " + m.stateOf(e.c)); break; }
          int x = m.lastLevel(l);
          if (x == m.level) cur++; else if (x > second) second = x;
        }
        if (cur != 1) m.bad("learned-not-asserting", fmt("learned clause has %d literals falsified at the current level %d: ", cur, m.level) + m.stateOf(e.c));
        learnedBack = second; lastLearned = e.c; haveLearned = true; expectLearned = false;
        if (e.c.size() == 1) r.n.learnedUnit++;
        if (haveChain) {
          r.n.chains++;
          if (hashSC(e.c) != hashSC(chain)) m.bad("chain-result", "analysis ended at " + scStr(chain) + " but learned " + scStr(e.c));
        }
        m.add(e.c);
        if (o.heur == "vsids") { m.bump(e.c); for (auto &a : m.act) for (auto &x : a) x /= 2; }
        r.learnedSets.push_back(e.c);
        break;
      }
      case B_BACK: {
        r.n.backtracks++;
        if (!haveLearned) m.bad("backtrack-without-learning", "");
        else if (e.num != learnedBack) m.bad("backjump-level", fmt("backtrack to level %lld, second highest level in the learned clause is %d: ", e.num, learnedBack) + m.stateOf(lastLearned));
        if (e.num >= m.level || e.num < 0) { m.bad("backjump-level", fmt("backtrack from level %d to %lld", m.level, e.num)); goto done; }
        if (m.level - e.num > 1) r.n.backjumps++;
        bool rs = o.restartK > 0 && r.n.backtracks % o.restartK == 0;
        backLevel = (int)e.num;
        m.undo(rs ? 0 : (int)e.num);
        m.backtracked = true;
        if (rs) { r.n.restarts++; m.restarted = true; }
        afterBack = true; afterRestart = rs; redVar = 0;
        break;
      }
      case B_NBACK: {
        bool before = i + 1 < ev.size() && ev[i + 1].t == B_BACK;
        if (e.num != r.n.backtracks + (before ? 1 : 0)) m.bad("backtrack-count", fmt("reported %lld backtracks so far, %lld seen", e.num, r.n.backtracks));
        break;
      }
    }
  }
  missing();
  if (r.bad.empty()) {
    if (so.verdict == V_SAT) m.bcp(true);
    else if (so.verdict == V_UNSAT && (m.level != 0 || !m.conflicting())) m.bad("unsat-without-conflict", fmt("UNSAT although no clause is false at level 0 (replay level %d)", m.level));
  }
done:
  r.finalDom = m.dom;
  r.n.steps = m.steps;
  r.usable = !ev.empty() && (r.n.unknownLines == 0 || r.n.events > 3 * r.n.unknownLines || r.n.unknownLines <= 8);
  r.shape = h;
  return r;
}
