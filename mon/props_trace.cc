// C05-C09, C11: judged from the event log of verbose runs, replayed by trace.cc.
#include "props.h"
#include <cstring>

static GenOpt srcOpt() { GenOpt o; o.maxDom = 300; return o; }
// every fourth case watches the bit-vector solver
static bool bvCase(GenOpt &o, long long i) { if (i % 4 != 3) return false; o.maxDom = 64; return true; }
static Cfg cfgFor(Rng &r, bool bv, bool chrono) { return bv ? rndBvCfg(r) : rndCfg(r, chrono); }

struct Traced { SolveRun s; TraceResult t; bool ok = false; };

static Traced traced(Ctx &c, const Problem &p, Cfg g, bool bcp = true, const str &heur = "") {
  Traced x;
  g.verbose = true;
  x.s = solveText(c, g.bitvec ? "bv" : "src", writePlain(p), g, g.bitvec ? 30000 : 200000);
  if (!x.s.good) return x;
  TraceOpt o;
  o.mode = g.mode; o.restartK = g.k; o.checkBcp = bcp; o.heur = heur;
  x.t = g.bitvec ? replayBv(p, x.s.res.out, x.s.out, o) : replayTrace(p, x.s.res.out, x.s.out, o);
  if (g.bitvec) c.add("bit-vector-runs");
  TraceCounts &n = x.t.n;
  c.add("problem:" + p.kind);
  c.add("config:" + g.name().substr(0, g.name().find('/')));
  c.add("events", n.events); c.add("decisions", n.decisions); c.add("forced-assignments", n.clauseUnits); c.add("entailments", n.entails);
  c.add("conflicts", n.conflicts); c.add("learned-clauses", n.learned); c.add("learned-units", n.learnedUnit); c.add("backtracks", n.backtracks); c.add("backjumps-over-levels", n.backjumps);
  c.add("restarts", n.restarts); c.add("flips", n.flips); c.add("states-scanned-for-open-propagation", n.bcpChecks);
  if (n.chains) { c.add("conflict-analyses-followed", n.chains); c.add("resolution-steps-checked", n.steps); c.maxi("longest-analysis", n.longestChain); }
  c.maxi("deepest-level", n.maxLevel);
  c.shapes.insert(x.t.shape);
  if (!x.t.usable && n.unknownLines > 0) { c.add(x.t.n.events ? "log-unreadable" : "runs-without-events"); return x; }
  x.ok = true;
  return x;
}

static bool in(const str &k, std::initializer_list<const char *> l) {
  for (auto x : l) if (k == x) return true;
  return false;
}

static bool report(Ctx &c, const Problem &p, const Cfg &g, const Traced &x, const std::function<bool(const Anomaly &)> &mine) {
  for (auto &a : x.t.bad) {
    if (!mine(a)) { c.add("other-anomaly:" + a.kind); continue; }
    c.violation(a.kind, g.name() + ": " + a.detail, bundle(p, x.s));
    return true;
  }
  return false;
}

static Problem searchProblem(Rng &r, const GenOpt &o) {
  int w = r.below(100);
  if (w < 40) return genSmall(r, o);
  if (w < 62) return genMid(r, o);
  if (w < 80) return genStructured(r, o);
  if (w < 94) return genPlanted(r, o, 6, 24);
  if (w < 96) return genLargeDomain(r, o);
  if (r.chance(35)) return genSpecial(r, o);
  if (r.chance(60)) return genChain(r, o, r.range(10, 80));
  return r.chance(40) ? genDeep(r, o, r.range(50, 150)) : genDeepCore(r, r.chance(70) ? r.range(130, 200) : r.range(20, 350));
}

void C05(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    Problem p = searchProblem(r, o);
    Truth t;
    bool haveModels = space(p, 5000) <= 5000 && enumerate(p, 5000, t.models);
    for (int j = 0; j < 3; j++) {
      Cfg g = cfgFor(r, bv, false);
      Traced x = traced(c, p, g, false);
      if (!x.ok) continue;
      if (x.t.n.learned > 0) { c.nontrivial(x.t.shape); c.sample(fmt("%s, %d variables, %zu clauses, %s: %lld clauses learned, first %s", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), x.t.n.learned, x.t.learned.empty() ? "(bit-vector)" : clsStr(x.t.learned[0]).c_str())); }
      if (report(c, p, g, x, [](const Anomaly &a) { return in(a.kind, {"learned-not-false", "learned-not-asserting", "learned-invalid", "backtrack-without-learning", "conflict-ignored", "learned-not-used"}); })) return;
      if (bv) {
        if (haveModels)
          for (auto &k : x.t.learnedSets) {
            c.add("entailment-by-models");
            for (auto &m : t.models) {
              bool tr = false;
              for (auto &l : k) tr = tr || (l.second >> m[l.first] & 1);
              if (!tr) { c.violation("learned-not-implied", g.name() + ": a learned clause is false in a model of the problem", bundle(p, x.s)); return; }
            }
          }
        continue;
      }
      Prop up(p.dom);
      for (auto &k : p.cls) up.addClause(k);
      int idx = 0;
      for (auto &k : x.t.learned) {
        if (idx++ > 1500) break;
        bool good;
        if (haveModels) {
          good = true;
          for (auto &m : t.models) if (!clsTrue(k, m)) { good = false; break; }
          c.add("entailment-by-models");
        } else if (up.rup(k)) { good = true; c.add("entailment-by-propagation"); }
        else {
          int d = decide(p, 40000, nullptr, &k);
          if (d < 0) c.add("entailment-undecided"); else c.add("entailment-by-search");
          good = d != 1;
        }
        if (!good) {
          auto f = bundle(p, x.s);
          c.violation("learned-not-implied", g.name() + fmt(": learned clause number %d does not follow from the problem: ", idx) + clsStr(k).substr(0, 400), f);
          return;
        }
        up.addClause(k);
      }
    }
  });
}

void C06(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    Problem p = searchProblem(r, o);
    for (int j = 0; j < 3; j++) {
      Cfg g = cfgFor(r, bv, p.n() <= 20);
      Traced x = traced(c, p, g, false);
      if (!x.ok) continue;
      if (x.t.n.clauseUnits + x.t.n.conflicts > 0) { c.nontrivial(x.t.shape); c.sample(fmt("%s, %d variables, %zu clauses, %s: %lld forced assignments, %lld entailments, %lld conflicts, all with valid reasons", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), x.t.n.clauseUnits, x.t.n.entails, x.t.n.conflicts)); }
      if (report(c, p, g, x, [](const Anomaly &a) {
            return !strncmp(a.kind.c_str(), "reason", 6) || !strncmp(a.kind.c_str(), "entail", 6) || in(a.kind, {"no-reason", "conflict-not-false", "conflict-invalid", "conflict-unknown-clause", "unsat-without-conflict", "flip-no-conflict", "contradict", "reassign"});
          })) return;
    }
  });
}

void C07(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    Problem p = searchProblem(r, o);
    for (int j = 0; j < 3; j++) {
      Cfg g = cfgFor(r, bv, p.n() <= 20);
      Traced x = traced(c, p, g, false);
      if (!x.ok) continue;
      if (x.t.n.backtracks > 0) { c.nontrivial(x.t.shape); c.sample(fmt("%s, %d variables, %zu clauses, %s: %lld backtracks (%lld over several levels), deepest level %lld", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), x.t.n.backtracks, x.t.n.backjumps, x.t.n.maxLevel)); }
      if (report(c, p, g, x, [](const Anomaly &a) {
            if (in(a.kind, {"level", "backjump-level", "reassign", "contradict", "flip-invalid", "flip-wrong", "decision-on-assigned", "decision-invalid", "unsat-with-open-decision", "conflict-level", "restart-unexpected", "conflict-ignored"})) return true;
            return a.afterBacktrack && in(a.kind, {"reason-not-unit", "conflict-not-false", "learned-not-false", "entail-not-forced", "learned-not-asserting", "unsat-without-conflict"});
          })) return;
      if (bv) {
        if (x.t.bad.empty() && x.s.out.verdict == V_SAT && x.s.out.hasModel) {
          c.add("final-models-compared");
          std::map<int, u64> pm(x.s.out.bvModel.begin(), x.s.out.bvModel.end());
          for (int v = 1; v <= p.n(); v++)
            if (pm.count(v) && pm[v] != x.t.finalDom[v] && (pm[v] & ~x.t.finalDom[v])) { c.violation("final-model", g.name() + fmt(": the printed set of variable %d has values the replay excluded", v), bundle(p, x.s)); return; }
            else if (pm.count(v) && pm[v] != x.t.finalDom[v]) { c.violation("final-model", g.name() + fmt(": the printed set of variable %d lacks values the replay still has", v), bundle(p, x.s)); return; }
        }
        continue;
      }
      if (x.t.bad.empty() && x.s.out.verdict == V_SAT && x.s.out.hasModel) {
        // every replayed value must be printed; variables the search left open may be completed freely
        std::vector<int> val(p.n() + 1, -1);
        bool odd = false;
        for (auto &l : x.s.out.model) { if (l.var < 1 || l.var > p.n() || val[l.var] != -1) odd = true; else val[l.var] = l.val; }
        str w;
        if (odd) w = "printed model is malformed";
        for (auto &l : x.t.finalTrue) if (w.empty() && val[l.var] != l.val) w = fmt("replay ends with %d=%d, the printed model says %d", l.var, l.val, val[l.var]);
        std::vector<int> set(p.n() + 1, 0);
        for (auto &l : x.t.finalTrue) set[l.var] = 1;
        if (g.heur != "-lazy") for (int v = 1; v <= p.n(); v++) if (w.empty() && !set[v] && val[v] != -1 && p.dom[v] > 1) w = fmt("printed model gives %d=%d, which the replay never assigned", v, val[v]);
        c.add("final-models-compared");
        if (!w.empty()) { c.violation("final-model", g.name() + ": " + w, bundle(p, x.s)); return; }
      }
    }
  });
}

void C08(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    Problem p = searchProblem(r, o);
    for (int j = 0; j < 3; j++) {
      Cfg g = cfgFor(r, bv, p.n() <= 20);
      Traced x = traced(c, p, g, true);
      if (!x.ok) continue;
      if (x.t.n.decisions > 0 && x.t.n.clauseUnits > 0) { c.nontrivial(x.t.shape); c.sample(fmt("%s, %d variables, %zu clauses, %s: %lld states scanned at decisions and at the end, nothing left to propagate", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), x.t.n.bcpChecks)); }
      if (report(c, p, g, x, [](const Anomaly &a) {
            return in(a.kind, {"false-clause-at-decision", "unit-at-decision", "single-value-at-decision", "wiped-at-decision", "sat-with-false-clause"});
          })) return;
    }
  });
}

void C09(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    Problem p = r.chance(70) ? (r.chance(60) ? genMid(r, o) : genStructured(r, o)) : genSmall(r, o);
    for (int j = 0; j < 3; j++) {
      Cfg g = cfgFor(r, bv, false);
      static const int ks[] = {0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 16, 30};
      g.k = ks[r.below(12)];
      static const long long far[] = {100, 200, 255, 257, 300, 1001, 32770, 65537, 65539, 16777217, 2147483647};
      if (r.chance(12)) g.k = far[r.below(11)];
      Traced x = traced(c, p, g, true);
      if (!x.ok) continue;
      auto &so = x.s.out;
      c.add(fmt("threshold:%lld", g.k));
      if (x.t.n.restarts > 0) { c.nontrivial(x.t.shape); c.sample(fmt("%s, %d variables, %zu clauses, %s: %lld backtracks, %lld restarts, reported %lld", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), x.t.n.backtracks, x.t.n.restarts, so.restarts)); }
      if (report(c, p, g, x, [](const Anomaly &a) {
            if (in(a.kind, {"restart-missing", "restart-unexpected"})) return true;
            return a.afterRestart && in(a.kind, {"level", "reassign", "contradict", "unit-at-decision", "false-clause-at-decision", "single-value-at-decision", "reason-not-unit", "reason-unknown-clause", "conflict-not-false", "decision-on-assigned", "learned-not-false", "learned-not-asserting", "conflict-level", "unsat-without-conflict", "sat-with-false-clause"});
          })) return;
      if (so.verdict != V_TIMEOUT && so.hasStats && so.restarts >= 0) {
        long long want = g.k > 0 ? so.backtracks / g.k : 0;
        // a log without level information at the restart (no assignment in between) leaves the count as the only witness
        if (so.restarts != want) { c.violation("restart-count", g.name() + fmt(": %lld backtracks and %lld restarts, expected %lld", so.backtracks, so.restarts, want), bundle(p, x.s)); return; }
        c.add("counts-compared");
      }
      if (g.k > 0 && r.chance(25)) {
        Cfg h = g; h.restartOpt = "-restarts";
        SolveRun s1 = solveProblem(c, p, g, 200000), s2 = solveProblem(c, p, h, 200000);
        if (s1.good && s2.good && s1.out.canonical() != s2.out.canonical()) {
          auto f = bundle(p, s2);
          f["with-restart.txt"] = s1.res.out;
          c.violation("restarts-spelling", g.name() + ": -restarts and -restart give different runs", f);
          return;
        }
        c.add("spellings-compared");
      }
    }
  });
}

void C11(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    bool lng = r.below(300) == 0;
    bool lngChrono = lng && !bv && r.chance(50);
    Problem p = lng ? genLongRun(r, lngChrono) : searchProblem(r, o);
    for (int j = 0; j < (lng ? 1 : 2); j++) {
      Cfg g = cfgFor(r, bv, p.n() <= 20);
      if (lng) {
        g.mode = lngChrono ? M_CHRONO : g.mode == M_CHRONO ? M_NC : g.mode;
        if (lngChrono) { if (g.heur != "-lazy") g.heur.clear(); g.k = 0; }
        else if (!bv && g.heur == "-lazy" && r.chance(50)) g.heur.clear();
        if (!lngChrono) g.k = r.range(1, 3);
      }
      bool timed = !lng && r.chance(20);
      RunReq q;
      std::vector<str> extra;
      if (timed) { q.jumpAt = r.range(4, 40); q.jumpUsec = 100000000LL; extra = {"-time", "10"}; }
      Cfg gv = g; gv.verbose = true;
      const char *prog = bv ? "bv" : "src";
      SolveRun a = solveText(c, prog, writePlain(p), gv, lng ? 3000000 : bv ? 30000 : 200000, extra, q);
      if (!a.good) continue;
      if (lng) { c.add("long-runs"); c.add("long-runs:decisions", a.out.decisions); c.add("long-runs:restarts", a.out.restarts); if (a.out.decisions > 32767) c.add("long-runs:more-than-32767-decisions"); }
      TraceOpt to; to.mode = g.mode; to.restartK = g.k; to.checkBcp = false;
      TraceResult t = bv ? replayBv(p, a.res.out, a.out, to) : replayTrace(p, a.res.out, a.out, to);
      if (bv) c.add("bit-vector-runs");
      if (!t.usable && t.n.unknownLines > 0) { c.add("log-unreadable"); continue; }
      if (!t.bad.empty()) { c.add("log-inconsistent"); }
      SolveRun b = solveText(c, prog, writePlain(p), g, lng ? 3000000 : 200000, extra, q);
      if (!b.good || b.out.verdict != a.out.verdict) continue;
      c.add(timed && a.out.verdict == V_TIMEOUT ? "timed-out-runs" : "finished-runs");
      c.add("config:" + g.name().substr(0, g.name().find('/')));
      c.add("events", t.n.events);
      for (int k = 0; k < 2; k++) {
        SolveOut &so = k ? b.out : a.out;
        SolveRun &sr = k ? b : a;
        str w;
        auto cmp = [&](const char *name, long long got, long long want) {
          c.add("counters-compared");
          if (w.empty() && got != want) w = fmt("%s reported as %lld, the run had %lld", name, got, want);
        };
        if (!so.hasStats) w = "no statistics printed";
        cmp("Variables", so.vars, p.n());
        cmp("Clauses", so.clauses, (long long)p.cls.size() + t.n.learned);
        if (t.bad.empty()) {
          cmp("Decisions", so.decisions, t.n.decisions);
          cmp("Units", so.units, t.n.clauseUnits);
          cmp("Entails", so.entails, t.n.entails);
          cmp("Backtracks", so.backtracks, t.n.backtracks);
          cmp("Restarts", so.restarts, g.mode == M_CHRONO ? 0 : t.n.restarts);
        }
        if (!w.empty()) { c.violation("statistic", g.name() + ": " + w, bundle(p, sr)); return; }
      }
      if (t.n.events > 2) { c.nontrivial(t.shape); c.sample(fmt("%s, %s: %s; log of %lld events agrees", p.kind.c_str(), g.name().c_str(), a.out.stats().c_str(), t.n.events)); }
    }
  });
}

void C30(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    Problem p = searchProblem(r, o);
    for (int j = 0; j < 3; j++) {
      Cfg g = cfgFor(r, bv, p.n() <= 20);
      str h = g.heur == "-vsids" ? "vsids" : g.heur == "-vsids_pos" ? "vsids_pos" : g.heur == "-lazy" || bv ? "lazy" : g.mode == M_WL ? "vsids" : "bk";
      Traced x = traced(c, p, g, false, h);
      if (!x.ok) continue;
      c.add("decisions-judged:" + h, x.t.n.scored);
      if (x.t.n.learned > 0) c.add("runs-with-learning:" + h);
      if (x.t.n.scored > 1) { c.nontrivial(x.t.shape); c.sample(fmt("%s, %d variables, %zu clauses, %s: %lld decisions, each with the best %s score (%lld clauses learned, %lld restarts)", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), x.t.n.scored, h.c_str(), x.t.n.learned, x.t.n.restarts)); }
      if (report(c, p, g, x, [](const Anomaly &a) { return a.kind == "heuristic"; })) return;
    }
  });
}

void C31(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = srcOpt();
    bool bv = bvCase(o, i);
    Problem p = searchProblem(r, o);
    for (int j = 0; j < 3; j++) {
      Cfg g = cfgFor(r, bv, false);
      Traced x = traced(c, p, g, false);
      if (!x.ok) continue;
      if (x.t.n.steps > 0) { c.nontrivial(x.t.shape); c.sample(fmt("%s, %d variables, %zu clauses, %s: %lld conflict analyses, %lld resolution steps, the longest %lld", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), x.t.n.chains, x.t.n.steps, x.t.n.longestChain)); }
      if (report(c, p, g, x, [](const Anomaly &a) { return !strncmp(a.kind.c_str(), "chain", 5); })) return;
    }
  });
}
