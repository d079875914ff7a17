// C24-C26: the bit-vector solver.
#include "props.h"

namespace {
GenOpt bvOpt() { GenOpt o; o.maxDom = 64; return o; }
Problem bvProblem(Rng &r, bool &small) {
  GenOpt o = bvOpt();
  int w = r.below(100);
  small = false;
  if (w < 45) { small = true; return genSmall(r, o); }
  if (w < 60) return genStructured(r, o);
  if (w < 75) return genMid(r, o);
  if (w < 86) return genPlanted(r, o, 4, 24);
  if (w < 92) return genLargeDomain(r, o);
  if (w < 96) return genLong(r, o);
  return genChain(r, o, r.range(20, 300));
}
void countCfg(Ctx &c, const Cfg &g, const Problem &p) {
  c.add("heuristic:" + (g.heur.empty() ? str("lazy") : g.heur.substr(1)));
  if (g.k) c.add("runs-with-restart-option");
  c.add("problem:" + p.kind);
}
std::vector<Cfg> bvCfgs(Rng &r) {
  std::vector<Cfg> v;
  for (auto h : {"", "-vsids"}) for (long long k : {0LL, 1LL, (long long)r.range(2, 12)}) { Cfg g; g.bitvec = true; g.mode = M_WL; g.heur = h; g.k = k; v.push_back(g); }
  return v;
}

typedef std::vector<std::pair<int, u64>> SetCls;
std::vector<SetCls> learnedOf(const str &out, long long &unread) {
  std::vector<SetCls> res;
  size_t i = 0;
  static const str key = "Learned a clause:";
  while ((i = out.find(key, i)) != str::npos) {
    size_t e = out.find('\n', i);
    SetCls c;
    bool ok = e != str::npos;
    i += key.size();
    while (ok) {
      size_t b = e + 1;
      e = out.find('\n', b);
      if (e == str::npos) { ok = false; break; }
      str l = out.substr(b, e - b);
      if (l.find_first_not_of(" \t") == str::npos) break;
      int v; char bits[80];
      if (sscanf(l.c_str(), " %d=%70s", &v, bits) != 2 || strspn(bits, "01") != strlen(bits) || strlen(bits) > 64) { ok = false; break; }
      u64 s = 0;
      for (char *q = bits; *q; q++) s = s * 2 + (*q == '1');
      c.push_back({v, s});
    }
    if (ok) res.push_back(c); else unread++;
  }
  return res;
}
bool setTrue(const SetCls &c, const std::vector<int> &a) {
  for (auto &l : c) if (l.first >= 1 && l.first < (int)a.size() && (l.second >> a[l.first] & 1)) return true;
  return false;
}
str setStr(const SetCls &c) {
  str s;
  for (auto &l : c) s += fmt("%d in {%s} ", l.first, [&] { str t; for (int d = 0; d < 64; d++) if (l.second >> d & 1) t += (t.empty() ? "" : ",") + std::to_string(d); return t; }().c_str());
  return s.empty() ? "(empty)" : s;
}
}

void C24(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    GenOpt o = bvOpt();
    Problem p;
    int w = r.below(100);
    if (w < 45) p = genSmall(r, o);
    else if (w < 70) p = genPlanted(r, o, 4, 30);
    else if (w < 80) p = genStructured(r, o);
    else if (w < 86) p = genLargeDomain(r, o);
    else if (w < 90) p = genLong(r, o);
    else if (w < 95) p = genMid(r, o);
    else if (r.below(12) == 0) p = genHuge(r, o);
    else if (r.below(6) == 0) p = genDeepCore(r, r.range(130, 400));
    else if (r.below(4) == 0) p = genSpecial(r, o);
    else p = genChain(r, o, r.range(20, 200));
    std::vector<Cfg> cf;
    if (i % 3 == 0 && p.kind != "huge" && p.kind != "many-variables") cf = bvCfgs(r); else for (int j = 0; j < 3; j++) cf.push_back(rndBvCfg(r));
    str text = r.chance(30) ? writeLayout(r, p, r.chance(50)) : writePlain(p);
    for (auto &g : cf) {
      g.verbose = r.chance(15);
      SolveRun s = solveText(c, "bv", text, g, g.verbose ? 30000 : 1000000);
      countCfg(c, g, p);
      if (s.good && s.out.verdict != V_SAT) {
        c.add("answers-without-model");
        if (s.out.hasModel || s.out.verifyLines) { c.violation("model-without-sat", g.name() + ": " + verdictName(s.out.verdict) + " with a model", bundle(p, s, text)); return; }
      }
      if (!s.good || s.out.verdict != V_SAT) continue;
      if (p.n() >= 2 && !p.cls.empty()) c.nontrivial(mix64(hashStr(text) ^ hashStr(g.name())));
      long long open = 0;
      for (auto &b : s.out.bvModel) if (b.first > 0 && (b.second & (b.second - 1))) open++;
      c.add("value-sets-checked", (long long)s.out.bvModel.size());
      c.add("value-sets-of-several-values", open);
      if (s.out.backtracks > 0) c.add("models-after-backtracks");
      if (s.out.restarts > 0) c.add("models-after-restarts");
      c.sample(fmt("%s, %d variables, %zu clauses, %s: model with %lld sets of several values, satisfies every clause", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), open));
      str e = checkBvModel(p, s.out);
      if (!e.empty()) { c.violation("bad-model", g.name() + ": " + e, bundle(p, s, text)); return; }
      if (s.out.verified != 1 || s.out.verifyLines != 1) { c.violation("not-verified", g.name() + ": the solver's own check says " + (s.out.verified == 0 ? "INCORRECT" : s.out.verified == 1 ? "CORRECT more than once" : "nothing"), bundle(p, s, text)); return; }
    }
  });
}

void C25(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    bool small;
    Problem p = bvProblem(r, small);
    if (r.chance(35)) { GenOpt o = bvOpt(); p = genMid(r, o); }
    else if (r.below(400) == 0) { GenOpt o = bvOpt(); p = genHuge(r, o); }
    else if (r.below(60) == 0) p = genDeepCore(r, r.range(130, 400));
    else if (r.below(20) == 0) p = genSpecial(r, bvOpt());
    Truth t = truthOf(p, 8000, 30000);
    std::vector<int> wit;
    if (t.enumerated && !t.models.empty()) wit = t.models[0];
    else if (!p.planted.empty() && isModel(p, p.planted)) wit = p.planted;
    else if (t.sat == 1) decide(p, 60000, &wit);
    c.add(t.sat == 1 ? "satisfiable-problems" : t.sat == 0 ? "unsatisfiable-problems" : "problems-of-unknown-status");
    std::vector<Cfg> cf;
    if (i % 4 == 0) cf = bvCfgs(r); else for (int j = 0; j < 3; j++) cf.push_back(rndBvCfg(r));
    for (auto &g : cf) {
      g.verbose = r.chance(60) && p.kind != "huge" && p.kind != "many-variables";
      RunReq q;
      std::vector<str> extra;
      if (r.chance(15)) { extra = {"-time", std::to_string(r.range(0, 50))}; q.stepUsec = r.range(1000, 400000); }
      SolveRun s = solveText(c, "bv", writePlain(p), g, g.verbose ? 4000 : 1000000, extra, q);
      countCfg(c, g, p);
      if (s.res.serverDied) continue;
      if (s.good && s.out.verdict == V_UNSAT && !wit.empty()) {
        str m;
        for (int v = 1; v <= p.n(); v++) m += fmt("%d=%d\n", v, wit[v]);
        auto f = bundle(p, s);
        f["model-of-the-problem.txt"] = m;
        c.violation("unsat-on-satisfiable", g.name() + ": UNSAT, but the problem has a model", f);
        return;
      }
      if (s.good && p.n() >= 2 && s.out.backtracks > 0) c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name())));
      if (s.good && wit.size()) c.add("answers-on-satisfiable-problems");
      if (!g.verbose) continue;
      long long unread = 0, undecided = 0;
      auto ls = learnedOf(s.res.out, unread);
      c.add("learned-clauses-seen", (long long)ls.size());
      if (unread) c.add("learned-clauses-unreadable", unread);
      int budget = 150;
      for (auto &k : ls) {
        bool decided = true;
        const std::vector<int> *cm = nullptr;
        std::vector<int> m;
        if (t.enumerated) { for (auto &a : t.models) if (!setTrue(k, a)) { cm = &a; break; } }
        else {
          if (!wit.empty() && !setTrue(k, wit)) cm = &wit;
          else if (t.sat == 0) ;
          else if (--budget < 0) decided = false;
          else {
            Cls neg;
            bool bad = false;
            for (auto &l : k) for (int d = 0; d < 64; d++) if (l.second >> d & 1) { if (l.first < 1 || l.first > p.n() || d >= p.dom[l.first]) bad = true; else neg.push_back({l.first, d, true}); }
            if (bad) { decided = false; }
            else {
              int e = decide(p, 300, &m, &neg);
              if (e < 0) decided = false;
              else if (e == 1) cm = &m;
            }
          }
        }
        if (!decided) { undecided++; continue; }
        c.add("learned-clauses-checked");
        if (cm) {
          if (!isModel(p, *cm)) { c.add("oracle-model-rejected"); continue; }
          str ms;
          for (int v = 1; v <= p.n(); v++) ms += fmt("%d=%d\n", v, (*cm)[v]);
          auto f = bundle(p, s);
          f["model-of-the-problem.txt"] = ms;
          c.violation("learned-not-entailed", g.name() + ": the learned clause " + setStr(k).substr(0, 300) + " is false in a model of the problem", f);
          return;
        }
      }
      if (undecided) c.add("learned-clauses-undecided", undecided);
      if (!ls.empty()) c.sample(fmt("%s, %d variables, %s: %zu learned clauses follow from the problem", p.kind.c_str(), p.n(), g.name().c_str(), ls.size()));
    }
  });
}

void C26(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    if (i % 20 == 19) {                    // a domain the solver cannot represent
      GenOpt o; o.maxDom = 64;
      Problem p = genAny(r, o);
      int v = r.range(1, p.n());
      p.dom[v] = r.chance(40) ? 65 : r.range(65, r.chance(50) ? 130 : 3000);
      if (r.chance(50)) p.cls.push_back({{v, r.range(60, p.dom[v] - 1), r.chance(50)}});
      Cfg g = rndBvCfg(r);
      SolveRun s = solveText(c, "bv", writePlain(p), g);
      if (s.res.serverDied) return;
      c.add("too-large-domains");
      c.nontrivial(hashProblem(p));
      if (s.out.verdict != V_NONE) { c.violation("too-large-domain-answered", g.name() + fmt(": variable %d has %d values: %s", v, p.dom[v], verdictName(s.out.verdict)), bundle(p, s)); return; }
      if (!s.res.exited() || s.res.code() == 0) { c.violation("too-large-domain-not-refused", g.name() + fmt(": variable %d has %d values: %s", v, p.dom[v], s.res.describe().c_str()), bundle(p, s)); return; }
      str all = s.res.out + s.res.err;
      for (auto &ch : all) ch = tolower((unsigned char)ch);
      if (all.find("error") == str::npos && all.find("domain") == str::npos) { c.violation("too-large-domain-not-reported", g.name() + fmt(": variable %d has %d values and nothing is said about it", v, p.dom[v]), bundle(p, s)); return; }
      return;
    }
    bool small;
    Problem p = bvProblem(r, small);
    if (r.below(50) == 0) { p = genDeepCore(r, r.range(130, 400)); small = false; }
    else if (r.below(1000) == 0) { p = genHuge(r, bvOpt()); small = false; }
    else if (r.below(30) == 0) { p = genSpecial(r, bvOpt()); small = false; }
    bool vast = p.kind == "huge" || p.kind == "many-variables" || p.kind == "wide-clauses";
    std::vector<Cfg> cf;
    if (i % 4 == 0 && !vast) cf = bvCfgs(r); else for (int j = 0; j < 3; j++) cf.push_back(rndBvCfg(r));
    for (auto &g : cf) {
      if (g.k && r.chance(30)) g.restartOpt = "-restarts";
      long long lim = small ? 400000 : 4000000;
      SolveRun s = solveProblem(c, p, g, lim);
      countCfg(c, g, p);
      c.maxi("most-search-steps", s.res.reads);
      c.add("search-steps", s.res.reads);
      if (s.res.serverDied) continue;
      if (s.out.backtracks > 0) { c.add("runs-with-backtracks"); c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name()))); }
      if (s.out.restarts > 0) { c.add("runs-with-restarts"); c.add("restarts-seen", s.out.restarts); }
      str kind, what;
      if (s.res.stepLimitHit) { kind = "no-end"; what = s.res.describe(); }
      else if (s.res.cpuKilled() || s.res.wallKilled()) {
        RunReq q; q.cpuSec = c.violations.empty() && c.foundAt == 0 ? (small ? 40 : 60) : 12;
        SolveRun t = solveText(c, "bv", writePlain(p), g, lim, {}, q);
        if (t.res.cpuKilled() || t.res.wallKilled() || t.res.stepLimitHit) {
          if (small || t.res.reads < (vast ? 100 : 3000)) { kind = "no-end"; what = t.res.describe() + fmt(" after %lld search steps", t.res.reads); s = t; }
          else c.add("undecided-too-slow");
        }
      } else if (!s.res.ok0()) { kind = "crash"; what = s.res.describe(); }
      else if (s.out.verdict == V_TIMEOUT) { kind = "timeout"; what = "TIMEOUT although no time passed"; }
      else if (s.out.verdict == V_NONE) { kind = "no-verdict"; what = "no SAT or UNSAT line"; }
      else if (s.out.verdict == V_MANY) { kind = "several-verdicts"; what = "contradictory verdict lines"; }
      else if (!s.out.hasStats || s.out.restarts < 0 || s.out.backtracks < 0) c.add("no-statistics");
      else {
        long long want = g.k > 0 ? s.out.backtracks / g.k : 0;
        c.add("restart-counts-checked");
        if (s.out.restarts != want) { kind = "restarts"; what = fmt("%lld restarts after %lld backtracks with threshold %lld", s.out.restarts, s.out.backtracks, g.k); }
      }
      if (!kind.empty()) { c.violation(kind, g.name() + ": " + what, bundle(p, s)); return; }
      c.sample(fmt("%s, %d variables, %zu clauses, %s: %s after %lld clock reads, %lld backtracks, %lld restarts", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), verdictName(s.out.verdict), s.res.reads, s.out.backtracks, s.out.restarts));
    }
  });
}
