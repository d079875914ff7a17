// C01-C04: answers of the solver (src/).
#include "props.h"
#include "xform.h"

static GenOpt srcOpt() { GenOpt o; o.maxDom = 300; return o; }

static void countCfg(Ctx &c, const Cfg &g, const Problem &p) {
  c.add("config:" + g.name().substr(0, g.name().find('/')));
  c.add("problem:" + p.kind);
}

void C01(Ctx &c) {
  GenOpt o = srcOpt();
  c.forCases([&](Rng &r, long long i) {
    Problem p = r.below(400) == 0 ? genHuge(r, o) : r.below(100) == 0 ? genDeepCore(r, r.range(130, 400)) : r.below(100) == 0 ? genSpecial(r, o) : r.chance(35) ? genPlanted(r, o, 3, r.chance(80) ? 18 : 40) : genAny(r, o);
    std::vector<Cfg> cf;
    if (i % 6 == 0 && p.kind != "huge" && p.kind != "many-variables") { cf = allCfgs(); for (auto &g : cf) if (g.mode != M_CHRONO && r.chance(40)) g.k = r.range(1, 6); }
    else for (int j = 0; j < 3; j++) cf.push_back(rndCfg(r, p.n() <= 22));
    for (auto &g : cf) {
      if (g.mode == M_CHRONO && p.n() > 30 && p.kind != "chain") continue;
      SolveRun s = solveProblem(c, p, g);
      countCfg(c, g, p);
      if (s.good && s.out.verdict != V_SAT) {
        c.add("answers-without-model");
        if (s.out.hasModel || s.out.verifyLines) { c.violation("model-without-sat", g.name() + ": " + verdictName(s.out.verdict) + " with a model", bundle(p, s)); return; }
      }
      if (!s.good || s.out.verdict != V_SAT) continue;
      c.add("models-checked");
      c.add("values-checked", (long long)s.out.model.size());
      str w = checkModel(p, s.out);
      if (p.n() >= 2 && !p.cls.empty()) c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name())));
      c.sample(fmt("%s, %d variables, %zu clauses, %s: SAT, model of %zu values satisfies all clauses", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), s.out.model.size()));
      if (!w.empty()) { c.violation("bad-model", g.name() + ": " + w, bundle(p, s)); return; }
    }
  });
}

void C02(Ctx &c) {
  GenOpt o = srcOpt();
  c.forCases([&](Rng &r, long long i) {
    Problem p;
    int w = r.below(10);
    std::vector<int> wit;
    if (w < 4) p = genPlanted(r, o, 3, r.chance(75) ? 16 : 36);
    else if (w < 8) { int t = 0; Truth tr; do { p = genSmall(r, o); tr = truthOf(p); } while (tr.sat != 1 && ++t < 12); if (tr.sat != 1) { c.add("skipped-unsat"); return; } wit = tr.models[0]; }
    else if (r.below(60) == 0) p = genHuge(r, o);
    else if (r.below(40) == 0) { p = genSpecial(r, o); if (p.planted.empty()) { c.add("skipped-unsat"); return; } }
    else if (r.below(20) == 0) { p = genDeepCore(r, r.range(130, 400)); if (p.planted.empty()) { c.add("skipped-unsat"); return; } }
    else if (w < 9) { p = genStructured(r, o); Truth tr = truthOf(p); if (tr.sat != 1) { c.add("skipped-unsat"); return; } }
    else p = r.chance(50) ? genLargeDomain(r, o) : genLong(r, o);
    if (wit.empty()) {
      if (!p.planted.empty()) wit = p.planted;
      else if (decide(p, 60000, &wit) != 1) { c.add("skipped-unknown"); return; }
    }
    if (!isModel(p, wit)) { c.add("skipped-no-witness"); return; }
    std::vector<Cfg> cf;
    if (i % 3 == 0 && p.kind != "huge" && p.kind != "many-variables") { cf = allCfgs(); for (auto &g : cf) if (g.mode != M_CHRONO && r.chance(50)) g.k = r.range(1, 8); }
    else for (int j = 0; j < 4; j++) cf.push_back(rndCfg(r, p.n() <= 22));
    for (auto &g : cf) {
      if (g.mode == M_CHRONO && p.n() > 24 && p.kind != "chain") continue;
      RunReq q;
      std::vector<str> extra;
      bool limited = r.chance(15);
      if (limited) { q.jumpAt = r.range(1, 60); q.jumpUsec = 1000000LL * r.range(1, 100); extra = {"-time", std::to_string(r.range(0, 60))}; }
      SolveRun s = solveText(c, "src", writePlain(p), g, 3000000, extra, q);
      countCfg(c, g, p);
      if (!s.good) continue;
      if (p.n() >= 2 && !p.cls.empty()) c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name())));
      if (s.out.backtracks > 0) c.add("runs-with-backtracks");
      c.add("backtracks-seen", std::max(0LL, s.out.backtracks));
      c.sample(fmt("%s, %d variables, %zu clauses, model known, %s: %s after %lld backtracks", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), verdictName(s.out.verdict), s.out.backtracks));
      if (s.out.verdict == V_UNSAT) {
        str m;
        for (int v = 1; v <= p.n(); v++) m += fmt("%d=%d\n", v, wit[v]);
        auto f = bundle(p, s);
        f["model-of-the-problem.txt"] = m;
        c.violation("unsat-on-satisfiable", g.name() + ": UNSAT, but the problem has a model", f);
        return;
      }
    }
  });
}

void C03(Ctx &c) {
  GenOpt o = srcOpt();
  c.forCases([&](Rng &r, long long i) {
    Problem p;
    bool small = false;
    int w = r.below(100);
    if (w < 45) { p = genSmall(r, o); small = true; }
    else if (w < 60) p = genStructured(r, o);
    else if (w < 72) p = genMid(r, o);
    else if (w < 84) p = genPlanted(r, o, 4, 24);
    else if (w < 90) p = genLargeDomain(r, o);
    else if (w < 95) p = genLong(r, o);
    else if (w < 97) p = genChain(r, o, r.range(20, 300));
    else if (w < 99) p = genSpecial(r, o);
    else if (r.chance(5)) p = genHuge(r, o);
    else if (r.chance(40)) p = genDeepCore(r, r.range(130, 600));
    else if (r.chance(60)) p = genDeep(r, o, r.chance(70) ? r.range(300, 1500) : r.range(1500, 4000));
    else p = genChain(r, o, i % 2 ? 1500 : 400);
    bool longOne = p.kind == "chain" || p.kind == "deep", vast = p.kind == "huge" || p.kind == "many-variables" || p.kind == "wide-clauses";
    std::vector<Cfg> cf;
    if (i % 4 == 0 && !vast) { cf = allCfgs(); for (auto &g : cf) if (g.mode != M_CHRONO && r.chance(60)) g.k = r.range(1, 6); }
    else for (int j = 0; j < 3; j++) cf.push_back(rndCfg(r, p.n() <= 22 || longOne));
    for (auto &g : cf) {
      if (g.mode == M_CHRONO && p.n() > 26 && !longOne) continue;
      long long lim = small ? 400000 : 4000000;
      RunReq pass;
      // no limit is given, so time may pass: up to 990 hours of the default 1000
      if (r.chance(30)) { pass.jumpAt = r.range(1, 200); pass.jumpUsec = 1000000LL * r.range(3600, 990 * 3600); c.add("runs-with-time-passing"); }
      // a deep search is also watched in a build without optimisation, whose stack frames are larger
      str variant = p.kind == "deep" && r.chance(60) ? "src_O0" : "src";
      if (variant != "src") c.add("runs-without-optimisation");
      SolveRun s = solveText(c, variant, writePlain(p), g, lim, {}, pass);
      countCfg(c, g, p);
      c.maxi("most-search-steps", s.res.reads);
      c.maxi("longest-run-cpu-us", s.res.cpuUsec);
      c.add("search-steps", s.res.reads);
      if (s.res.serverDied) continue;
      if (s.out.backtracks > 0) c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name())));
      c.sample(fmt("%s, %d variables, %zu clauses, %s: %s after %lld clock reads", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), verdictName(s.out.verdict), s.res.reads));
      str kind, what;
      if (s.res.stepLimitHit) { kind = "no-end"; what = s.res.describe(); }
      else if (s.res.cpuKilled() || s.res.wallKilled()) {
        // make sure: once more, with a larger budget
        RunReq q; q.cpuSec = c.violations.empty() && c.foundAt == 0 ? (small ? 40 : 60) : 12;
        SolveRun t = solveText(c, variant, writePlain(p), g, lim, {}, q);
        if (t.res.cpuKilled() || t.res.wallKilled() || t.res.stepLimitHit) {
          if (small || t.res.reads < (vast ? 100 : 3000)) { kind = "no-end"; what = t.res.describe() + fmt(" after %lld search steps", t.res.reads); s = t; }
          else c.add("undecided-too-slow");
        }
      } else if (!s.res.ok0()) { kind = "crash"; what = s.res.describe(); }
      else if (s.out.verdict == V_TIMEOUT) { kind = "timeout"; what = "TIMEOUT although no limit was given"; }
      else if (s.out.verdict == V_NONE) { kind = "no-verdict"; what = "no SAT or UNSAT line"; }
      else if (s.out.verdict == V_MANY) { kind = "several-verdicts"; what = "contradictory verdict lines"; }
      else if (s.out.verdictLines != 1) { kind = "several-verdicts"; what = fmt("%d verdict lines", s.out.verdictLines); }
      if (!kind.empty()) { c.violation(kind, g.name() + ": " + what, bundle(p, s)); return; }
    }
  });
}

void C04(Ctx &c) {
  GenOpt o = srcOpt();
  c.forCases([&](Rng &r, long long i) {
    Problem p;
    int w = r.below(10);
    if (w < 4) p = genMid(r, o);
    else if (w < 6) p = genStructured(r, o);
    else if (w < 9) p = genSmall(r, o);
    else p = genPlanted(r, o, 6, 20);
    std::vector<Cfg> cf;
    int m = r.below(3);
    if (m == 0) { cf = allCfgs(); for (auto &g : cf) if (g.mode != M_CHRONO && r.chance(50)) g.k = r.range(1, 10); }
    else { for (int j = 0; j < 2; j++) cf.push_back(rndCfg(r, p.n() <= 20)); }
    if (r.chance(60)) cf.push_back(rndBvCfg(r));
    int nx = m == 0 ? 1 : 4;
    std::vector<std::pair<Problem, str>> forms;
    forms.push_back({p, "as generated"});
    for (int j = 0; j < nx; j++) { str what; Problem q = xform(r, p, what); forms.push_back({q, what}); }
    int first = -1;
    str firstDesc;
    SolveRun fs; Problem fp;
    for (auto &f : forms)
      for (auto &g : cf) {
        if (g.mode == M_CHRONO && f.first.n() > 26) continue;
        if (g.bitvec && *std::max_element(f.first.dom.begin(), f.first.dom.end()) > 64) continue;
        SolveRun s = solveProblem(c, f.first, g);
        countCfg(c, g, f.first);
        if (!s.good || s.out.verdict == V_TIMEOUT) continue;
        c.add("answers-compared");
        if (s.out.backtracks > 0) c.nontrivial(mix64(hashProblem(f.first) ^ hashStr(g.name())));
        str d = g.name() + " on the problem " + f.second + ": " + verdictName(s.out.verdict);
        if (first < 0) { first = s.out.verdict; firstDesc = d; fs = s; fp = f.first; }
        else if (s.out.verdict != first) {
          auto b = bundle(fp, fs);
          auto b2 = bundle(f.first, s);
          for (auto &x : b2) b["other_" + x.first] = x.second;
          c.violation("answers-differ", firstDesc + "; " + d, b);
          return;
        }
        c.sample(d + "; " + firstDesc);
      }
    for (auto &f : forms) c.add("transformation:" + f.second);
    (void)i;
  });
}
