// C10 (time limit, under a virtual clock), C12 (the solver's own model check), C13 (the file is what is solved).
#include "props.h"
#include <csignal>
#include <cmath>
#include <set>

static GenOpt srcOpt() { GenOpt o; o.maxDom = 300; return o; }
static GenOpt bvOpt() { GenOpt o; o.maxDom = 64; return o; }

// "p.mv \t0.0000\t0.0000\t 0.0000\t": the second time is the solving time
static bool solvingTime(const str &out, double &t) {
  size_t q = out.find("p.mv \t");
  if (q == str::npos) return false;
  double a, b, s;
  // verbose text may stand between the two groups; only quiet runs are parsed
  return sscanf(out.c_str() + q + 5, " %lf %lf %lf", &a, &s, &b) == 3 ? (t = s, true) : false;
}

// decisions, flipped decisions and backtracks the log reports from a byte on
static long long searchEvents(const str &log, size_t from) {
  long long n = 0;
  for (auto w : {"\nDecision: ", "\n# of backtracks so far", "\nConflict: Propagating "})
    for (size_t q = from; (q = log.find(w, q)) != str::npos; q += 5) n++;
  return n;
}

void C10(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    bool bv = r.chance(30);
    GenOpt o = bv ? bvOpt() : srcOpt();
    Problem p;
    Cfg g;
    str text, variant = bv ? "bv" : "src";
    SolveRun ref;
    // what the run does when no time passes; mostly runs long enough to be interrupted
    bool longRun = r.chance(80);
    for (int t = 0; t < 5; t++) {
      int w = r.below(10);
      if (w < 6) p = genMid(r, o);
      else if (w < 8) p = genStructured(r, o);
      else if (w < 9) p = genChain(r, o, r.range(20, 200));
      else p = longRun ? genPlanted(r, o, 10, 24) : genSmall(r, o);
      if (i % 40 == 7) p = r.chance(50) ? genDeepCore(r, r.range(130, 300)) : r.chance(30) ? genLongRun(r, !bv && r.chance(50)) : genDeep(r, o, r.range(200, 900));
      g = bv ? rndBvCfg(r) : rndCfg(r, p.n() <= 20 || p.kind == "chain");
      text = writePlain(p);
      ref = solveText(c, variant, text, g, 400000);
      if (!longRun || !ref.good || ref.res.reads >= 60) break;
    }
    if (!ref.good) return;
    if (ref.out.verdict == V_TIMEOUT) { c.violation("timeout-without-time", g.name() + ": TIMEOUT although no time passed", bundle(p, ref)); return; }
    long long R = ref.res.reads, work = std::max(0LL, ref.out.decisions) + std::max(0LL, ref.out.backtracks);
    c.maxi("most-clock-reads", R);
    int truth = ref.out.verdict;
    for (int j = 0; j < 4; j++) {
      static const int Ls[] = {0, 1, 1, 2, 5, 10, 60, 600, 3600, 7200, 100000, 65537, 1000000, 40000000, 2147483647};
      long long L = Ls[r.below(r.chance(20) ? 15 : 11)];
      RunReq q;
      std::vector<str> extra;
      int kind = r.below(4);
      bool defaultLimit = false;
      // without -time: 1000 hours, the bit-vector solver one hour
      if (r.chance(12)) { defaultLimit = true; L = bv ? 3600 : 3600000; c.add("default-limit-runs"); } else extra = {"-time", std::to_string(L)};
      long long Lus = std::min(L, 100000000LL) * 1000000;
      if (L > 100000000) kind = 0;           // three years are enough for a clock
      str what;
      if (kind == 0) {                       // time passes, but less than the limit in total
        if (L == 0) { q.stepUsec = 0; what = "no time passes, limit 0"; }
        else { q.stepUsec = (long long)(Lus * (0.3 + 0.68 * r.unit()) / (R + 6)); what = fmt("%lld us pass per look at the clock, %.1f%% of the limit in all", q.stepUsec, 100.0 * q.stepUsec * R / Lus); }
        SolveRun s = solveText(c, variant, text, g, 500000, extra, q);
        if (!s.good) continue;
        c.add("runs-within-the-limit");
        if (R >= 10) c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name()) ^ (u64)q.stepUsec));
        if (s.out.verdict != truth) {
          c.violation(s.out.verdict == V_TIMEOUT ? "timeout-too-early" : "answer-changed", g.name() + fmt(": %slimit %lld s, %s: %s instead of %s", defaultLimit ? "default " : "", L, what.c_str(), verdictName(s.out.verdict), verdictName(truth)), bundle(p, s));
          return;
        }
        continue;
      }
      if (kind == 1 || kind == 2) {          // the limit passes in the middle, evenly spaced looks at the clock
        if (R < 40) { c.add("skipped-too-short"); continue; }
        long long at = r.range(5, (int)std::min(R / 2, 4000LL));
        q.stepUsec = std::max(1LL, (Lus + at) / at);
        what = fmt("%lld us pass per look at the clock", q.stepUsec);
      } else {                               // one jump
        if (R < 40) { c.add("skipped-too-short"); continue; }
        q.jumpAt = r.range(12, (int)std::min(R - 10, 20000LL));
        q.jumpUsec = Lus + (r.chance(50) ? 200000 : 1000000LL * r.range(1, 100000));
        what = fmt("the clock jumps by %.1f s at look %lld", q.jumpUsec / 1e6, q.jumpAt);
      }
      // chronological search looks twice at every level it leaves
      long long slack = g.mode == M_CHRONO && !bv ? 4LL * p.n() + 60 : 60;
      long long at = kind == 3 ? q.jumpAt : Lus / q.stepUsec + 12;
      SolveRun s = solveText(c, variant, text, g, 1000000, extra, q);
      if (!s.good) continue;
      c.add("runs-past-the-limit");
      c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name()) ^ (u64)(q.stepUsec + q.jumpAt)));
      str d = g.name() + fmt(": limit %lld s, %s (the run needs %lld looks): %s after %lld looks", L, what.c_str(), R, verdictName(s.out.verdict), s.res.reads);
      c.sample(d);
      if (s.out.verdict == V_TIMEOUT && (s.out.hasModel || s.out.verifyLines)) { c.violation("model-without-sat", d + ", with a model", bundle(p, s)); return; }
      if (s.out.verdict != V_TIMEOUT && s.out.verdict != truth) { c.violation("wrong-answer-at-limit", d + fmt(", correct is %s", verdictName(truth)), bundle(p, s)); return; }
      if (s.res.reads > at + slack) { c.violation("limit-ignored", d, bundle(p, s)); return; }
      double t;
      if (solvingTime(s.res.out, t)) {
        c.add("printed-times-read");
        if (s.out.verdict == V_TIMEOUT && t < L - 0.001) { c.violation("timeout-too-early", d + fmt(", the solving time printed is %.4f s", t), bundle(p, s)); return; }
      }
      long long w2 = std::max(0LL, s.out.decisions) + std::max(0LL, s.out.backtracks);
      // progress made after the limit: no more search events than looks at the clock allow, with a wide margin
      if (s.out.verdict == V_TIMEOUT && w2 > 4 * (at + slack) + 200) { c.violation("limit-ignored", d + fmt(" and %lld decisions and backtracks", w2), bundle(p, s)); return; }
      c.add(s.out.verdict == V_TIMEOUT ? "timeouts" : "answers-at-the-limit");
    }
    // a search of hundreds of steps that never looks at the clock cannot obey a limit
    if (work >= 400 && R < 12) {
      RunReq q; q.stepUsec = 5000000;
      SolveRun s = solveText(c, variant, text, g, 1000000, {"-time", "1"}, q);
      if (s.good && s.out.verdict != V_TIMEOUT) { c.violation("limit-ignored", g.name() + fmt(": %lld decisions and backtracks, %lld looks at the clock", work, R), bundle(p, s)); return; }
    }
    // The limit passes while a given line of the log is printed: however rarely or often the program looks
    // at the clock, only a few decisions and backtracks may follow that line.
    if (work >= 120 && r.chance(work >= 600 ? 90 : 40)) {
      SolveRun v = solveText(c, variant, text, g, 1000000, {"-verbose"});
      if (v.good && v.out.verdict == truth) {
        for (int j = 0; j < 3; j++) {
          RunReq q;
          size_t from = v.res.out.find("Decision: ");
          if (from == str::npos) break;
          q.outAt = (long long)(from + (v.res.out.size() - from) * (0.02 + 0.9 * r.unit() * r.unit()));
          long long L = r.range(1, 5000), left = searchEvents(v.res.out, q.outAt);
          q.jumpUsec = L * 1000000 + r.range(100000, 900000);
          if (left < 90) continue;
          c.maxi("most-steps-left-at-the-limit", left);
          c.add("limits-passed-at-a-log-line");
          if (left >= 300) c.add("limits-passed-with-300-steps-left");
          SolveRun s = solveText(c, variant, text, g, 1000000, {"-verbose", "-time", std::to_string(L)}, q);
          if (!s.good) continue;
          c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name()) ^ (u64)(q.outAt * 13 + q.jumpUsec)));
          str d = g.name() + fmt(": limit %lld s, the clock jumps past it after %lld bytes of the log, %lld decisions and backtracks before the end: %s", L, q.outAt, left, verdictName(s.out.verdict));
          long long after = searchEvents(s.res.out, q.outAt);
          c.maxi("most-steps-after-the-limit", after);
          if (s.out.verdict != V_TIMEOUT && s.out.verdict != truth) { c.violation("wrong-answer-at-limit", d, bundle(p, s)); return; }
          if (after > 60) { c.violation("limit-ignored", d + fmt(", %lld of them after the limit had passed", after), bundle(p, s)); return; }
          if (s.out.verdict == V_TIMEOUT && (s.out.hasModel || s.out.verifyLines)) { c.violation("model-without-sat", d + ", with a model", bundle(p, s)); return; }
        }
      }
    }
    (void)i;
  });
}

// ------------------------------------------------------------------------------------------------ C33

// build, solving and total time as printed; false when the output has another shape
static bool printedTimes(const str &out, double &build, double &solve, double &total) {
  size_t q = out.find("p.mv \t");
  if (q == str::npos || sscanf(out.c_str() + q + 5, " %lf", &build) != 1) return false;
  std::vector<str> lines;
  size_t i = 0, last = 0;
  while (i < out.size()) {
    size_t e = out.find('\n', i);
    if (e == str::npos) e = out.size();
    str l = out.substr(i, e - i);
    i = e + 1;
    while (!l.empty() && l[0] == '\a') l.erase(0, 1);
    if (l == "SAT" || l == "UNSAT" || l == "TIMEOUT") last = lines.size();
    lines.push_back(l);
  }
  while (last > 0 && lines[last - 1].find_first_not_of(" \t\a") == str::npos) last--;
  if (!last) return false;
  str l = lines[last - 1];
  std::vector<str> tok;
  size_t a = 0;
  while ((a = l.find_first_not_of(" \t\a", a)) != str::npos) {
    size_t b = l.find_first_of(" \t\a", a);
    if (b == str::npos) b = l.size();
    tok.push_back(l.substr(a, b - a));
    a = b;
  }
  if (tok.size() < 2) return false;
  char *e1, *e2;
  const str &ts = tok[tok.size() - 2], &tt = tok.back();
  solve = strtod(ts.c_str(), &e1);
  total = strtod(tt.c_str(), &e2);
  return !*e1 && !*e2 && ts.find('.') != str::npos && tt.find('.') != str::npos;
}

void C33(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    bool bv = r.chance(35);
    GenOpt o = bv ? bvOpt() : srcOpt();
    Problem p;
    int w = r.below(10);
    if (w < 5) p = genMid(r, o);
    else if (w < 7) p = genStructured(r, o);
    else if (w < 8) p = genChain(r, o, r.range(20, 100));
    else if (r.chance(40)) p = r.chance(50) ? genPlanted(r, o, 10, 24) : genDeep(r, o, r.range(60, 150));
    else p = genSmall(r, o);
    Cfg g = bv ? rndBvCfg(r) : rndCfg(r, p.n() <= 20 || p.kind == "chain");
    g.verbose = r.chance(25);
    str text = writePlain(p), variant = bv ? "bv" : "src";
    SolveRun ref = solveText(c, variant, text, g, 60000);
    if (!ref.good) return;
    long long R = ref.res.reads;
    double b, s, t;
    for (int j = 0; j < 4; j++) {
      RunReq q;
      // half of the clocks start close to a full second
      q.baseUsec = r.chance(50) ? 999990 + r.below(20) : r.below(1000000);
      q.baseSec = r.pick(std::vector<int>{0, 1, 86399, 1000000000, 1700000000, 2147483000, 2147483647});
      static const long long Us[] = {0, 1, 7, 100, 1000, 9999, 10000, 123457, 999999, 1000000, 1000001, 3600000000LL};
      q.stepUsec = Us[r.below(12)];
      std::vector<str> extra;
      long long L = -1;
      int kind = r.below(5);
      str var = variant;
      if (kind == 4) {                                                          // a slow file
        var += "_fault";
        q.ioUsec = r.pick(std::vector<int>{1, 1000, 77777, 1000000, 60000000});
        q.fault.readFail = q.fault.writeFail = -1;
        q.fault.chunk = std::max(16, (int)text.size() / r.range(1, 40));
      }
      if (kind == 1) q.jumpAt = 2;                                              // while the file is read
      else if (kind == 2 && R >= 20) q.jumpAt = r.range(12, (int)std::min(R - 6, 20000LL));   // while the problem is solved
      if (q.jumpAt) q.jumpUsec = r.pick(std::vector<long long>{1, 10, 100, 5000, 1000000, 60000000, 3599000000LL}) + (r.chance(50) ? r.below(1000000) : 0);
      // a limit far enough away, or one that is passed on the way
      if (kind == 3 && q.stepUsec >= 1000) { L = std::max(1LL, (long long)(R * r.unit() * q.stepUsec / 1e6)); extra = {"-time", std::to_string(L)}; }
      else if (kind == 2 && q.jumpAt && q.jumpUsec > 2000000 && r.chance(40)) { L = r.range(1, (int)std::min(3000LL, q.jumpUsec / 1000000 - 1)); extra = {"-time", std::to_string(L)}; }
      else { L = std::max(100LL, 3 * (q.jumpUsec + q.stepUsec * (R + 20) + 50LL * q.ioUsec) / 1000000); extra = {"-time", std::to_string(L)}; if (L > 2000000000LL) continue; }
      SolveRun x = solveText(c, var, text, g, 200000, extra, q);
      if (!x.good) continue;
      str d = g.name() + fmt(" -time %lld: clock starts at %lld.%06lld, %lld us per look, %lld us at look %lld, %d us per transfer, %lld looks: ", L, q.baseSec, q.baseUsec, q.stepUsec, q.jumpUsec, q.jumpAt, q.ioUsec, x.res.reads);
      if (!printedTimes(x.res.out, b, s, t)) {
        c.add("no-times-read");
        if (!g.verbose) { c.violation("times-not-printed", d + "the three times are not where they belong", bundle(p, x)); return; }
        continue;
      }
      d += fmt("printed %.4f to build, %.4f to solve, %.4f in all", b, s, t);
      c.add("times-read");
      c.add(str("times-read:") + verdictName(x.out.verdict));
      long long n = x.res.reads;
      double step = q.stepUsec / 1e6, jump = q.jumpUsec / 1e6, eps = 0.00025, io = q.ioUsec / 1e6 * x.res.seen.reads;
      double span = io + (n - 1) * step + (q.jumpAt > 1 && q.jumpAt <= n ? jump : 0);   // between the first look and the last
      auto bad = [&](const char *kind, const str &why) { c.violation(kind, d + "; " + why, bundle(p, x)); };
      if (b < 0 || s < 0 || t < 0) { bad("negative-time", "a time is negative"); return; }
      if (std::fabs(b + s - t) > eps) { bad("total-wrong", "the total is not the sum"); return; }
      if (t > span + eps) { bad("more-than-passed", fmt("only %.6f s passed", span)); return; }
      // looks before and after the timed parts: a few
      double least = (n - 12) * step;
      if (io > 0) {
        c.add("slow-files");
        // all transfers but one, which may lie outside (the look for the file, its end)
        if (b < io - q.ioUsec / 1e6 - eps) { bad("building-time-wrong", fmt("reading the file took %.6f s", io)); return; }
        if (s > (n - 1) * step + q.ioUsec / 1e6 + eps) { bad("solving-time-wrong", "that is reading time"); return; }
        least += io - q.ioUsec / 1e6;
      }
      bool inSearch = q.jumpAt >= 12 && (q.jumpAt + 5 < n || (x.out.verdict == V_TIMEOUT && q.jumpAt <= n && q.jumpAt * step < L)), atBuild = q.jumpAt == 2;
      if (inSearch || atBuild) least += jump;
      // chronological search looks at the clock on its way back, too, all of it counts
      if (t < least - eps) { bad("less-than-passed", fmt("at least %.6f s passed", least)); return; }
      if (inSearch && s < jump - eps) { bad("solving-time-wrong", "the clock jumped during the search"); return; }
      if (atBuild && b < jump - eps) { bad("building-time-wrong", "the clock jumped while the file was read"); return; }
      if (n > 24 && s < (n - 20) * step - eps) { bad("solving-time-wrong", fmt("all but a few of the %lld looks belong to the search", n)); return; }
      if (x.out.verdict == V_TIMEOUT && s < L - eps) { bad("timeout-before-limit", "TIMEOUT, and the solving time is below the limit"); return; }
      if (x.out.verdict != V_TIMEOUT && q.stepUsec == 0 && !q.jumpUsec && !q.ioUsec && t > eps) { bad("more-than-passed", "no time passed"); return; }
      if (span > 2 * eps) c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name()) ^ mix64((u64)q.stepUsec * 31 + (u64)q.jumpAt * 7 + (u64)q.jumpUsec)));
      if (inSearch) c.add("jumps-during-search");
      if (atBuild) c.add("jumps-while-reading");
      c.sample(d);
    }
    // the clock jumps while a line of the log is printed and many decisions are still to come
    if (R >= 60 && r.chance(50)) {
      SolveRun v = solveText(c, variant, text, g, 200000, {"-verbose"});
      size_t from = v.good ? v.res.out.find("Decision: ") : str::npos;
      for (int j = 0; j < 2 && from != str::npos; j++) {
        RunReq q;
        q.outAt = (long long)(from + (v.res.out.size() - from) * r.unit());
        if (searchEvents(v.res.out, q.outAt) < 61) continue;
        q.jumpUsec = r.pick(std::vector<long long>{1000, 1000000, 60000000, 3599000000LL}) + r.below(1000000);
        SolveRun x = solveText(c, variant, text, g, 200000, {"-verbose", "-time", "1000000"}, q);
        if (!x.good || x.out.verdict != ref.out.verdict || !printedTimes(x.res.out, b, s, t)) continue;
        c.add("jumps-at-a-log-line");
        str d = g.name() + fmt(": the clock jumps by %.6f s after %lld bytes of the log: printed %.4f to build, %.4f to solve, %.4f in all", q.jumpUsec / 1e6, q.outAt, b, s, t);
        double jump = q.jumpUsec / 1e6, eps = 0.00025;
        if (s < jump - eps || t < jump - eps) { c.violation("solving-time-wrong", d, bundle(p, x)); return; }
        if (b > eps || s > jump + eps || std::fabs(b + s - t) > eps) { c.violation("more-than-passed", d, bundle(p, x)); return; }
      }
    }
    (void)i;
  });
}

// ------------------------------------------------------------------------------------------------ C12

// Value sets satisfy a clause when every choice from them does: some variable's whole set
// must be allowed. Returns the first clause that fails.
static const Cls *clausesHold(const Problem &p, const std::vector<u64> &m) {
  for (auto &k : p.cls) {
    std::map<int, u64> ok;
    for (auto &l : k) {
      u64 all = p.dom[l.var] == 64 ? ~0ULL : (1ULL << p.dom[l.var]) - 1;
      ok[l.var] |= l.eq ? 1ULL << l.val : all & ~(1ULL << l.val);
    }
    bool t = false;
    for (auto &x : ok) if ((m[x.first] & ~x.second) == 0) { t = true; break; }
    if (!t) return &k;
  }
  return nullptr;
}

void C12(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    bool bv = r.chance(35);
    GenOpt o = bv ? bvOpt() : srcOpt();
    Problem p;
    int w = r.below(10);
    if (w < 5) p = genSmall(r, o);
    else if (w < 8) p = genPlanted(r, o, 3, 24);
    else if (w < 9) p = genLong(r, o);
    else if (r.below(30) == 0) {           // tens of thousands of clauses, one of which may fail
      int n = r.range(3, 12), m = r.range(66000, 70000), at = r.chance(50) ? m - 1 : r.below(m);
      p.kind = "huge";
      p.dom.assign(n + 1, 0);
      p.planted.assign(n + 1, 0);
      for (int v = 1; v <= n; v++) { p.dom[v] = r.range(2, 6); p.planted[v] = r.below(p.dom[v]); }
      for (int j = 0; j < m; j++) p.cls.push_back(j == at ? Cls{{2, p.planted[2], true}} : Cls{{r.range(3, n), r.below(p.dom[3] < 2 ? 1 : 2), r.chance(50)}, {1, p.planted[1], true}});
    }
    else p = genStructured(r, o);
    str text = writePlain(p);
    str variant = bv ? "bv_verify" : "src_verify";
    if (c.haveVariant(variant)) {
      // assignments: models, near misses, random ones
      std::vector<std::vector<int>> as;
      std::vector<int> base = p.planted;
      if (base.empty()) decide(p, 20000, &base);
      auto rnd = [&] { std::vector<int> a(p.n() + 1, 0); for (int v = 1; v <= p.n(); v++) a[v] = r.below(p.dom[v]); return a; };
      for (int j = 0; j < 6; j++) as.push_back(rnd());
      if (!base.empty()) {
        as.push_back(base);
        for (int j = 0; j < 10; j++) { auto a = base; int k = r.range(1, 2); while (k--) { int v = r.range(1, p.n()); a[v] = r.below(p.dom[v]); } as.push_back(a); }
        // falsify exactly one clause, first, last or any
        for (int j = 0; j < 6 && !p.cls.empty(); j++) {
          const Cls &k = j == 0 ? p.cls[0] : j == 1 ? p.cls.back() : r.pick(p.cls);
          auto a = base;
          for (auto &l : k) if (litTrue(l, a)) { if (l.eq) { if (p.dom[l.var] > 1) a[l.var] = (a[l.var] + 1) % p.dom[l.var]; } else a[l.var] = l.val; }
          as.push_back(a);
        }
      }
      Runner &rn = c.runner(variant);
      writeFile(rn.dir() + "/p.mv", text);
      str at = fmt("%d %zu\n", (!bv && i % 5 == 0 && p.n() <= 30) ? 1 : 0, as.size());
      // the bit-vector solver assigns value sets: mostly single values, some larger
      std::vector<std::vector<u64>> sets;
      if (bv)
        for (size_t j = 0; j < as.size(); j++) {
          std::vector<u64> m(p.n() + 1, 0);
          bool wide = r.chance(50);
          int share = r.pick(std::vector<int>{5, 20, 60});
          for (int v = 1; v <= p.n(); v++) {
            m[v] = 1ULL << as[j][v];
            if (wide && r.chance(share)) { int k = r.range(1, 4); while (k--) m[v] |= 1ULL << r.below(p.dom[v]); }
            if (wide && r.chance(share / 3)) m[v] = p.dom[v] == 64 ? ~0ULL : (1ULL << p.dom[v]) - 1;
          }
          sets.push_back(m);
        }
      if (bv) for (auto &m : sets) { for (int v = 1; v <= p.n(); v++) at += std::to_string(m[v]) + " "; at += "\n"; }
      else for (auto &a : as) { for (int v = 1; v <= p.n(); v++) at += std::to_string(a[v]) + " "; at += "\n"; }
      writeFile(rn.dir() + "/assign.txt", at);
      RunReq q;
      q.args = {"-solvenc", "-file", "p.mv"};
      q.stepLimit = 200000;
      if (!bv && r.chance(50)) q.args.push_back("-wl");
      RunRes s = rn.run(q);
      c.evaluations++;
      if (!c.noteBadRun(s)) {
        size_t k = 0, pos = 0;
        while ((pos = s.out.find("VERIFY ", pos)) != str::npos && k < as.size()) {
          bool said = s.out[pos + 7] == '1', truth = bv ? clausesHold(p, sets[k]) == nullptr : isModel(p, as[k]);
          pos += 8;
          c.add(truth ? "checked-right-assignments" : "checked-wrong-assignments");
          u64 h = hashProblem(p);
          for (int v = 1; v <= p.n(); v++) h = mix64(h ^ (bv ? sets[k][v] : (u64)as[k][v]));
          if (bv) for (int v = 1; v <= p.n(); v++) if (sets[k][v] & (sets[k][v] - 1)) { c.add(truth ? "checked-right-set-assignments" : "checked-wrong-set-assignments"); break; }
          c.nontrivial(h);
          if (said != truth) {
            str a;
            for (int v = 1; v <= p.n(); v++) a += bv ? fmt("%d in %llx ", v, (unsigned long long)sets[k][v]) : fmt("%d=%d ", v, as[k][v]);
            str why;
            if (bv) { if (const Cls *x = clausesHold(p, sets[k])) why = "falsifies for some choice " + clsStr(*x).substr(0, 200); }
            else for (auto &x : p.cls) if (!clsTrue(x, as[k])) { why = "falsifies " + clsStr(x).substr(0, 200); break; }
            c.violation(said ? "wrong-model-accepted" : "model-rejected", (bv ? "bitvec: " : "src: ") + str(said ? "CORRECT for an assignment that " + why : "INCORRECT for an assignment that satisfies every clause"),
                        {{"p.mv", text}, {"assignment.txt", a + "\n"}, {"assign.txt", at}, {"stdout.txt", s.out.substr(0, 20000)}});
            return;
          }
          k++;
        }
        c.sample(fmt("%s %s, %d variables, %zu clauses: %zu assignments put to verifyModel()", bv ? "bitvec" : "src", p.kind.c_str(), p.n(), p.cls.size(), k));
      }
    }
    // and as it is used: at the end of a run
    for (int j = 0; j < 2; j++) {
      Cfg g = bv ? rndBvCfg(r) : rndCfg(r, p.n() <= 18);
      SolveRun s = solveText(c, bv ? "bv" : "src", text, g, 400000);
      if (!s.good || s.out.verdict != V_SAT) continue;
      str bad = bv ? checkBvModel(p, s.out) : checkModel(p, s.out);
      c.add("verdicts-on-own-models");
      c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name())));
      if (s.out.verified < 0) { c.violation("not-verified", g.name() + ": SAT without a CORRECT or INCORRECT line", bundle(p, s)); return; }
      if (bad.empty() && s.out.verified == 0) { c.violation("model-rejected", g.name() + ": INCORRECT, but the printed model satisfies every clause", bundle(p, s)); return; }
      if (!bad.empty() && s.out.verified == 1 && s.out.hasModel && (int)s.out.model.size() == p.n()) { c.violation("wrong-model-accepted", g.name() + ": CORRECT, but " + bad, bundle(p, s)); return; }
    }
  });
}

// ------------------------------------------------------------------------------------------------ C13

static SolveRun run13(Ctx &c, bool bv, const str &text, const Cfg &g) { return solveText(c, bv ? "bv" : "src", text, g, 600000); }
// a well-formed problem that ends the program is not solved at all
static bool died13(Ctx &c, const Cfg &g, const Problem &p, const SolveRun &s, const str &text) {
  int sg = s.res.sig();
  if (s.res.serverDied || s.res.stepLimitHit || (sg != SIGSEGV && sg != SIGABRT && sg != SIGBUS && sg != SIGFPE && sg != SIGILL)) return false;
  c.violation("no-answer", g.name() + fmt(": %d variables, %zu clauses: ", p.n(), p.cls.size()) + s.res.describe(), bundle(p, s, text));
  return true;
}

static bool c13Layout(Ctx &c, Rng &r, bool bv) {
  GenOpt o = bv ? bvOpt() : srcOpt();
  Problem p;
  int w = r.below(10);
  if (w < 4) p = genSmall(r, o);
  else if (w < 6) p = genPlanted(r, o, 4, 20);
  else if (w < 8) p = genStructured(r, o);
  else if (w < 9) p = genLong(r, o);
  else p = genLargeDomain(r, o);
  Cfg g = bv ? rndBvCfg(r) : rndCfg(r, p.n() <= 16);
  str plain = writePlain(p);
  SolveRun a = run13(c, bv, plain, g);
  if (!a.good) return false;
  for (int j = 0; j < 5; j++) {
    str desc, text = j == 0 ? writePlain(p, "mvcnf") : writeLayout(r, p, true, &desc);
    SolveRun b = run13(c, bv, text, g);
    if (b.res.wallKilled() || b.res.serverDied) continue;
    if (b.res.stepLimitHit && a.res.reads > 200000) continue;
    if (b.res.cpuKilled() && (a.res.cpuUsec > 1000000 || text.size() > 3000000)) continue;
    c.add("layouts-compared");
    if (!desc.empty()) for (auto k : {"comments=1", "blank-lines=1", "leading=1", "trailing=1", "zero-terminated=0", "mixed-separators=1", "no-final-newline=1", "leading-zeros=1"}) if (desc.find(k) != str::npos) c.add(str("layout:") + k);
    c.nontrivial(hashStr(text));
    c.sample(fmt("%s, %d variables, %zu clauses, %s: same answer, model and counts with %s", p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), desc.empty() ? "p mvcnf" : desc.c_str()));
    str x = a.out.canonical(), y = b.good ? b.out.canonical() : "run failed: " + b.res.describe();
    if (x != y) {
      size_t q = 0; while (q < x.size() && q < y.size() && x[q] == y[q]) q++;
      q = q > 60 ? q - 60 : 0;
      auto f = bundle(p, a, plain);
      auto f2 = bundle(p, b, text);
      for (auto &z : f2) f["layout_" + z.first] = z.second;
      c.violation("layout-changes-run", g.name() + ": another layout of the same problem (" + (desc.empty() ? "p mvcnf" : desc) + ") runs differently: ..." + x.substr(q, 150) + " / ..." + y.substr(q, 150), f);
      return true;
    }
  }
  return false;
}

static bool c13Enumerate(Ctx &c, Rng &r, bool bv) {
  GenOpt o = bv ? bvOpt() : srcOpt();
  o.maxSpace = 300;
  Problem p; std::vector<std::vector<int>> ms;
  int t = 0;
  do { p = genSmall(r, o); ms.clear(); enumerate(p, 300, ms); } while ((ms.empty() || ms.size() > 40) && ++t < 30);
  if (ms.size() > 40) return false;
  std::set<std::vector<int>> want(ms.begin(), ms.end()), got;
  Problem q = p;
  q.planted.clear();
  Cfg g = bv ? rndBvCfg(r) : rndCfg(r, p.n() <= 10);
  for (int step = 0; step <= (int)want.size() + 2; step++) {
    str text = writeLayout(r, q, step % 3 == 2);
    SolveRun s = run13(c, bv, text, g);
    if (!s.good || s.out.verdict == V_TIMEOUT) return false;
    c.add("enumeration-steps");
    if (s.out.verdict == V_UNSAT) break;
    std::vector<int> a = modelOf(p, s.out);
    if (a.empty()) return false;
    if (got.count(a)) { c.violation("blocked-model-returned", g.name() + ": a model excluded by a clause of the file is returned again", bundle(q, s, text)); return true; }
    got.insert(a);
    Cls k;
    for (int v = 1; v <= p.n(); v++) k.push_back({v, a[v], false});
    r.shuffle(k);
    q.cls.insert(q.cls.begin() + r.below((int)q.cls.size() + 1), k);
  }
  c.nontrivial(mix64(hashProblem(p) ^ 0x13));
  c.add("model-sets-compared");
  c.add("models-enumerated", (long long)got.size());
  if (got != want) {
    SolveRun s = run13(c, bv, writePlain(q), g);
    c.violation("model-set", g.name() + fmt(": repeated solving finds %zu models, the problem has %zu%s", got.size(), want.size(), got.size() == want.size() ? " others" : ""), bundle(q, s));
    return true;
  }
  return false;
}

// every clause matters: a chain of implications from x1 to the opposite of xn
static bool c13Clauses(Ctx &c, Rng &r, bool bv) {
  int big = r.below(10);
  bool vast = r.chance(2);
  int n = vast ? r.chance(40) ? r.range(65400, 68000) : r.range(32700, 36000) : big == 0 ? r.range(1200, 4000) : big < 4 ? r.range(120, 600) : r.range(2, 100);
  Problem p;
  p.kind = "critical-chain";
  int D = r.chance(70) ? 5 : bv ? 64 : 120;
  std::vector<int> a(n + 1), perm;
  for (int v = 1; v <= n; v++) { p.dom.push_back(r.range(2, n > 600 ? 3 : D)); a[v] = r.below(p.dom[v]); perm.push_back(v); }
  r.shuffle(perm);
  p.cls.push_back({{perm[0], a[perm[0]], true}});
  for (int j = 0; j + 1 < n; j++) { Cls k = {{perm[j], a[perm[j]], false}, {perm[j + 1], a[perm[j + 1]], true}}; r.shuffle(k); p.cls.push_back(k); }
  p.cls.push_back({{perm[n - 1], a[perm[n - 1]], false}});
  // the clause left out of a vast chain is one of the last, so that little is left to decide
  Cls target = p.cls[p.cls.size() - 1 - r.below(std::min(n, 30))];
  r.shuffle(p.cls);
  Cfg g = bv ? rndBvCfg(r) : rndCfg(r, n < 300);
  if (vast) c.add("critical-problems-with-more-than-32767-variables");
  str text = writeLayout(r, p, r.chance(60));
  SolveRun s = run13(c, bv, text, g);
  if (died13(c, g, p, s, text)) return true;
  if (s.good && s.out.verdict != V_TIMEOUT) {
    c.add("critical-problems");
    c.nontrivial(hashStr(text));
    if (s.out.verdict != V_UNSAT) { c.violation("clause-ignored", g.name() + fmt(": %zu clauses that are all needed for the contradiction: SAT", p.cls.size()), bundle(p, s, text)); return true; }
  }
  for (int j = 0; j < (vast ? 1 : 4); j++) {
    Problem q = p;
    size_t k = vast ? std::find(q.cls.begin(), q.cls.end(), target) - q.cls.begin() : j == 0 ? 0 : j == 1 ? q.cls.size() - 1 : r.below((int)q.cls.size());
    q.cls.erase(q.cls.begin() + k);
    text = writeLayout(r, q, r.chance(60));
    s = run13(c, bv, text, g);
    if (died13(c, g, q, s, text)) return true;
    if (!s.good || s.out.verdict == V_TIMEOUT) continue;
    c.add("critical-problems-minus-one");
    c.nontrivial(hashStr(text));
    if (s.out.verdict != V_SAT) { c.violation("clause-invented", g.name() + fmt(": without clause %zu the chain of %zu clauses is satisfiable: UNSAT", k, q.cls.size()), bundle(q, s, text)); return true; }
  }
  return false;
}

// every literal matters: all literals of a clause but one are excluded by unit clauses
static bool c13Literals(Ctx &c, Rng &r, bool bv) {
  bool vast = r.chance(1);
  int m = vast ? r.range(8000, 16000) : r.chance(25) ? r.range(300, 2500) : r.chance(40) ? r.range(40, 300) : r.range(2, 40);
  Problem p;
  p.kind = "critical-literal";
  bool one = r.chance(30);                   // many literals over few variables, or one per variable
  int D = bv ? 64 : 300;
  std::vector<Lit> lits;
  if (one) {
    int n = m / (D - 1) + 1 + r.below(3);
    for (int v = 1; v <= n; v++) p.dom.push_back(D);
    for (int v = 1; v <= n; v++) { int keep = r.below(D); for (int d = 0; d < D && (int)lits.size() < m; d++) if (d != keep) lits.push_back({v, d, true}); }
  } else {
    for (int v = 1; v <= m; v++) { p.dom.push_back(r.range(2, m > 400 ? 3 : 9)); lits.push_back({v, r.below(p.dom[v]), r.chance(50)}); }
  }
  r.shuffle(lits);
  Cls k(lits.begin(), lits.end());
  size_t free1 = r.chance(30) ? k.size() - 1 : r.chance(20) ? 0 : r.below((int)k.size());
  for (int v = 0; v < 2; v++) {
    Problem q = p;
    for (size_t j = 0; j < k.size(); j++) { if (v == 0 && j == free1) continue; Lit l = k[j]; l.eq = !l.eq; q.cls.push_back({l}); }
    r.shuffle(q.cls);
    q.cls.insert(q.cls.begin() + r.below((int)q.cls.size() + 1), k);
    Cfg g = bv ? rndBvCfg(r) : rndCfg(r, m < 300);
    str text = writeLayout(r, q, r.chance(50));
    SolveRun s = run13(c, bv, text, g);
    if (died13(c, g, q, s, text)) return true;
    if (!s.good || s.out.verdict == V_TIMEOUT) continue;
    c.add("critical-literals");
    c.maxi("longest-clause", (long long)k.size());
    c.nontrivial(hashStr(text));
    if (v == 1 && s.out.verdict != V_UNSAT) { c.violation("literal-invented", g.name() + fmt(": all %zu literals of a clause are excluded: SAT", k.size()), bundle(q, s, text)); return true; }
    if (v == 0 && s.out.verdict != V_SAT) { c.violation("literal-ignored", g.name() + fmt(": literal %zu of a clause of %zu is the only one left: UNSAT", free1, k.size()), bundle(q, s, text)); return true; }
    if (v == 0) {
      str w = bv ? checkBvModel(q, s.out) : checkModel(q, s.out);
      if (!w.empty()) { c.violation("literal-ignored", g.name() + ": " + w, bundle(q, s, text)); return true; }
    }
  }
  return false;
}

void C13(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    bool bv = r.chance(30);
    switch (i % 5) {
      case 0: case 1: c13Layout(c, r, bv); break;
      case 2: c13Enumerate(c, r, bv); break;
      case 3: c13Clauses(c, r, bv); break;
      default: c13Literals(c, r, bv);
    }
  });
}
