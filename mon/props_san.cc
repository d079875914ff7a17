// C20, C21, C27: the programs built with sanitizers, container checks and under valgrind.
#include "props.h"
#include <csignal>

namespace {
str firstReport(const RunRes &s) {
  static const char *keys[] = {"ERROR: AddressSanitizer", "runtime error:", "Error: attempt to", "Assertion '", "Invalid read", "Invalid write", "Conditional jump", "Use of uninitialised", "ERROR: ", "Invalid free", "Mismatched free"};
  size_t best = str::npos;
  for (auto k : keys) { size_t q = s.err.find(k); if (q != str::npos) best = std::min(best, q); }
  if (best == str::npos) return s.describe();
  size_t ls = s.err.rfind('\n', best);
  ls = ls == str::npos ? 0 : ls + 1;
  str rep = s.err.substr(ls, 200);
  rep = rep.substr(0, rep.find('\n'));
  // the first frames in the program's own files
  size_t q = best; int n = 0;
  while (n < 2 && (q = s.err.find(".cc:", q)) != str::npos) {
    size_t b = s.err.find_last_of(" /(", q), e = q + 4;
    while (e < s.err.size() && isdigit((unsigned char)s.err[e])) e++;
    rep += (n ? " < " : " at ") + s.err.substr(b + 1, e - b - 1);
    q = e; n++;
  }
  return rep;
}

bool valgrindReport(const str &err) {
  static const char *keys[] = {"Invalid read", "Invalid write", "Conditional jump", "Use of uninitialised", "Invalid free", "Mismatched free", "Source and destination overlap", "uninitialised byte"};
  for (auto k : keys) if (err.find(k) != str::npos) return true;
  return false;
}

// MSan reports whose first frame lies in the program itself (libstdc++ is not instrumented)
bool msanCandidate(const str &err) {
  size_t q = 0;
  while ((q = err.find("WARNING: MemorySanitizer", q)) != str::npos) {
    size_t f = err.find("#0 ", q);
    if (f == str::npos) return false;
    str line = err.substr(f, err.find('\n', f) - f);
    if (line.find(".so") == str::npos) return true;
    q = f;
  }
  return false;
}

// true when the run shows a memory error or undefined behaviour
bool broken(Ctx &c, const RunRes &s, const str &variant) {
  bool vg = variant.find("_vg") != str::npos;
  c.add("runs:" + variant);
  if (s.serverDied) { c.add("run:server-died"); return false; }
  if (variant.find("_msan") != str::npos) {     // decided by the caller, with valgrind
    if (s.stepLimitHit || s.cpuKilled() || s.wallKilled()) c.noteBadRun(s);
    return false;
  }
  if (s.stepLimitHit || s.cpuKilled() || s.wallKilled()) { c.noteBadRun(s); return !vg ? s.sanitizer() : valgrindReport(s.err); }
  if (vg) return valgrindReport(s.err) || s.sig() == SIGSEGV || s.sig() == SIGABRT || s.sig() == SIGBUS || s.sig() == SIGFPE || s.sig() == SIGILL;
  if (s.err.find("hard rss limit") != str::npos || s.err.find("bad_alloc") != str::npos) { c.add("run:out-of-memory"); return false; }
  if (s.sanitizer()) return true;
  int g = s.sig();
  return g == SIGSEGV || g == SIGABRT || g == SIGBUS || g == SIGFPE || g == SIGILL;
}

void solving(Ctx &c, bool bv) {
  int msanConfirms = 0;
  GenOpt o; o.maxDom = bv ? 64 : 300;
  str pre = bv ? "bv_" : "src_";
  c.forCases([&](Rng &r, long long i) {
    Problem p;
    int w = r.below(100);
    if (w < 40) p = genSmall(r, o);
    else if (w < 55) p = genStructured(r, o);
    else if (w < 68) p = genMid(r, o);
    else if (w < 80) p = genPlanted(r, o, 3, 24);
    else if (w < 88) p = genLargeDomain(r, o);
    else if (w < 95) p = genLong(r, o);
    else if (r.chance(35)) p = genSpecial(r, o);
    else p = genChain(r, o, r.range(10, 150));
    str text = writeLayout(r, p, r.chance(50));
    int n = i % 8 == 0 ? 0 : 3;
    std::vector<Cfg> cf;
    if (n == 0 && !bv) { cf = allCfgs(); for (auto &g : cf) if (g.mode != M_CHRONO && r.chance(50)) g.k = r.range(1, 6); }
    else for (int j = 0; j < 3; j++) cf.push_back(bv ? rndBvCfg(r) : rndCfg(r, p.n() <= 18 || p.kind == "chain"));
    static const char *vs[] = {"asan", "asan", "asan", "dbg", "clang_asan", "msan", "msan"};
    for (auto &g : cf) {
      if (g.mode == M_CHRONO && !bv && p.n() > 26 && p.kind != "chain") continue;
      g.verbose = r.chance(25);
      std::vector<str> extra;
      RunReq q;
      q.cpuSec = 30;
      if (r.chance(10)) { extra = {"-time", std::to_string(r.range(0, 20))}; q.stepUsec = 300000; }
      str variant = pre + vs[r.below(7)];
      bool vg = r.below(1000) < (c.tier == "thorough" ? 12 : 25) && c.haveVariant(pre + "vg");
      if (vg) variant = pre + "vg";
      if (!c.haveVariant(variant)) variant = pre + "asan";
      bool ms = variant == pre + "msan";
      if (ms) g.verbose = false;
      SolveRun s = solveText(c, variant, text, g, vg ? 400 : g.verbose ? 1500 : 6000, extra, q);
      c.add("config:" + g.name().substr(0, g.name().find('/')));
      c.add("search-steps", s.res.reads);
      if (s.out.backtracks > 0) c.add("runs-with-backtracks");
      if (s.out.restarts > 0) c.add("runs-with-restarts");
      if (p.n() >= 2 && s.res.reads > 4) c.nontrivial(mix64(hashStr(text) ^ hashStr(g.name() + variant)));
      c.sample(fmt("%s: %s, %d variables, %zu clauses, %s%s: %s, no report", variant.c_str(), p.kind.c_str(), p.n(), p.cls.size(), g.name().c_str(), g.verbose ? ", verbose" : "", s.res.describe().c_str()));
      if (ms && msanCandidate(s.res.err)) {
        c.add("msan-candidates");
        if (c.haveVariant(pre + "vg") && msanConfirms++ < 6) {
          q.cpuSec = 120;
          variant = pre + "vg";
          s = solveText(c, variant, text, g, 6000, extra, q);
        }
      }
      if (broken(c, s.res, variant)) {
        c.violation("memory-or-ub", variant + ", " + g.name() + ": " + firstReport(s.res), bundle(p, s, text));
        return;
      }
    }
  });
}
}

void C20(Ctx &c) { solving(c, false); }
void C27(Ctx &c) { solving(c, true); }

void C21(Ctx &c) {
  int msanConfirms = 0;
  c.forCases([&](Rng &r, long long i) {
    static const char *vs[] = {"src_asan", "src_asan", "src_dbg", "src_clang_asan", "src_msan"};
    str variant = vs[r.below(5)];
    if (r.below(1000) < 30 && c.haveVariant("src_vg")) variant = "src_vg";
    if (!c.haveVariant(variant)) variant = "src_asan";
    Runner &rn = c.runner(variant);
    RunReq q;
    q.cpuSec = 30;
    str in, out = rn.dir() + "/conv.out", what;
    remove(out.c_str());
    int mode = (int)(i % 5);
    if (mode < 3) {
      static const char *m[] = {"-b2f", "-linenc", "-quadenc"};
      what = m[mode];
      if (mode == 0) { Cnf f = genCnf(r, r.chance(70) ? 12 : 400); in = writeCnf(r, f, r.chance(60), r.chance(10)); }
      else {
        GenOpt o; o.maxDom = r.chance(80) ? 64 : 300;
        Problem p = r.chance(15) ? genLong(r, o) : r.chance(15) ? genLargeDomain(r, o) : genAny(r, o);
        if (r.chance(5)) p.cls.clear();
        // the quadratic encoding of a domain of 300 has 45000 clauses
        in = writeLayout(r, p, r.chance(60));
      }
      writeFile(rn.dir() + "/conv.in", in);
      q.args = {what, "-file", "conv.in", "-model", "conv.out"};
    } else {
      what = mode == 3 ? "-genben -bool 1" : "-genben -bool 0";
      int var = r.chance(80) ? r.range(1, 15) : r.range(16, 200), size = r.range(1, std::min(var, 6)), cl = r.chance(10) ? 0 : r.range(1, 200);
      q.args = {"-genben", "-var", std::to_string(var), "-clause", std::to_string(cl), "-clausesize", std::to_string(size), "-file", "conv.out", "-bool", mode == 3 ? "1" : "0"};
      if (r.chance(70)) { q.args.push_back("-domain"); q.args.push_back(std::to_string(r.chance(60) ? r.range(1, 4) : r.range(1, 300))); }
      if (r.chance(60)) { q.args.push_back("-drand"); q.args.push_back(std::to_string(r.below(2))); }
      if (r.chance(60)) { q.args.push_back("-sat"); q.args.push_back(std::to_string(r.below(2))); }
      q.baseSec = 1000000000 + (long long)(r.next() % 2000000000ULL);
    }
    RunRes s = rn.run(q);
    c.evaluations++;
    if (variant == "src_msan" && msanCandidate(s.err)) {
      c.add("msan-candidates");
      if (c.haveVariant("src_vg") && msanConfirms++ < 6) {
        variant = "src_vg";
        Runner &vg = c.runner(variant);
        if (!in.empty()) writeFile(vg.dir() + "/conv.in", in);
        q.cpuSec = 120;
        s = vg.run(q);
      }
    }
    c.add("mode:" + what);
    str o;
    readFile(out, o);
    c.add("bytes-read", (long long)in.size());
    c.add("bytes-written", (long long)o.size());
    if (!o.empty()) c.nontrivial(mix64(hashStr(in + cmdOf(q.args)) ^ hashStr(variant) ^ (u64)q.baseSec));
    c.sample(variant + ": " + cmdOf(q.args) + fmt(" on %zu bytes: %s, no report", in.size(), s.describe().c_str()));
    auto bad = [&](const char *k, const str &d) {
      c.violation(k, variant + ": " + cmdOf(q.args) + ": " + d, {{"conv.in", in}, {"conv.out", o.substr(0, 200000)}, {"command.txt", cmdOf(q.args) + fmt("  (clock at %lld)\n", q.baseSec)}, {"stdout.txt", s.out.substr(0, 10000)}, {"stderr.txt", s.err.substr(0, 60000)}});
    };
    if (broken(c, s, variant)) return bad("memory-or-ub", firstReport(s));
    if (s.serverDied) return;
    if (s.cpuKilled() || s.wallKilled()) {
      if (variant == "src_vg") return;
      q.cpuSec = 60;
      s = rn.run(q);
      if (s.cpuKilled() || s.wallKilled()) return bad("no-end", s.describe());
      return;
    }
    if (variant == "src_msan") return;
    if (s.exited() && s.code() != 0 && s.err.find("hard rss limit") == str::npos) return bad("no-normal-end", s.describe());
  });
}
