// C14-C19: converters and generators, judged on the files they write.
#include "props.h"
#include <functional>
#include <set>

namespace {
GenOpt convOpt() { GenOpt o; o.maxDom = 60; return o; }

// A plain boolean engine: clauses over 1..n, counter-based propagation, enumeration of all models.
struct Bool {
  int n;
  std::vector<std::vector<int>> cls;
  std::vector<std::vector<int>> occ;     // 2*v+neg -> clauses
  std::vector<signed char> val;
  std::vector<int> trail;
  std::vector<int> nfalse, ntrue;
  bool empty = false;
  explicit Bool(const Cnf &c) : n(c.n) {
    occ.resize(2 * (n + 1));
    val.assign(n + 1, 0);
    for (auto &k : c.cls) {
      std::vector<int> q = k;
      std::sort(q.begin(), q.end());
      q.erase(std::unique(q.begin(), q.end()), q.end());
      bool taut = false;
      for (int x : q) if (std::binary_search(q.begin(), q.end(), -x)) taut = true;
      if (taut) continue;
      if (q.empty()) empty = true;
      for (int x : q) occ[2 * abs(x) + (x < 0)].push_back((int)cls.size());
      cls.push_back(q);
    }
    nfalse.assign(cls.size(), 0);
    ntrue.assign(cls.size(), 0);
  }
  size_t mark() const { return trail.size(); }
  bool set(int x) {                      // assign and propagate
    std::vector<int> q = {x};
    bool ok = true;
    for (size_t i = 0; i < q.size(); i++) {
      int y = q[i], v = abs(y);
      signed char s = y > 0 ? 1 : -1;
      if (val[v] == s) continue;
      if (val[v] == -s) { ok = false; break; }
      val[v] = s;
      trail.push_back(y);
      for (int c : occ[2 * v + (y < 0)]) ntrue[c]++;
      for (int c : occ[2 * v + (y > 0)]) {
        nfalse[c]++;
        if (ntrue[c]) continue;
        int left = (int)cls[c].size() - nfalse[c];
        if (left == 0) ok = false;
        else if (left == 1) for (int z : cls[c]) if (val[abs(z)] == 0) q.push_back(z);
      }
      if (!ok) break;
    }
    return ok;
  }
  void undo(size_t m) {
    while (trail.size() > m) {
      int y = trail.back(), v = abs(y);
      trail.pop_back();
      val[v] = 0;
      for (int c : occ[2 * v + (y < 0)]) ntrue[c]--;
      for (int c : occ[2 * v + (y > 0)]) nfalse[c]--;
    }
  }
  bool start() {
    if (empty) return false;
    for (auto &c : cls) if (c.size() == 1 && !set(c[0])) return false;
    return true;
  }
  // calls f on every model; false when the budget is exhausted or f asks to stop
  bool models(long long &budget, const std::function<bool(const std::vector<signed char> &)> &f, int from = 1) {
    if (--budget < 0) return false;
    while (from <= n && val[from]) from++;
    if (from > n) return f(val);
    for (int s : {1, -1}) {
      size_t m = mark();
      if (set(s * from) && !models(budget, f, from + 1)) { undo(m); return false; }
      undo(m);
    }
    return true;
  }
  // 1 satisfiable, 0 not, -1 budget exhausted
  int sat(long long &budget) {
    bool found = false;
    bool done = models(budget, [&](const std::vector<signed char> &) { found = true; return false; });
    return found ? 1 : done ? 0 : -1;
  }
};

struct Files { str in, out; };

RunRes convert(Ctx &c, const str &mode, const str &text, str &out, bool stale = false) {
  Runner &rn = c.runner("src");
  str i = rn.dir() + "/conv.in", o = rn.dir() + "/conv.out";
  writeFile(i, text);
  if (stale) writeFile(o, str(5000, '7') + "\n1 2 3 0\n");
  else remove(o.c_str());
  RunReq q;
  q.args = {mode, "-file", "conv.in", "-model", "conv.out"};
  q.cpuSec = 20;
  RunRes s = rn.run(q);
  if (s.cpuKilled()) { c.add("conversions-given-more-time"); q.cpuSec = 60; s = rn.run(q); }
  c.evaluations++;
  out.clear();
  readFile(o, out);
  return s;
}

std::map<str, str> convBundle(const str &mode, const str &in, const str &out, const RunRes &s) {
  return {{"input", in}, {"output", out}, {"command.txt", "mvl-solver " + mode + " -file input -model output\n"}, {"stdout.txt", s.out.substr(0, 20000)}, {"stderr.txt", s.err.substr(0, 50000)}, {"run.txt", s.describe() + "\n"}};
}

// a run that did not end normally makes a case undecided, unless it crashed or refused a well-formed input
bool failedRun(Ctx &c, const RunRes &s) {
  if (s.ok0()) return false;
  c.noteBadRun(s);
  return true;
}
bool crashed(const RunRes &s) { return !s.serverDied && !s.stepLimitHit && !s.ok0() && !s.cpuKilled() && !s.wallKilled(); }

Problem convProblem(Rng &r, bool quad) {
  GenOpt o = convOpt();
  int w = r.below(100);
  Problem p;
  if (w < 60) { o.maxSpace = 1500; p = genSmall(r, o); }
  else if (w < 72) p = genStructured(r, o);
  else if (w < 84) p = genPlanted(r, o, 3, 20);
  else if (w < 90) p = genLargeDomain(r, o);
  else if (w < 94) p = genLong(r, o);
  else if (w < 95) {
    o.maxDom = 300;
    p = genLargeDomain(r, o);
    if (r.chance(20)) {                  // more than 65535 pairs of values
      p.kind = "vast-domain";
      p.planted.clear();
      int v = r.range(1, p.n());
      p.dom[v] = r.range(363, 700);
      if (r.chance(10)) p.dom[v] = quad ? r.range(1001, 1500) : r.range(33000, 300000);
      for (int j = r.range(1, 5); j--;) { int u = r.range(1, p.n()); p.cls.push_back(Cls{{v, r.below(p.dom[v]), r.chance(50)}, {u, r.below(p.dom[u]), r.chance(50)}}); }
    }
  }
  else if (w < 97) { p = genPlanted(r, o, 2, 8); p.cls.clear(); p.kind = "no-clauses"; }
  else if (r.chance(1)) p = genHuge(r, o);
  else if (r.chance(1)) {                // tens of thousands of booleans in the encoding
    int n = r.range(150, 400), d = r.range(2, 4);
    p.kind = "many-variables";
    if (quad) n = r.chance(50) ? r.range(2, 5) : r.range(2500, 4000);
    for (int v = 1; v <= n; v++) p.dom.push_back(quad && n > 5 ? r.range(6, 16) : v % 3 ? r.range(2, 60 * d) : 300);
    p.planted.assign(n + 1, 0);
    for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
    for (int j = r.range(10, 400); j--;) { int v = r.chance(30) ? n : r.range(1, n), u = r.range(1, n); p.cls.push_back(Cls{{v, p.planted[v], true}, {u, r.below(p.dom[u]), r.chance(50)}}); }
  }
  else p = genChain(r, o, r.range(10, 200));
  return p;
}

// what a search may cost, when every step looks at every value
long long steps(const Problem &p, long long most) {
  long long values = 1;
  for (int v = 1; v <= p.n(); v++) values += p.dom[v];
  return std::max(3LL, std::min(most, 4000000LL / values));
}
// assignments that tell the problems apart: models, near misses, one per clause
std::vector<std::vector<int>> probes(Rng &r, const Problem &p) {
  std::vector<std::vector<int>> as;
  std::vector<int> base = p.planted;
  if (base.empty() || !isModel(p, base)) { base.clear(); decide(p, steps(p, 20000), &base); }
  for (int j = 0; j < 6; j++) { std::vector<int> a(p.n() + 1, 0); for (int v = 1; v <= p.n(); v++) a[v] = r.below(p.dom[v]); as.push_back(a); }
  if (base.empty()) return as;
  base[0] = 0;
  as.push_back(base);
  for (int j = 0; j < 12; j++) { auto a = base; int v = r.range(1, p.n()); a[v] = r.below(p.dom[v]); as.push_back(a); }
  std::vector<int> idx;
  for (size_t j = 0; j < p.cls.size(); j++) idx.push_back((int)j);
  r.shuffle(idx);
  for (size_t j = 0; j < idx.size() && j < 25; j++) {
    auto a = base;
    for (auto &l : p.cls[idx[j]]) if (litTrue(l, a)) { if (l.eq) { if (p.dom[l.var] > 1) a[l.var] = (a[l.var] + 1 + r.below(p.dom[l.var] - 1)) % p.dom[l.var]; } else a[l.var] = l.val; }
    as.push_back(a);
  }
  return as;
}

str asgStr(const Problem &p, const std::vector<int> &a) {
  str s;
  for (int v = 1; v <= p.n() && v <= 40; v++) s += fmt("%d=%d ", v, a[v]);
  return s;
}

// Compares the models of an encoding with the models of p. atoms: literal for "v has value d".
// twoValued: variables of at most two values are one boolean (linear encoding).
// Returns a violation kind, or "".
str compareEncoding(Ctx &c, Rng &r, const Problem &p, const Cnf &cnf, const std::function<int(int, int)> &atom, str &detail) {
  std::vector<std::vector<int>> ms;
  auto readBack = [&](const std::vector<signed char> &val, std::vector<int> &a) {
    a.assign(p.n() + 1, -1);
    a[0] = 0;
    for (int v = 1; v <= p.n(); v++) {
      for (int d = 0; d < p.dom[v]; d++) {
        int x = atom(v, d);
        bool t = x > 0 ? val[x] > 0 : val[-x] < 0;
        if (!t) continue;
        if (a[v] >= 0) { detail = fmt("a model of the encoding gives variable %d the values %d and %d", v, a[v], d); return false; }
        a[v] = d;
      }
      if (a[v] < 0) { detail = fmt("a model of the encoding gives variable %d no value", v); return false; }
    }
    return true;
  };
  if (space(p, 2000) <= 2000 && enumerate(p, 2000, ms)) {
    std::set<std::vector<int>> want(ms.begin(), ms.end()), got;
    Bool b(cnf);
    long long budget = 400000;
    str kind;
    std::vector<int> twice;
    bool done = true;
    if (b.start())
      done = b.models(budget, [&](const std::vector<signed char> &val) {
        std::vector<int> a;
        if (!readBack(val, a)) { kind = "not-an-assignment"; return false; }
        if (!want.count(a)) { kind = "model-gained"; detail = "the encoding has the model " + asgStr(p, a) + ", which the problem excludes"; return false; }
        if (!got.insert(a).second) { kind = "model-twice"; detail = "two models of the encoding stand for " + asgStr(p, a); return false; }
        return true;
      });
    if (!kind.empty()) return kind;
    if (!done) { c.add("undecided-too-many-models"); return ""; }
    c.add("model-sets-compared");
    c.add("models-compared", (long long)got.size());
    if (got.size() != want.size()) {
      for (auto &m : want) if (!got.count(m)) { detail = "the model " + asgStr(p, m) + " of the problem is lost"; break; }
      return "model-lost";
    }
    return "";
  }
  Bool b(cnf);
  bool ok0 = b.start();
  size_t m0 = b.mark();
  bool once = b.n > 6000;                // the search for a second model recurses once per variable
  for (auto &a : probes(r, p)) {
    bool truth = isModel(p, a);
    bool ok = ok0;
    for (int v = 1; v <= p.n() && ok; v++) for (int d = 0; d < p.dom[v] && ok; d++) { int x = atom(v, d); if (!b.set(d == a[v] ? x : -x)) ok = false; }
    long long budget = 20000;
    int s = ok ? b.sat(budget) : 0;
    b.undo(m0);
    if (s < 0) { c.add("undecided-probe"); continue; }
    c.add(truth ? "probes-models" : "probes-non-models");
    if (truth && !s) { detail = "the model " + asgStr(p, a) + " of the problem is lost"; return "model-lost"; }
    if (truth && !once) {                // and only one model of the encoding stands for it
      once = true;
      int n = 0;
      bool in = true;
      for (int v = 1; v <= p.n() && in; v++) for (int d = 0; d < p.dom[v] && in; d++) { int x = atom(v, d); if (!b.set(d == a[v] ? x : -x)) in = false; }
      budget = 3000;
      if (in && b.models(budget, [&](const std::vector<signed char> &) { return ++n < 2; })) c.add("probes-one-model");
      b.undo(m0);
      if (n > 1) { detail = "two models of the encoding stand for " + asgStr(p, a); return "model-twice"; }
    }
    if (!truth && s) {
      for (auto &k : p.cls) if (!clsTrue(k, a)) { detail = "the encoding admits " + asgStr(p, a) + ", which falsifies " + clsStr(k).substr(0, 200); break; }
      return "model-gained";
    }
  }
  // no variable may have two values, or none
  int wide = 0;
  for (int v = 1; v <= p.n(); v++) if (p.dom[v] > p.dom[std::max(wide, 1)] || !wide) wide = v;
  for (int j = 0; j < 16 && ok0; j++) {
    int v = r.chance(50) ? wide : r.range(1, p.n());
    if (p.dom[v] < 3) continue;
    int x = r.chance(25) ? p.dom[v] - 1 : r.below(p.dom[v]), y = r.chance(25) ? 0 : r.below(p.dom[v]);
    bool ok = true;
    if (r.chance(70)) { if (x == y) continue; ok = b.set(atom(v, x)) && b.set(atom(v, y)); }
    else for (int d = 0; d < p.dom[v] && ok; d++) ok = b.set(-atom(v, d));
    long long budget = 20000;
    int s = ok ? b.sat(budget) : 0;
    b.undo(m0);
    c.add("probes-not-one-value");
    if (s == 1) { detail = fmt("the encoding lets variable %d have two values or none", v); return "not-an-assignment"; }
  }
  return "";
}

// linear encoding: one boolean for at most two values (true for 1), otherwise 2d-1 with the value variables first
std::function<int(int, int)> linAtoms(const Problem &p, int &nv) {
  std::vector<int> first(p.n() + 2, 1);
  for (int v = 1; v <= p.n(); v++) first[v + 1] = first[v] + (p.dom[v] <= 2 ? 1 : 2 * p.dom[v] - 1);
  nv = first[p.n() + 1] - 1;
  std::vector<int> dom = p.dom;
  return [first, dom](int v, int d) { return dom[v] <= 2 ? (d == 1 ? first[v] : -first[v]) : first[v] + d; };
}
}

void C14(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    Cnf f = r.below(400) == 0 ? genBigCnf(r) : genCnf(r, r.chance(70) ? 12 : r.chance(50) ? 60 : 1500);
    bool sl = r.chance(12);
    str text = writeCnf(r, f, r.chance(70), sl), out;
    RunRes s = convert(c, "-b2f", text, out, r.chance(20));
    c.add(sl ? "satlib-files" : "dimacs-files");
    auto bad = [&](const char *kind, const str &d) { c.violation(kind, d, convBundle("-b2f", text, out, s)); };
    if (crashed(s) || s.cpuKilled()) return bad("no-output", "the conversion does not end normally: " + s.describe());
    if (failedRun(c, s)) return;
    Problem p; int nv, nc; str why;
    if (!parseExt(out, p, nv, nc, why)) return bad("malformed-output", "the output is not a well-formed extended-DIMACS file: " + why);
    if (nv != f.n || p.n() != f.n) return bad("variables", fmt("the input has %d variables, the output declares %d and gives domains for %d", f.n, nv, p.n()));
    for (int v = 1; v <= p.n(); v++) if (p.dom[v] != 2) return bad("domain", fmt("variable %d has domain size %d", v, p.dom[v]));
    if (p.cls.size() != f.cls.size() || nc != (int)f.cls.size()) return bad("clauses", fmt("the input has %zu clauses, the output %zu and its header says %d", f.cls.size(), p.cls.size(), nc));
    for (size_t k = 0; k < f.cls.size(); k++) {
      std::set<int> x(f.cls[k].begin(), f.cls[k].end()), y;
      for (auto &l : p.cls[k]) y.insert((l.val == 1) == l.eq ? l.var : -l.var);
      c.add("clauses-compared");
      if (x != y) return bad("clause-changed", fmt("clause %zu of the input became ", k + 1) + clsStr(p.cls[k]).substr(0, 300));
    }
    if (f.n >= 2 && !f.cls.empty()) c.nontrivial(hashStr(text));
    c.add("variables-compared", f.n);
    c.sample(fmt("%d variables, %zu clauses%s: every clause carried over", f.n, f.cls.size(), sl ? ", SATLIB trailer" : ""));
    // and semantically, on small ones
    if (f.n <= 10 && i % 2) {
      for (int a = 0; a < 1 << f.n; a++) {
        bool t1 = true, t2 = true;
        for (auto &k : f.cls) { bool t = false; for (int x : k) if (((a >> (abs(x) - 1)) & 1) == (x > 0)) t = true; t1 = t1 && t; }
        std::vector<int> as(f.n + 1, 0);
        for (int v = 1; v <= f.n; v++) as[v] = a >> (v - 1) & 1;
        t2 = isModel(p, as);
        if (t1 != t2) return bad("models-differ", "an assignment satisfies only one of the two files");
      }
      c.add("model-sets-compared");
    }
  });
}

void C15(Ctx &c) {
  c.forCases([&](Rng &r, long long) {
    Problem p = convProblem(r, false);
    if (!r.chance(95)) for (int v = 1; v <= p.n(); v++) if (p.dom[v] > 200) return;
    str text = writeLayout(r, p, r.chance(50)), out;
    if (r.chance(15)) {                  // two values are the default
      str t;
      int left = 0;
      for (size_t a = 0; a < text.size();) {
        size_t b = text.find('\n', a);
        b = b == str::npos ? text.size() : b + 1;
        str line = text.substr(a, b - a);
        int v, d;
        if (line[0] == 'd' && sscanf(line.c_str(), "d %d %d", &v, &d) == 2 && d == 2 && r.chance(60)) left++; else t += line;
        a = b;
      }
      text = t;
      if (left) c.add("domain-lines-left-out", left);
    }
    RunRes s = convert(c, "-linenc", text, out, r.chance(20));
    auto bad = [&](const str &kind, const str &d) { c.violation(kind, d, convBundle("-linenc", text, out, s)); };
    if (crashed(s) || s.cpuKilled()) return bad("no-output", "the conversion does not end normally: " + s.describe());
    if (failedRun(c, s)) return;
    Cnf f; int nv, nc, want; str why;
    if (!parseCnf(out, f, nv, nc, why)) return bad("malformed-output", "the output is not a DIMACS CNF: " + why);
    auto at = linAtoms(p, want);
    if (nc != (int)f.cls.size()) return bad("header-clauses", fmt("the header says %d clauses, the file has %zu", nc, f.cls.size()));
    if (nv < want) return bad("header-variables", fmt("the header says %d variables, the encoding needs %d", nv, want));
    c.add("problem:" + p.kind);
    for (int v = 1; v <= p.n(); v++) c.add(p.dom[v] == 1 ? "variables-of-1-value" : p.dom[v] == 2 ? "variables-of-2-values" : "variables-of-more-values");
    str d, k = compareEncoding(c, r, p, f, at, d);
    if (!k.empty()) return bad(k, d);
    if (nv != want) return bad("header-variables", fmt("the header says %d variables, the file uses %d", nv, want));
    if (p.n() >= 1 && !p.cls.empty()) c.nontrivial(hashStr(text));
    c.sample(fmt("%s, %d variables, %zu clauses: %d boolean variables, %zu clauses, same models", p.kind.c_str(), p.n(), p.cls.size(), nv, f.cls.size()));
  });
}

static bool parseQuad(const str &text, const Problem &p, const std::vector<int> &first, Cnf &f, int &nv, int &nc, str &why) {
  nv = nc = -1;
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == str::npos) e = text.size();
    str l = text.substr(i, e - i);
    i = e + 1;
    size_t q = l.find_first_not_of(" \t");
    if (q == str::npos || l[0] == 'c') continue;
    if (l[0] == 'p') {
      if (nv >= 0) { why = "second p line"; return false; }
      if (sscanf(l.c_str(), "p cnf %d %d", &nv, &nc) != 2) { why = "bad p line: " + l; return false; }
      continue;
    }
    if (nv < 0) { why = "clause before the p line"; return false; }
    std::vector<int> k;
    bool done = false;
    while (q != str::npos) {
      size_t z = l.find_first_of(" \t", q);
      str w = l.substr(q, z == str::npos ? str::npos : z - q);
      q = z == str::npos ? z : l.find_first_not_of(" \t", z);
      if (done) { why = "text after the final 0: " + l.substr(0, 80); return false; }
      if (w == "0") { done = true; continue; }
      int v, d; char tail;
      if (sscanf(w.c_str(), "%d=%d%c", &v, &d, &tail) != 2) { why = "bad atom '" + w + "'"; return false; }
      int x = v < 0 ? -1 : 1;
      v = abs(v);
      if (v < 1 || v > p.n() || d < 0 || d >= p.dom[v]) { why = "atom '" + w + "' is not a variable and value of the problem"; return false; }
      k.push_back(x * (first[v] + d));
    }
    f.cls.push_back(k);
  }
  if (nv < 0) { why = "no p line"; return false; }
  f.n = first[p.n() + 1] - 1;
  return true;
}

void C16(Ctx &c) {
  c.forCases([&](Rng &r, long long) {
    Problem p = convProblem(r, true);
    str text = writeLayout(r, p, r.chance(50)), out;
    RunRes s = convert(c, "-quadenc", text, out, r.chance(20));
    auto bad = [&](const str &kind, const str &d) { c.violation(kind, d, convBundle("-quadenc", text, out, s)); };
    if (crashed(s) || s.cpuKilled()) return bad("no-output", "the conversion does not end normally: " + s.describe());
    if (failedRun(c, s)) return;
    std::vector<int> first(p.n() + 2, 1);
    for (int v = 1; v <= p.n(); v++) first[v + 1] = first[v] + p.dom[v];
    Cnf f; int nv, nc; str why;
    if (!parseQuad(out, p, first, f, nv, nc, why)) return bad("malformed-output", why);
    if (nv != f.n) return bad("header-variables", fmt("the header says %d atoms, the problem has %d", nv, f.n));
    if (nc != (int)f.cls.size()) return bad("header-clauses", fmt("the header says %d clauses, the file has %zu", nc, f.cls.size()));
    c.add("problem:" + p.kind);
    int big = 0;
    for (int v = 1; v <= p.n(); v++) big = std::max(big, p.dom[v]);
    c.maxi("most-values", big);
    str d, k = compareEncoding(c, r, p, f, [&](int v, int x) { return first[v] + x; }, d);
    if (!k.empty()) return bad(k, d);
    if (p.n() >= 1 && !p.cls.empty()) c.nontrivial(hashStr(text));
    c.sample(fmt("%s, %d variables, largest domain %d, %zu clauses: %d atoms, %zu clauses, same models", p.kind.c_str(), p.n(), big, p.cls.size(), nv, f.cls.size()));
  });
}

// ------------------------------------------------------------------------------------------------ generators

struct GenReq {
  int var, clause, size, dom, drand, sat, boolean;
  bool setSize, setSat, setDom, setDrand, setBool;
  std::vector<std::vector<str>> opts() const {
    std::vector<std::vector<str>> o = {{"-var", std::to_string(var)}, {"-clause", std::to_string(clause)}, {"-file", "gen.out"}};
    if (setSize) o.push_back({"-clausesize", std::to_string(size)});
    if (setSat) o.push_back({"-sat", std::to_string(sat)});
    if (setDom) o.push_back({"-domain", std::to_string(dom)});
    if (setDrand) o.push_back({"-drand", std::to_string(drand)});
    if (setBool) o.push_back({"-bool", std::to_string(boolean)});
    return o;
  }
};
static GenReq rndGen(Rng &r, bool fin) {
  GenReq g;
  g.var = r.chance(70) ? r.range(3, 12) : r.chance(50) ? r.range(1, 3) : r.range(13, 60);
  g.setSize = r.chance(80) || g.var < 3;
  g.size = g.setSize ? r.range(1, std::min(g.var, r.chance(85) ? 4 : 12)) : 3;
  g.setDom = fin && r.chance(85);
  g.dom = g.setDom ? (r.chance(60) ? r.range(1, 5) : r.chance(85) ? r.range(2, 40) : r.chance(90) ? r.range(100, 1500) : r.range(30000, 200000)) : 10;
  if ((long long)g.dom * g.var > 400000) g.dom = 400000 / g.var;
  g.setDrand = fin && r.chance(60);
  g.drand = g.setDrand ? r.below(2) : 0;
  g.setSat = r.chance(60);
  g.sat = g.setSat ? (r.chance(70) ? 1 : 0) : 1;
  g.setBool = fin || r.chance(60);
  g.boolean = fin;
  // with many clauses a random problem would almost surely be contradictory
  if (r.below(500) == 0) {               // tens of thousands of variables or clauses
    bool w = r.chance(50);
    g.var = w ? r.range(33000, 70000) : r.range(13, 300);
    g.clause = w && r.chance(60) ? r.range(1, 2000) : r.range(33000, 70000);
    return g;
  }
  g.clause = r.chance(10) ? r.below(3) : r.chance(60) ? g.var * r.range(6, 20) : r.range(1, 60);
  return g;
}
static RunRes generate(Ctx &c, Rng &r, const GenReq &g, str &out, str &cmd) {
  Runner &rn = c.runner("src");
  str o = rn.dir() + "/gen.out";
  if (r.chance(20)) writeFile(o, str(4000, '5') + "\n"); else remove(o.c_str());
  auto op = g.opts();
  r.shuffle(op);
  RunReq q;
  q.args = {"-genben"};
  for (auto &x : op) for (auto &y : x) q.args.push_back(y);
  q.baseSec = 1000000000 + (long long)(r.next() % 2000000000ULL);
  q.cpuSec = 10;
  cmd = cmdOf(q.args) + fmt("   (at time %lld)", q.baseSec);
  RunRes s = rn.run(q);
  c.evaluations++;
  out.clear();
  readFile(o, out);
  return s;
}

void C17(Ctx &c) {
  c.forCases([&](Rng &r, long long) {
    GenReq g = rndGen(r, true);
    str out, cmd;
    RunRes s = generate(c, r, g, out, cmd);
    auto bad = [&](const str &kind, const str &d) { c.violation(kind, cmd + ": " + d, {{"output", out}, {"command.txt", cmd + "\n"}, {"stdout.txt", s.out.substr(0, 5000)}, {"run.txt", s.describe() + "\n"}}); };
    if (crashed(s)) return bad("no-output", "the generator does not end normally: " + s.describe());
    if (failedRun(c, s)) return;
    Problem p; int nv, nc; str why;
    if (!parseExt(out, p, nv, nc, why)) return bad("malformed-output", why);
    if (nv != g.var || p.n() != g.var) return bad("variables", fmt("%d variables asked for, the header says %d, %d declared", g.var, nv, p.n()));
    if (nc != g.clause || (int)p.cls.size() != g.clause) return bad("clauses", fmt("%d clauses asked for, the header says %d, %zu written", g.clause, nc, p.cls.size()));
    int lo = 1 << 30, hi = 0;
    for (int v = 1; v <= p.n(); v++) {
      lo = std::min(lo, p.dom[v]); hi = std::max(hi, p.dom[v]);
      if (!g.drand && p.dom[v] != g.dom) return bad("domain", fmt("domain size %d asked for, variable %d has %d", g.dom, v, p.dom[v]));
      if (g.drand && p.dom[v] > g.dom) return bad("domain", fmt("domain sizes up to %d asked for, variable %d has %d", g.dom, v, p.dom[v]));
    }
    // 30 or more variables of random size are never all of one size
    if (g.drand && g.dom >= 4 && g.var >= 30 && lo == hi) return bad("domain", fmt("random domain sizes up to %d asked for, all %d variables have %d", g.dom, g.var, lo));
    for (auto &k : p.cls) {
      if ((int)k.size() != g.size) return bad("clause-size", fmt("clauses of %d literals asked for: ", g.size) + clsStr(k).substr(0, 200));
      std::set<int> vs;
      for (auto &l : k) if (!vs.insert(l.var).second) return bad("variable-twice", "clause " + clsStr(k).substr(0, 200));
      c.add("clauses-checked");
    }
    c.nontrivial(hashStr(out));
    c.add(g.sat ? "satisfiable-requested" : "random-requested");
    c.add(g.drand ? "random-domains" : "fixed-domains");
    if (g.sat) {
      std::vector<int> m;
      int d = decide(p, steps(p, p.n() <= 12 ? 4000 : 400), &m);
      c.add(d < 0 ? "satisfiability-undecided" : "satisfiability-decided");
      if (d == 0) return bad("unsatisfiable", "a satisfiable problem was asked for");
    }
    c.sample(cmd + ": as asked for");
  });
}

void C18(Ctx &c) {
  c.forCases([&](Rng &r, long long) {
    GenReq g = rndGen(r, false);
    str out, cmd;
    RunRes s = generate(c, r, g, out, cmd);
    auto bad = [&](const str &kind, const str &d) { c.violation(kind, cmd + ": " + d, {{"output", out}, {"command.txt", cmd + "\n"}, {"stdout.txt", s.out.substr(0, 5000)}, {"run.txt", s.describe() + "\n"}}); };
    if (crashed(s)) return bad("no-output", "the generator does not end normally: " + s.describe());
    if (failedRun(c, s)) return;
    Cnf f; int nv, nc; str why;
    if (!parseCnf(out, f, nv, nc, why)) return bad("malformed-output", why);
    if (nv != g.var) return bad("variables", fmt("%d variables asked for, the header says %d", g.var, nv));
    if (nc != g.clause || (int)f.cls.size() != g.clause) return bad("clauses", fmt("%d clauses asked for, the header says %d, %zu written", g.clause, nc, f.cls.size()));
    bool neg = false, pos = false;
    for (auto &k : f.cls) {
      if ((int)k.size() != g.size) return bad("clause-size", fmt("clauses of %d literals asked for, one has %zu", g.size, k.size()));
      std::set<int> ls;
      for (int x : k) { if (!ls.insert(x).second) return bad("literal-twice", fmt("literal %d twice in a clause", x)); neg |= x < 0; pos |= x > 0; }
      c.add("clauses-checked");
    }
    c.nontrivial(hashStr(out));
    c.add(g.sat ? "satisfiable-requested" : "random-requested");
    if (g.sat) {
      Bool b(f);
      long long budget = 300000;
      int d = b.start() ? b.sat(budget) : 0;
      c.add(d < 0 ? "satisfiability-undecided" : "satisfiability-decided");
      if (d == 0) return bad("unsatisfiable", "a satisfiable problem was asked for");
    }
    c.sample(cmd + ": as asked for");
  });
}

// ------------------------------------------------------------------------------------------------ chains

void C19(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    Problem p;
    str start;
    GenOpt o = convOpt();
    if (i % 4 == 0) {                         // from the generators
      bool fin = r.chance(60);
      GenReq g = rndGen(r, fin);
      g.var = std::min(g.var, 12); g.size = std::min(g.size, g.var); g.setSize = true; g.dom = std::min(g.dom, 6); g.setDom = fin;
      str out, cmd;
      RunRes s = generate(c, r, g, out, cmd);
      if (failedRun(c, s)) return;
      int nv, nc; str why;
      if (fin) { if (!parseExt(out, p, nv, nc, why)) { c.add("generator-output-unreadable"); return; } start = out; p.kind = "generated"; }
      else {
        Cnf f;
        if (!parseCnf(out, f, nv, nc, why)) { c.add("generator-output-unreadable"); return; }
        str ext;
        s = convert(c, "-b2f", out, ext);
        if (failedRun(c, s)) return;
        p.kind = "generated-boolean";
        for (int v = 1; v <= f.n; v++) p.dom.push_back(2);
        for (auto &k : f.cls) { Cls q; for (int x : k) q.push_back({abs(x), x > 0, true}); p.cls.push_back(q); }
        start = ext;
      }
    } else if (i % 4 == 1) {                  // from a CNF
      Cnf f = genCnf(r, 10);
      if (r.chance(60)) { int want = f.n * r.range(3, 5); while ((int)f.cls.size() < want) { std::vector<int> k; for (int j = 0; j < 3; j++) { int v = r.range(1, f.n); k.push_back(r.chance(50) ? v : -v); } f.cls.push_back(k); } }
      str text = writeCnf(r, f, r.chance(50), r.chance(10)), ext;
      RunRes s = convert(c, "-b2f", text, ext);
      if (failedRun(c, s)) return;
      p.kind = "cnf";
      for (int v = 1; v <= f.n; v++) p.dom.push_back(2);
      for (auto &k : f.cls) { Cls q; for (int x : k) q.push_back({abs(x), x > 0, true}); p.cls.push_back(q); }
      start = ext;
    } else {
      o.maxDom = r.chance(60) ? 9 : 60;
      p = o.maxDom > 9 && r.chance(60) ? genLargeDomain(r, o) : r.chance(60) ? genSmall(r, o) : r.chance(50) ? genStructured(r, o) : r.chance(50) ? genMid(r, o) : genPlanted(r, o, 3, 12);
      start = writeLayout(r, p, r.chance(30));
    }
    Truth t = truthOf(p, 3000, 40000);
    int expect = t.sat;
    str text = start, path = "solve";
    Problem cur = p;
    // a model of the current form, read back to a model of p
    std::vector<std::function<std::vector<int>(const std::vector<int> &)>> back;
    int rounds = r.range(1, p.n() <= 8 ? 3 : 2);
    for (int k = 0; k <= rounds; k++) {
      if (k > 0) {
        str cnf, ext;
        RunRes s = convert(c, "-linenc", text, cnf);
        if (failedRun(c, s)) return;
        s = convert(c, "-b2f", cnf, ext);
        if (failedRun(c, s)) return;
        int nv;
        auto at = linAtoms(cur, nv);
        Problem q = cur;
        back.push_back([at, q](const std::vector<int> &m) {
          std::vector<int> a(q.n() + 1, -1);
          a[0] = 0;
          for (int v = 1; v <= q.n(); v++) for (int d = 0; d < q.dom[v]; d++) {
            int x = at(v, d);
            if (abs(x) >= (int)m.size()) return std::vector<int>();
            if ((m[abs(x)] == 1) == (x > 0)) { if (a[v] >= 0) return std::vector<int>(); a[v] = d; }
          }
          for (int v = 1; v <= q.n(); v++) if (a[v] < 0) return std::vector<int>();
          return a;
        });
        text = ext;
        path += " <- b2f <- linenc";
        Problem nx;
        nx.kind = "converted";
        for (int v = 0; v < nv; v++) nx.dom.push_back(2);
        cur = nx;      // the clauses are not needed to read models back
      }
      int runs = k == 0 ? 1 : 2;
      for (int j = 0; j < runs; j++) {
        Cfg g = rndCfg(r, cur.n() <= 14);
        SolveRun s = solveText(c, "src", text, g, 300000);
        if (!s.good || s.out.verdict == V_TIMEOUT) continue;
        c.add(fmt("answers-after-%d-rounds", k));
        c.nontrivial(mix64(hashStr(text) ^ hashStr(g.name())));
        int sat = s.out.verdict == V_SAT;
        auto files = [&] { auto f = bundle(p, s, text); f["start"] = start; f["problem.mv"] = writePlain(p); f["path.txt"] = path + "\n"; return f; };
        if (expect < 0) expect = sat;
        else if (sat != expect) { c.violation("answer-changed", path + ", " + g.name() + ": " + verdictName(s.out.verdict) + ", but the " + p.kind + " problem is " + (expect ? "satisfiable" : "unsatisfiable"), files()); return; }
        if (sat) {
          std::vector<int> m(cur.n() + 1, -1);
          bool full = (int)s.out.model.size() >= cur.n();
          for (auto &l : s.out.model) if (l.var >= 1 && l.var <= cur.n()) m[l.var] = l.val;
          for (int v = 1; v <= cur.n(); v++) if (m[v] < 0) full = false;
          m[0] = 0;
          if (!full) { c.violation("model-incomplete", path + ", " + g.name() + ": the model of the converted problem leaves variables out", files()); return; }
          for (size_t b = back.size(); b-- > 0 && !m.empty();) m = back[b](m);
          if (m.empty()) { c.violation("model-not-translatable", path + ", " + g.name() + ": the model of the converted problem stands for no assignment of the original", files()); return; }
          c.add("models-translated-back");
          if (!isModel(p, m)) { c.violation("model-wrong", path + ", " + g.name() + ": the model translated back does not satisfy the original problem", files()); return; }
        }
        c.sample(path + fmt(" on a %s problem of %d variables, %s: %s", p.kind.c_str(), p.n(), g.name().c_str(), verdictName(s.out.verdict)));
      }
    }
  });
}
