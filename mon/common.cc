#include "props.h"
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>

std::vector<str> Cfg::args(const str &file, Rng *sh) const {
  std::vector<std::vector<str>> o;
  o.push_back({"-file", file});
  if (!bitvec && mode == M_WL) o.push_back({"-wl"});
  if (!heur.empty()) o.push_back({heur});
  if (k > 0) o.push_back({restartOpt, std::to_string(k)});
  if (verbose) o.push_back({"-verbose"});
  if (sh) sh->shuffle(o);
  std::vector<str> a = {mode == M_CHRONO && !bitvec ? "-solvech" : "-solvenc"};
  for (auto &x : o) for (auto &y : x) a.push_back(y);
  return a;
}
str Cfg::name() const {
  str s = bitvec ? "bitvec" : mode == M_CHRONO ? "chrono" : mode == M_NC ? "nc" : "wl";
  if (!heur.empty()) s += heur;
  if (k) s += "/k=" + std::to_string(k);
  return s;
}

// "name#k": another server process of the same program, with another environment and address layout
bool Ctx::haveVariant(const str &v) { return access((binDir + "/" + v.substr(0, v.find('#'))).c_str(), X_OK) == 0; }
Runner &Ctx::runner(const str &v) {
  auto &p = runners[v];
  if (!p) p.reset(new Runner(binDir + "/" + v.substr(0, v.find('#')), work, v));
  return *p;
}

static double nowSec() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

void Ctx::violation(const str &kind, const str &detail, const std::map<str, str> &files) {
  add("violations:" + kind);
  for (auto &v : violations) if (v.kind == kind) { if (count["violations:" + kind] > 3) { if (count["violations:" + kind] > 200) stop = true; return; } }
  str d = replayRoot + "/" + prop + "-s" + std::to_string(seed) + "-c" + std::to_string(caseIdx) + "-" + std::to_string(violations.size()) + "-" + kind;
  mkdir(replayRoot.c_str(), 0755);
  mkdir(d.c_str(), 0755);
  for (auto &f : files) writeFile(d + "/" + f.first, f.second);
  writeFile(d + "/README", "property " + prop + "\nkind " + kind + "\n" + detail + "\n\nReplay: VERIF_SEED=" + std::to_string(seed) + " VERIF_TIER=" + tier + " python3 /verif/check.py " + prop + " --case " + std::to_string(caseIdx) + "\n");
  violations.push_back({kind, detail, d});
  // tells the other shards
  if (violations.size() == 1) { writeFile(work + "/../found", kind + "\n"); foundAt = nowSec(); }
  if (violations.size() >= 8) stop = true;
}

void Ctx::forCases(const std::function<void(Rng &, long long)> &f) {
  double t0 = nowSec();
  for (long long i = shard; i < cases && !stop; i += nshards) {
    if (only >= 0 && i != only) continue;
    caseIdx = i;
    Rng r(mix64(seed * 0x9e3779b97f4a7c15ULL ^ hashStr(prop)) + (u64)i * 0xd1342543de82ef95ULL);
    f(r, i);
    // Wall-clock time only limits how much is explored, never what is judged: after a
    // violation somewhere there is no need to finish the campaign.
    double t = nowSec();
    if (foundAt == 0 && access((work + "/../found").c_str(), F_OK) == 0) foundAt = t;
    if (foundAt > 0 && t - foundAt > 6) { add("stopped-after-violation"); break; }
    if (t - t0 > (tier == "thorough" ? 3000 : 420)) { add("stopped-at-time-budget"); break; }
    if (hangs >= 6) { add("stopped-after-hangs"); break; }
  }
}

bool Ctx::noteBadRun(const RunRes &r) {
  if (r.ok0()) return false;
  if (r.stepLimitHit) add("run:step-limit");
  else if (r.cpuKilled()) { add("run:cpu-limit"); hangs++; }
  else if (r.wallKilled()) { add("run:wall-limit"); hangs++; }
  else add("run:" + r.describe());
  return true;
}

static bool hasHung(const Ctx &c) { return c.hangs >= 2; }

SolveRun solveText(Ctx &c, const str &variant, const str &text, const Cfg &cfg, long long stepLimit, const std::vector<str> &extra, RunReq base, Rng *sh) {
  SolveRun s;
  Runner &rn = c.runner(variant);
  str file = "p.mv";
  writeFile(rn.dir() + "/" + file, text);
  s.args = cfg.args(file, sh);
  for (auto &e : extra) s.args.push_back(e);
  base.args = s.args;
  base.stepLimit = stepLimit;
  if (hasHung(c) && base.cpuSec == RunReq().cpuSec) base.cpuSec = 8;
  s.res = rn.run(base);
  c.evaluations++;
  s.out = parseSolve(s.res.out, cfg.bitvec);
  s.good = s.res.ok0() && (s.out.verdict == V_SAT || s.out.verdict == V_UNSAT || s.out.verdict == V_TIMEOUT);
  if (s.good) c.add(str("verdict:") + verdictName(s.out.verdict));
  else if (s.res.ok0()) c.add("run:no-single-verdict");
  else c.noteBadRun(s.res);
  return s;
}
SolveRun solveProblem(Ctx &c, const Problem &p, const Cfg &cfg, long long stepLimit) {
  return solveText(c, cfg.bitvec ? "bv" : "src", writePlain(p), cfg, stepLimit);
}

str cmdOf(const std::vector<str> &a) {
  str s = "mvl-solver";
  for (auto &x : a) s += " " + x;
  return s;
}
std::map<str, str> bundle(const Problem &p, const SolveRun &s, const str &text) {
  std::map<str, str> f;
  f["p.mv"] = text.empty() ? writePlain(p) : text;
  f["command.txt"] = cmdOf(s.args) + "\n";
  f["stdout.txt"] = s.res.out.substr(0, 200000);
  if (!s.res.err.empty()) f["stderr.txt"] = s.res.err.substr(0, 100000);
  f["run.txt"] = s.res.describe() + "\n";
  return f;
}

static const long long KS[] = {0, 0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 25, 100, 300, 65539, 2147483647};
Cfg rndCfg(Rng &r, bool allowChrono) {
  Cfg c;
  int w = r.below(allowChrono ? 10 : 8);
  if (w < 4) { c.mode = M_NC; static const char *h[] = {"", "-vsids", "-vsids_pos", "-lazy"}; c.heur = h[r.below(4)]; }
  else if (w < 8) { c.mode = M_WL; static const char *h[] = {"", "-vsids_pos", "-lazy", "-vsids"}; c.heur = h[r.below(4)]; }
  else { c.mode = M_CHRONO; c.heur = r.chance(50) ? "" : "-lazy"; }
  if (c.mode != M_CHRONO) c.k = KS[r.below(r.chance(15) ? 16 : 13)];
  return c;
}
Cfg rndBvCfg(Rng &r) {
  Cfg c;
  c.bitvec = true;
  c.mode = M_WL;
  c.heur = r.chance(50) ? "" : "-vsids";
  c.k = KS[r.below(r.chance(15) ? 16 : 13)];
  return c;
}
std::vector<Cfg> allCfgs() {
  std::vector<Cfg> v;
  for (auto h : {"", "-lazy"}) { Cfg c; c.mode = M_CHRONO; c.heur = h; v.push_back(c); }
  for (auto h : {"", "-vsids", "-vsids_pos", "-lazy"}) { Cfg c; c.mode = M_NC; c.heur = h; v.push_back(c); }
  for (auto h : {"", "-vsids_pos", "-lazy"}) { Cfg c; c.mode = M_WL; c.heur = h; v.push_back(c); }
  return v;
}

str checkModel(const Problem &p, const SolveOut &o) {
  if (!o.hasModel) return "SAT without a printed model";
  if (o.modelGarbage) return "unreadable line in the printed model";
  std::vector<int> a(p.n() + 1, -1);
  for (auto &l : o.model) {
    if (l.var < 1 || l.var > p.n()) return fmt("model names variable %d, which the problem does not have", l.var);
    if (l.val < 0 || l.val >= p.dom[l.var]) return fmt("model gives variable %d the value %d outside its domain of %d", l.var, l.val, p.dom[l.var]);
    if (a[l.var] != -1) return fmt("model gives variable %d twice (%d and %d)", l.var, a[l.var], l.val);
    a[l.var] = l.val;
  }
  for (int v = 1; v <= p.n(); v++) if (a[v] == -1) return fmt("model gives no value to variable %d", v);
  for (auto &c : p.cls) if (!clsTrue(c, a)) return "model falsifies clause " + clsStr(c).substr(0, 300);
  return "";
}

str checkBvModel(const Problem &p, const SolveOut &o) {
  if (!o.hasModel) return "SAT without a printed model";
  if (o.modelGarbage) return "unreadable line in the printed model";
  std::vector<u64> a(p.n() + 1, 0);
  std::vector<int> seen(p.n() + 1, 0);
  for (auto &b : o.bvModel) {
    if (b.first == 0) continue;
    if (b.first < 0 || b.first > p.n()) return fmt("model names variable %d", b.first);
    if (seen[b.first]++) return fmt("model gives variable %d twice", b.first);
    a[b.first] = b.second;
  }
  for (int v = 1; v <= p.n(); v++) {
    if (!seen[v]) return fmt("model gives no values to variable %d", v);
    if (!a[v]) return fmt("model gives variable %d an empty set", v);
    if (p.dom[v] < 64 && (a[v] >> p.dom[v])) return fmt("model gives variable %d a value outside its domain of %d", v, p.dom[v]);
  }
  for (auto &c : p.cls) {
    // some choice falsifies the clause unless, for some variable, the allowed literals cover the whole set
    std::map<int, u64> t;
    for (auto &l : c) {
      u64 full = p.dom[l.var] >= 64 ? ~0ULL : (1ULL << p.dom[l.var]) - 1;
      u64 bit = l.val < 64 ? 1ULL << l.val : 0;
      t[l.var] |= l.eq ? bit : full & ~bit;
    }
    bool ok = false;
    for (auto &x : t) if ((a[x.first] & ~x.second) == 0) ok = true;
    if (!ok) return "some choice from the value sets falsifies clause " + clsStr(c).substr(0, 300);
  }
  return "";
}

std::vector<int> modelOf(const Problem &p, const SolveOut &o) {
  std::vector<int> a(p.n() + 1, -1);
  for (auto &l : o.model) if (l.var >= 1 && l.var <= p.n()) a[l.var] = l.val;
  for (auto &b : o.bvModel) if (b.first >= 1 && b.first <= p.n() && b.second) a[b.first] = __builtin_ctzll(b.second);
  a[0] = 0;
  for (int v = 1; v <= p.n(); v++) if (a[v] < 0 || a[v] >= p.dom[v]) return {};
  return a;
}

Truth truthOf(const Problem &p, long long cap, long long nodes) {
  Truth t;
  if (space(p, cap) <= cap && enumerate(p, cap, t.models)) {
    t.enumerated = true;
    t.sat = !t.models.empty();
    return t;
  }
  if (!p.planted.empty() && isModel(p, p.planted)) { t.sat = 1; return t; }
  t.sat = decide(p, nodes);
  return t;
}

// ------------------------------------------------------------------ strict readers of the two file formats

static std::vector<str> words(const str &l) {
  std::vector<str> w;
  size_t i = 0;
  while (i < l.size()) {
    while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) i++;
    size_t s = i;
    while (i < l.size() && l[i] != ' ' && l[i] != '\t') i++;
    if (i > s) w.push_back(l.substr(s, i - s));
  }
  return w;
}
static bool toInt(const str &s, int &x) {
  char *e;
  long v = strtol(s.c_str(), &e, 10);
  if (s.empty() || *e || v > 2000000000L || v < -2000000000L) return false;
  x = (int)v;
  return true;
}

bool parseCnf(const str &text, Cnf &c, int &nv, int &nc, str &why) {
  nv = nc = -1;
  size_t i = 0;
  std::vector<int> cur;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == str::npos) e = text.size();
    str l = text.substr(i, e - i);
    i = e + 1;
    std::vector<str> w = words(l);
    if (w.empty() || w[0][0] == 'c') continue;
    if (w[0] == "p") {
      if (nv != -1) { why = "second p line"; return false; }
      if (w.size() != 4 || w[1] != "cnf" || !toInt(w[2], nv) || !toInt(w[3], nc)) { why = "bad p line: " + l; return false; }
      continue;
    }
    if (nv == -1) { why = "clause before the p line"; return false; }
    for (auto &x : w) {
      int k;
      if (!toInt(x, k)) { why = "bad literal '" + x + "'"; return false; }
      if (k == 0) { c.cls.push_back(cur); cur.clear(); continue; }
      if (abs(k) > nv) { why = fmt("literal %d, but the header declares %d variables", k, nv); return false; }
      cur.push_back(k);
    }
    if (!cur.empty()) { why = "clause line without final 0: " + l.substr(0, 80); return false; }
  }
  if (nv == -1) { why = "no p line"; return false; }
  c.n = nv;
  return true;
}

bool parseExt(const str &text, Problem &p, int &nv, int &nc, str &why) {
  nv = nc = -1;
  p = Problem();
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == str::npos) e = text.size();
    str l = text.substr(i, e - i);
    i = e + 1;
    std::vector<str> w = words(l);
    if (w.empty() || w[0][0] == 'c') continue;
    if (w[0] == "p") {
      if (nv != -1) { why = "second p line"; return false; }
      if (w.size() != 4 || (w[1] != "cnf" && w[1] != "mvcnf") || !toInt(w[2], nv) || !toInt(w[3], nc)) { why = "bad p line: " + l; return false; }
      continue;
    }
    if (nv == -1) { why = "line before the p line: " + l.substr(0, 60); return false; }
    if (w[0] == "d") {
      int v, d;
      if (w.size() != 3 || !toInt(w[1], v) || !toInt(w[2], d)) { why = "bad d line: " + l; return false; }
      if (v != p.n() + 1) { why = fmt("d line of variable %d out of order", v); return false; }
      if (d < 1) { why = fmt("domain of variable %d has size %d", v, d); return false; }
      if (!p.cls.empty()) { why = "d line after a clause"; return false; }
      p.dom.push_back(d);
      continue;
    }
    Cls c;
    bool done = false;
    for (auto &x : w) {
      if (done) { why = "text after the final 0: " + l.substr(0, 80); return false; }
      if (x == "0") { done = true; continue; }
      size_t q = x.find("!=");
      bool eq = q == str::npos;
      if (eq) q = x.find('=');
      Lit t;
      if (q == str::npos || !toInt(x.substr(0, q), t.var) || !toInt(x.substr(q + (eq ? 1 : 2)), t.val)) { why = "bad literal '" + x + "'"; return false; }
      t.eq = eq;
      if (t.var < 1 || t.var > p.n()) { why = fmt("literal of undeclared variable %d", t.var); return false; }
      if (t.val < 0 || t.val >= p.dom[t.var]) { why = fmt("value %d of variable %d outside its domain of %d", t.val, t.var, p.dom[t.var]); return false; }
      c.push_back(t);
    }
    if (!done) { why = "clause line without final 0: " + l.substr(0, 80); return false; }
    p.cls.push_back(c);
  }
  if (nv == -1) { why = "no p line"; return false; }
  return true;
}
