// C22 (reproducibility), C23 (verbose mode), C28 (files), C29 (options).
#include "props.h"
#include <csignal>
#include <dirent.h>
#include <filesystem>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>

namespace {
GenOpt opt(bool bv) { GenOpt o; o.maxDom = bv ? 64 : 300; return o; }
Problem anyProblem(Rng &r, bool bv) {
  GenOpt o = opt(bv);
  int w = r.below(100);
  if (w < 30) return genSmall(r, o);
  if (w < 45) return genStructured(r, o);
  if (w < 72) return genMid(r, o);
  if (w < 86) return genPlanted(r, o, 4, 24);
  if (w < 92) return genLargeDomain(r, o);
  if (w < 96) return genLong(r, o);
  return genChain(r, o, r.range(10, 200));
}
Cfg anyCfg(Rng &r, bool bv, const Problem &p) { return bv ? rndBvCfg(r) : rndCfg(r, p.n() <= 20 || p.kind == "chain"); }
bool crashed(const RunRes &s) { return !s.serverDied && !s.stepLimitHit && (s.sanitizer() || (s.sig() && !s.cpuKilled() && !s.wallKilled() && s.sig() != SIGXFSZ && s.sig() != SIGKILL)); }
str lower(str s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
}

// ------------------------------------------------------------------------------------------------ C22

// what a run printed, without the times (numbers with four decimals)
static str timeless(const str &out) {
  str t;
  size_t i = 0;
  while (i < out.size()) {
    size_t j = i;
    while (j < out.size() && isdigit((unsigned char)out[j])) j++;
    if (j > i && j + 4 < out.size() && out[j] == '.' && isdigit((unsigned char)out[j + 1]) && isdigit((unsigned char)out[j + 2]) && isdigit((unsigned char)out[j + 3]) && isdigit((unsigned char)out[j + 4])) { t += '#'; i = j + 5; continue; }
    if (j == i) j++;
    t.append(out, i, j - i);
    i = j;
  }
  return t;
}

void C22(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    if (i % 6 == 5) {                      // the converters
      static const char *m[] = {"-linenc", "-quadenc", "-b2f", "-genben"};
      static const char *vs[] = {"src", "src#1", "src_O0", "src_O3", "src_clang", "src_pat", "src_zero"};
      str mode = m[r.below(4)], text;
      std::vector<str> gen;
      long long sec = 1000000000 + (long long)(r.next() % 2000000000ULL);   // the generators' seed
      if (mode == "-genben") {
        gen = {"-var", std::to_string(r.range(3, 30)), "-clause", std::to_string(r.range(1, 80)), "-file", "conv.out"};
        if (r.chance(50)) { gen.push_back("-bool"); gen.push_back(std::to_string(r.below(2))); }
        if (r.chance(30)) { gen.push_back("-sat"); gen.push_back(std::to_string(r.below(2))); }
        if (r.chance(30)) { gen.push_back("-drand"); gen.push_back(std::to_string(r.below(2))); }
        if (r.chance(30)) { gen.push_back("-domain"); gen.push_back(std::to_string(r.range(2, 30))); }
        if (r.chance(30)) { gen.push_back("-clausesize"); gen.push_back(std::to_string(r.range(1, 3))); }
        text = "(none)";
      } else if (mode == "-b2f") { Cnf f = genCnf(r, r.chance(70) ? 12 : 200); text = writeCnf(r, f, r.chance(60), r.chance(10)); }
      else { GenOpt o; o.maxDom = 60; text = writeLayout(r, genAny(r, o), r.chance(50)); }
      str first, firstV;
      for (int j = 0; j < 4; j++) {
        str v = j == 0 ? "src" : vs[r.below(7)];
        Runner &rn = c.runner(v);
        writeFile(rn.dir() + "/conv.in", text);
        remove((rn.dir() + "/conv.out").c_str());
        RunReq q; q.args = {mode, "-file", "conv.in", "-model", "conv.out"};
        if (!gen.empty()) { q.args = {mode}; for (auto &x : gen) q.args.push_back(x); }
        q.perturb = r.chance(50) ? r.below(256) : -1;
        q.baseSec = gen.empty() ? 1000000000 + (long long)(r.next() % 2000000000ULL) : sec;
        RunRes s = rn.run(q);
        c.evaluations++;
        if (s.serverDied || s.cpuKilled() || s.wallKilled()) { c.noteBadRun(s); continue; }
        str out;
        readFile(rn.dir() + "/conv.out", out);
        out += "\nended with " + std::to_string(s.status);
        c.add("program:" + v);
        if (firstV.empty()) { first = out; firstV = v; continue; }
        c.add("outputs-compared");
        c.nontrivial(mix64(hashStr(text) ^ hashStr(v) ^ hashStr(cmdOf(q.args)) ^ (gen.empty() ? 0 : (u64)sec)));
        if (out != first) {
          c.violation("output-differs", mode + ": " + firstV + " and " + v + " write different files from the same input", {{"input", text}, {"output-" + firstV, first}, {"output-" + v, out}, {"command.txt", cmdOf(q.args) + "\n"}});
          return;
        }
      }
      return;
    }
    bool bv = r.chance(35);
    Problem p = anyProblem(r, bv);
    Cfg g = anyCfg(r, bv, p);
    str text = r.chance(30) ? writeLayout(r, p, r.chance(50)) : writePlain(p);
    std::vector<str> vs = bv ? std::vector<str>{"bv", "bv#1", "bv#2", "bv_O0", "bv_O3", "bv_pat"} : std::vector<str>{"src", "src#1", "src#2", "src_O0", "src_O3", "src_clang", "src_pat", "src_zero"};
    SolveRun first; str firstD;
    int n = 5;
    for (int j = 0; j < n; j++) {
      str v = j == 0 ? vs[0] : j == 1 ? vs[1] : vs[r.below((int)vs.size())];
      RunReq q;
      q.perturb = j == 0 ? -1 : r.chance(70) ? r.below(256) : -1;
      if (j) q.baseSec = 1000000000 + (long long)(r.next() % 2000000000ULL);
      q.baseUsec = j ? r.below(1000000) : 0;
      SolveRun s = solveText(c, v, text, g, 300000, {}, q);
      str d = v + (q.perturb >= 0 ? fmt(", fresh memory filled with 0x%02x", q.perturb ^ 0xff) : "");
      if (s.res.serverDied || s.res.stepLimitHit || s.res.cpuKilled() || s.res.wallKilled()) { if (j == 0) return; continue; }
      c.add("program:" + v);
      if (q.perturb >= 0) c.add("runs-with-filled-memory");
      if (j == 0) { first = s; firstD = d; continue; }
      c.add("runs-compared");
      if (s.out.backtracks > 0) { c.nontrivial(mix64(hashStr(text) ^ hashStr(g.name() + v))); c.add("backtracks-compared", s.out.backtracks); }
      str a = first.out.canonical() + fmt(" ended with %d", first.res.status), b = s.out.canonical() + fmt(" ended with %d", s.res.status);
      if (a != b) {
        auto f = bundle(p, first, text);
        for (auto &x : bundle(p, s, text)) f["other_" + x.first] = x.second;
        f["canonical.txt"] = a + "\n" + b + "\n";
        c.violation("runs-differ", g.name() + ": " + firstD + ": " + verdictName(first.out.verdict) + " " + first.out.stats() + " (" + first.res.describe() + "); " + d + ": " + verdictName(s.out.verdict) + " " + s.out.stats() + " (" + s.res.describe() + ")", f);
        return;
      }
      str ta = timeless(first.res.out), tb = timeless(s.res.out);
      c.add("bytes-compared", (long long)ta.size());
      if (ta != tb) {
        auto f = bundle(p, first, text);
        for (auto &x : bundle(p, s, text)) f["other_" + x.first] = x.second;
        size_t at = 0;
        while (at < ta.size() && at < tb.size() && ta[at] == tb[at]) at++;
        c.violation("output-differs", g.name() + ": " + firstD + " and " + d + fmt(" print different things from byte %zu on", at), f);
        return;
      }
      c.sample(g.name() + " on " + p.kind + ": " + firstD + " and " + d + ": " + verdictName(s.out.verdict) + " " + s.out.stats() + ", same model");
    }
  });
}

// ------------------------------------------------------------------------------------------------ C23

void C23(Ctx &c) {
  c.forCases([&](Rng &r, long long) {
    bool bv = r.chance(40);
    Problem p = anyProblem(r, bv);
    str text = r.chance(30) ? writeLayout(r, p, r.chance(50)) : writePlain(p), variant = bv ? "bv" : "src";
    for (int j = 0; j < 3; j++) {
      Cfg g = anyCfg(r, bv, p);
      RunReq q;
      std::vector<str> extra;
      if (r.chance(12)) { extra = {"-time", std::to_string(r.range(1, 30))}; q.stepUsec = r.range(1000, 300000); }
      SolveRun a = solveText(c, variant, text, g, 2500, extra, q);
      if (a.res.serverDied || a.res.stepLimitHit || a.res.cpuKilled() || a.res.wallKilled()) continue;
      g.verbose = true;
      SolveRun b = solveText(c, variant, text, g, 10000, extra, q, r.chance(50) ? &r : nullptr);
      if (b.res.serverDied || b.res.cpuKilled() || b.res.wallKilled() || b.res.sig() == SIGXFSZ || (!extra.empty() && b.res.stepLimitHit)) continue;
      c.add("pairs-compared");
      c.add("config:" + g.name().substr(0, g.name().find('/')));
      c.add("log-bytes-added", (long long)b.res.out.size() - (long long)a.res.out.size());
      if (b.res.out.size() > a.res.out.size() + 20) c.nontrivial(mix64(hashStr(text) ^ hashStr(g.name())));
      if (a.out.backtracks > 0) c.add("pairs-with-backtracks");
      str ca = a.out.canonical() + fmt(" ended with %d", a.res.status), cb = b.out.canonical() + fmt(" ended with %d", b.res.status);
      // a clock read more or less under a moving clock may move the moment of a timeout
      if (ca != cb && !extra.empty() && (a.out.verdict == V_TIMEOUT || b.out.verdict == V_TIMEOUT)) {
        bool fewer = a.res.reads != b.res.reads;
        if (!fewer) {      // both ran into the limit: how often is the clock read when no time passes?
          RunReq q0 = q;
          q0.stepUsec = 0;
          g.verbose = false;
          SolveRun a0 = solveText(c, variant, text, g, 2500, extra, q0);
          g.verbose = true;
          SolveRun b0 = solveText(c, variant, text, g, 10000, extra, q0);
          fewer = a0.res.stepLimitHit || b0.res.stepLimitHit || b0.res.cpuKilled() || b0.res.wallKilled() || b0.res.sig() == SIGXFSZ || a0.res.reads != b0.res.reads;
        }
        if (fewer) { c.add("timeouts-not-compared"); continue; }
      }
      if (ca != cb) {
        auto f = bundle(p, a, text);
        for (auto &x : bundle(p, b, text)) f["verbose_" + x.first] = x.second;
        f["canonical.txt"] = ca + "\n" + cb + "\n";
        c.violation("verbose-changes-result", g.name() + ": quiet: " + verdictName(a.out.verdict) + " " + a.out.stats() + fmt(" verified=%d (", a.out.verified) + a.res.describe() + "); verbose: " + verdictName(b.out.verdict) + " " + b.out.stats() + fmt(" verified=%d (", b.out.verified) + b.res.describe() + ")", f);
        return;
      }
      c.sample(g.name() + " on " + p.kind + fmt(": %zu bytes of log, ", b.res.out.size()) + verdictName(a.out.verdict) + " " + a.out.stats() + " either way");
    }
  });
}

// ------------------------------------------------------------------------------------------------ C28

namespace {
void scan(const str &d, const str &pre, std::map<str, str> &m) {
  DIR *h = opendir(d.c_str());
  if (!h) return;
  while (struct dirent *e = readdir(h)) {
    str n = e->d_name;
    if (n == "." || n == "..") continue;
    if (pre.empty() && (n.compare(0, 4, "out_") == 0 || n.compare(0, 4, "err_") == 0 || n.compare(0, 7, "server_") == 0)) continue;
    struct stat st;
    str p = d + "/" + n;
    if (lstat(p.c_str(), &st)) continue;
    str id = fmt("%o/", st.st_mode);
    if (S_ISDIR(st.st_mode)) { m[pre + n + "/"] = id; scan(p, pre + n + "/", m); }
    else if (S_ISREG(st.st_mode)) { str x; readFile(p, x); m[pre + n] = id + x; }
    else m[pre + n] = id;
  }
  closedir(h);
}
std::map<str, str> snapshot(const str &d) { std::map<str, str> m; scan(d, "", m); return m; }
// what changed between two snapshots, apart from the allowed file
str changed(const std::map<str, str> &a, const std::map<str, str> &b, const str &allowed) {
  for (auto &x : a) { if (x.first == allowed) continue; auto i = b.find(x.first); if (i == b.end()) return x.first + " is gone"; if (i->second != x.second) return x.first + " was changed"; }
  for (auto &x : b) if (x.first != allowed && !a.count(x.first)) return x.first + " was created";
  return "";
}
// a file name below dir: long folders, unusual characters; the folders are made
str oddPath(Rng &r, const str &dir, const str &last) {
  static const char *names[] = {"a b", "100%s%d", "c.cnf", "0", "1=1!2", "p cnf 1 1", "#x", "\xc3\xa4\xc3\xb6", "d 1 2.txt", "in.txt.gz", "'q'", "a\\b", "in"};
  str rel;
  size_t room = 3600 - std::min<size_t>(dir.size(), 3000);
  int k = r.chance(50) ? r.range(0, 3) : r.range(0, 14);
  while (k-- > 0) {
    str f = names[r.below(13)];
    if (r.chance(70)) f += str(r.range(1, 230), 'x');
    if (rel.size() + f.size() + 260 > room) break;
    rel += f + "/";
    mkdir((dir + rel).c_str(), 0755);
  }
  rel += names[r.below(13)];
  if (r.chance(40)) rel += str(r.range(1, 230), 'y');
  return rel + last;
}
bool saysSo(const RunRes &s) {
  str t = lower(s.out + s.err);
  for (auto k : {"error", "could not", "cannot", "can't", "unable", "fail", "not open", "no such"}) if (t.find(k) != str::npos) return true;
  return false;
}
}

void C28(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    static const char *modes[] = {"-solvenc", "-solvech", "-b2f", "-linenc", "-quadenc", "-genben", "bv"};
    str mode = modes[i % 7];
    bool bv = mode == "bv";
    if (bv) mode = "-solvenc";
    str variant = bv ? "bv" : "src";
    Runner &rn = c.runner(variant);
    str root = rn.dir(), box = root + "/box";
    auto clear = [&] { std::error_code e; if (root.size() > 5) std::filesystem::remove_all(box, e); };   // box: a folder of ours, by its full name
    clear();
    mkdir(box.c_str(), 0755);
    mkdir((box + "/sub").c_str(), 0755);
    bool conv = mode == "-b2f" || mode == "-linenc" || mode == "-quadenc", gen = mode == "-genben", solve = !conv && !gen;
    str text;
    if (mode == "-b2f") { Cnf f = genCnf(r, r.chance(80) ? 12 : 200); text = writeCnf(r, f, r.chance(50), r.chance(10)); }
    else { GenOpt o = opt(bv); o.maxDom = 60; Problem p = genAny(r, o); text = r.chance(50) ? writeLayout(r, p, r.chance(50)) : writePlain(p); }
    str in = r.chance(70) ? "box/in.txt" : "box/sub/in.txt", out = r.chance(70) ? "box/out.txt" : "box/sub/out.txt";
    // scenarios: 0,1 normal; 2 input missing; 3 input unreadable; 4 no input named; 5,6 output cannot be opened
    int sc = r.below(gen ? 3 : solve ? 5 : 7);
    if (gen) sc = sc == 0 ? 0 : 4 + sc;
    bool odd = sc < 2 && r.chance(40);     // long or unusual names
    if (odd) { in = "box/" + oddPath(r, root + "/box/", ".in"); out = "box/" + oddPath(r, root + "/box/", ".out"); }
    writeFile(root + "/" + in, text);
    writeFile(box + "/other.txt", "not touched\n");
    bool stale = sc < 2 && !solve && r.chance(50);
    if (stale) writeFile(root + "/" + out, str(r.range(1, 60000), '8') + "\nold 1=1 0\n");
    int uid = -1;
    str inArg = in, outArg = out;
    str what = "a normal run";
    if (sc == 2) { inArg = r.chance(50) ? "box/none.txt" : "box/none/in.txt"; what = "the input file does not exist"; }
    else if (sc == 3) { chmod((root + "/" + in).c_str(), 0600); uid = 65534; chmod(box.c_str(), 0777); what = "the input file cannot be read"; }
    else if (sc == 4) { inArg.clear(); what = "no input file is named"; }
    else if (sc == 5) { outArg = "box/none/out.txt"; what = "the folder of the output file does not exist"; }
    else if (sc == 6) { uid = 65534; what = "the output file cannot be created"; }
    else if (odd) {
      if (r.chance(30)) { inArg = root + "/" + in; outArg = root + "/" + out; }
      what = fmt("file names of %zu characters", inArg.size() / 100 * 100);
    }
    else if (r.chance(30)) {               // somebody else's file, which may only be read
      chmod((root + "/" + in).c_str(), 0444);
      if (r.chance(60)) {
        uid = 65534;
        chmod(box.c_str(), 0777); chmod((box + "/sub").c_str(), 0777);
        if (stale) chmod((root + "/" + out).c_str(), 0666);
        what = "a normal run on somebody else's input file";
      }
    }
    std::vector<std::vector<str>> op;
    if (gen) {
      op = {{"-var", std::to_string(r.range(4, 12))}, {"-clause", std::to_string(r.range(1, 40))}, {"-bool", std::to_string(r.below(2))}, {"-domain", std::to_string(r.range(2, 6))}, {"-file", outArg}};
    } else {
      if (!inArg.empty()) op.push_back({"-file", inArg});
      if (conv) op.push_back({"-model", outArg});
      if (solve && !bv && mode == "-solvenc" && r.chance(50)) op.push_back({"-wl"});
      if (solve && r.chance(20)) op.push_back({"-verbose"});
      if (solve && mode == "-solvenc" && r.chance(30)) op.push_back({"-restarts", "3"});
    }
    r.shuffle(op);
    RunReq q;
    q.args = {mode};
    for (auto &o : op) for (auto &x : o) q.args.push_back(x);
    q.uid = uid;
    q.stepLimit = 3000;
    auto before = snapshot(root);
    RunRes s = rn.run(q);
    c.evaluations++;
    auto after = snapshot(root);
    str label = (bv ? "bitvec " : "") + mode;
    if (s.serverDied || s.cpuKilled() || s.wallKilled() || s.code() == 97) { c.noteBadRun(s); clear(); return; }
    c.add("mode:" + label);
    c.add("situation:" + what);
    c.nontrivial(mix64(hashStr(cmdOf(q.args)) ^ hashStr(text)));
    c.add("files-compared", (long long)before.size());
    SolveOut so = parseSolve(s.out, bv);
    auto bad = [&](const str &k, const str &d) {
      c.violation(k, label + ", " + what + ": " + d, {{"in.txt", text}, {"command.txt", cmdOf(q.args) + fmt("   (user %d)\n", uid)}, {"stdout.txt", s.out.substr(0, 20000)}, {"stderr.txt", s.err.substr(0, 20000)}, {"run.txt", s.describe() + "\n"}});
      clear();
    };
    if (outArg[0] == '/') outArg = out;
    str ch = changed(before, after, solve ? "" : outArg);
    if (!ch.empty()) return bad("files-changed", ch);
    if (sc >= 2) {
      if (so.verdictLines) return bad("verdict-without-input", str("prints ") + verdictName(so.verdict));
      if (!s.exited()) return bad("not-reported", s.describe());
      if (s.code() == 0) return bad("exit-status", "exit status 0");
      if (!saysSo(s)) return bad("not-reported", "nothing is said about it");
      c.add("failures-reported");
      c.sample(label + ", " + what + fmt(": exit status %d, reported, no file touched", s.code()));
    } else if (solve) {
      if (!s.stepLimitHit && s.exited() && !so.verdictLines) return bad("readable-input-refused", s.describe());
      if (!s.stepLimitHit) c.add("readable-inputs-answered");
      if (odd && !s.stepLimitHit) {         // the name of a file means nothing
        str usual = "box/usual.txt";
        writeFile(root + "/" + usual, text);
        RunReq q2 = q;
        for (auto &a : q2.args) if (a == inArg) a = usual;
        RunRes s2 = rn.run(q2);
        c.evaluations++;
        if (!s2.serverDied && !s2.cpuKilled() && !s2.wallKilled() && s2.code() != 97 && !s2.stepLimitHit) {
          c.add("odd-names-compared");
          if (parseSolve(s2.out, bv).canonical() != so.canonical()) return bad("name-matters", "the answer depends on the name of the file: " + str(verdictName(so.verdict)));
        }
      }
    } else {
      if (!s.ok0()) return bad("no-output", s.describe());
      if (!after.count(outArg)) return bad("no-output", "the output file was not written");
      if (odd && conv) {
        RunReq q2 = q;
        for (auto &a : q2.args) if (a == q.args[0]) continue; else if (a == inArg) a = "box/usual.txt"; else if (a == outArg || a == root + "/" + outArg) a = "box/usual.out";
        writeFile(root + "/box/usual.txt", text);
        RunRes s2 = rn.run(q2);
        c.evaluations++;
        auto again = snapshot(root);
        str x = after[outArg], y = again["box/usual.out"];
        if (s2.ok0()) {
          c.add("odd-names-compared");
          if (x.substr(x.find('/') + 1) != y.substr(y.find('/') + 1)) return bad("name-matters", "the output depends on the names of the files");
        }
      }
      if (stale) {                        // what was there before must not show through
        str first = after[outArg];
        remove((root + "/" + out).c_str());
        RunRes s2 = rn.run(q);
        c.evaluations++;
        auto again = snapshot(root);
        c.add("replaced-outputs-compared");
        size_t a = first.find('/'), b = again[outArg].find('/');
        if (s2.ok0() && again.count(outArg) && first.substr(a + 1) != again[outArg].substr(b + 1)) {
          // generators must agree with themselves first
          remove((root + "/" + out).c_str());
          RunRes s3 = rn.run(q);
          auto third = snapshot(root);
          c.evaluations++;
          if (s3.ok0() && third[outArg].substr(third[outArg].find('/') + 1) == again[outArg].substr(b + 1)) return bad("old-output-shows", "an output file that existed before is not replaced entirely");
        }
      }
      c.sample(label + ": wrote " + outArg + " and nothing else");
    }
    clear();
  });
}

// ------------------------------------------------------------------------------------------------ C29

namespace {
std::vector<str> flat(const str &mode, const std::vector<std::vector<str>> &o) {
  std::vector<str> a = {mode};
  for (auto &x : o) for (auto &y : x) a.push_back(y);
  return a;
}
// a number is the same number with leading zeros
void pad(Rng &r, std::vector<std::vector<str>> &o) {
  for (auto &x : o) if (x.size() == 2 && x[0] != "-file" && x[0] != "-model" && !x[1].empty() && x[1].find_first_not_of("0123456789") == str::npos && r.chance(60)) x[1] = str(r.range(1, 3), '0') + x[1];
}
// every variable at most once per clause, no units, no single-valued variables: the first decision is the first event
bool clean(const Problem &p) {
  if (p.cls.empty()) return false;
  for (int v = 1; v <= p.n(); v++) if (p.dom[v] < 2) return false;
  for (auto &k : p.cls) {
    if (k.size() < 2) return false;
    for (size_t i = 0; i < k.size(); i++) for (size_t j = 0; j < i; j++) if (k[i].var == k[j].var) return false;
  }
  return true;
}
}

static void c29Decision(Ctx &c, Rng &r) {
  bool bv = r.chance(30);
  GenOpt o = opt(bv);
  o.degenerate = false;
  Problem p;
  int tries = 0;
  do {
    int w = r.below(10);
    p = w < 5 ? genPlanted(r, o, 3, 12) : w < 8 ? genMid(r, o) : genSmall(r, o);
    if (bv || r.chance(90)) {             // make it clean
      std::vector<Cls> k2;
      for (auto &k : p.cls) { Cls q; for (auto &l : k) { bool dup = false; for (auto &m : q) dup |= m.var == l.var; if (!dup) q.push_back(l); } if (q.size() >= 2) k2.push_back(q); }
      p.cls = k2;
      for (int v = 1; v <= p.n(); v++) if (p.dom[v] < 2) p.dom[v] = 2;
    }
  } while (!clean(p) && ++tries < 20);
  if (!clean(p)) return;
  std::vector<std::vector<long long>> pos(p.n() + 1), neg(p.n() + 1);
  for (int v = 1; v <= p.n(); v++) { pos[v].assign(p.dom[v], 0); neg[v].assign(p.dom[v], 0); }
  for (auto &k : p.cls) for (auto &l : k) (l.eq ? pos : neg)[l.var][l.val]++;
  auto negSum = [&](int v) { long long t = 0; for (auto x : neg[v]) t += x; return t; };
  Cfg g = bv ? rndBvCfg(r) : rndCfg(r);
  g.k = r.chance(70) ? 0 : g.k;
  g.verbose = true;
  SolveRun s = solveText(c, bv ? "bv" : "src", writePlain(p), g, 40, {}, RunReq(), &r);
  if (s.res.serverDied || crashed(s.res)) return;
  if (!bv && g.mode != M_CHRONO) {
    bool wlSaid = lower(s.res.out).find("solving with the watched literal") != str::npos;
    if (wlSaid != (g.mode == M_WL)) { c.violation("wrong-search", cmdOf(s.args) + (wlSaid ? ": the watched-literal search runs without -wl" : ": -wl does not select the watched-literal search"), bundle(p, s)); return; }
    c.add("search-identified");
  }
  size_t q = s.res.out.find("Decision: ");
  if (q == str::npos) { c.add("no-decision-logged"); return; }
  const char *t = s.res.out.c_str() + q + 10;
  str heur = bv ? (g.heur == "-vsids" ? "bvvsids" : "bvlazy") : !g.heur.empty() ? g.heur.substr(1) : g.mode == M_WL ? "vsids" : "bookkeeping";
  str d;
  if (bv) {
    int v; char bits[80];
    if (sscanf(t, "%d=%70[01]", &v, bits) != 2 || v < 1 || v > p.n()) { c.add("decision-unreadable"); return; }
    u64 set = 0;
    for (char *b = bits; *b; b++) set = set * 2 + (*b == '1');
    if (heur == "bvvsids") {
      long long best = -1;
      for (int x = 1; x <= p.n(); x++) { long long ns = negSum(x); for (int y = 0; y < p.dom[x]; y++) best = std::max(best, pos[x][y] + ns - neg[x][y]); }
      if (!set || (set & (set - 1))) d = "the VSIDS decision is not a single value";
      else { int y = __builtin_ctzll(set); long long sc = y < p.dom[v] ? pos[v][y] + negSum(v) - neg[v][y] : -1; if (sc != best) d = fmt("-vsids decides %d=%d, which occurs %lld times; another value occurs %lld times", v, y, sc, best); }
    } else {
      bool found = false;
      for (auto &k : p.cls) for (auto &l : k) if (l.var == v) { u64 full = p.dom[v] >= 64 ? ~0ULL : (1ULL << p.dom[v]) - 1, b = 1ULL << l.val; if (set == (l.eq ? b : full & ~b)) found = true; }
      if (!found) d = fmt("the lazy decision on variable %d is no literal of a clause", v);
    }
  } else {
    int v, y; char ch;
    if (sscanf(t, "%d%c%d", &v, &ch, &y) != 3 || (ch != '=' && ch != '!') || v < 1 || v > p.n() || y < 0 || y >= p.dom[v]) { c.add("decision-unreadable"); return; }
    bool eq = ch == '=';
    long long best = -1000000000, sc = -1000000001;
    if (heur == "bookkeeping") {
      for (int x = 1; x <= p.n(); x++) for (int z = 0; z < p.dom[x]; z++) best = std::max(best, pos[x][z] - neg[x][z]);
      if (eq) sc = pos[v][y] - neg[v][y];
    } else if (heur == "vsids") {
      for (int x = 1; x <= p.n(); x++) for (int z = 0; z < p.dom[x]; z++) best = std::max(best, std::max(pos[x][z], neg[x][z]));
      sc = eq ? pos[v][y] : neg[v][y];
    } else if (heur == "vsids_pos") {
      for (int x = 1; x <= p.n(); x++) { long long ns = negSum(x); for (int z = 0; z < p.dom[x]; z++) best = std::max(best, pos[x][z] + ns - neg[x][z]); }
      if (eq) sc = pos[v][y] + negSum(v) - neg[v][y];
    } else {
      bool found = false;
      for (auto &k : p.cls) for (auto &l : k) if (l.var == v && l.val == y && l.eq == eq) found = true;
      best = 0; sc = found ? 0 : -1;
    }
    if (sc != best) d = fmt("first decision %d%s%d", v, eq ? "=" : "!=", y) + (heur == "lazy" ? " is no literal of a clause" : fmt(" has score %lld, the best is %lld", sc, best));
  }
  c.add("first-decisions-checked:" + heur);
  c.nontrivial(mix64(hashProblem(p) ^ hashStr(g.name())));
  if (!d.empty()) { c.violation("wrong-heuristic", cmdOf(s.args) + " (" + heur + "): " + d, bundle(p, s)); return; }
  c.sample(cmdOf(s.args) + ": the first decision has the best " + heur + " score");
}

static void c29Order(Ctx &c, Rng &r) {
  bool bv = r.chance(35);
  Problem p = anyProblem(r, bv);
  Cfg g = anyCfg(r, bv, p);
  str variant = bv ? "bv" : "src", text = writePlain(p);
  Runner &rn = c.runner(variant);
  writeFile(rn.dir() + "/p.mv", text);
  std::vector<std::vector<str>> o = {{"-file", "p.mv"}};
  if (!bv && g.mode == M_WL) o.push_back({"-wl"});
  if (!g.heur.empty()) o.push_back({g.heur});
  if (g.k) o.push_back({r.chance(50) ? "-restarts" : "-restart", std::to_string(g.k)});
  long long T = r.range(5, 5000);
  bool timed = r.chance(50);
  if (timed) o.push_back({"-time", std::to_string(T)});
  str mode = g.mode == M_CHRONO && !bv ? "-solvech" : "-solvenc";
  auto bare = o;
  // what these say is known from the file
  if (r.chance(20)) o.push_back({"-var", std::to_string(p.n())});
  if (r.chance(20)) o.push_back({"-clause", std::to_string(p.cls.size())});
  if (r.chance(15)) o.push_back({"-clausesize", std::to_string(r.range(1, 8))});
  if (mode == "-solvenc" && r.chance(15)) o.push_back({"-model"});
  // a command line grows long when a script keeps adding to it; saying the same again changes nothing
  if (r.chance(25)) {
    int many = r.range(4, 24);
    str k = std::to_string(r.range(1, 8));
    for (int j = 0; j < many; j++) {
      int w = r.range(0, 2);
      if (w == 0) o.push_back({"-var", std::to_string(p.n())});
      else if (w == 1) o.push_back({"-clause", std::to_string(p.cls.size())});
      else o.push_back({"-clausesize", k});
    }
    c.add("long-command-lines");
  }
  auto run = [&](const std::vector<str> &args, RunReq q) {
    SolveRun s;
    q.args = args; q.stepLimit = 100000;
    s.args = args;
    s.res = rn.run(q);
    c.evaluations++;
    s.out = parseSolve(s.res.out, bv);
    s.good = s.res.ok0() && s.out.verdict != V_NONE && s.out.verdict != V_MANY;
    if (!s.good) c.noteBadRun(s.res);
    return s;
  };
  auto cmp = [&](const SolveRun &a, const SolveRun &b, const char *kind) {
    c.add("option-orders-compared");
    str x = a.out.canonical() + fmt(" ended with %d", a.res.status), y = b.out.canonical() + fmt(" ended with %d", b.res.status);
    if (x == y) return true;
    auto f = bundle(p, a);
    for (auto &z : bundle(p, b)) f["other_" + z.first] = z.second;
    c.violation(kind, cmdOf(a.args) + ": " + verdictName(a.out.verdict) + " " + a.out.stats() + "; " + cmdOf(b.args) + ": " + verdictName(b.out.verdict) + " " + b.out.stats(), f);
    return false;
  };
  SolveRun a = run(flat(mode, o), RunReq());
  if (!a.good) return;
  c.nontrivial(mix64(hashProblem(p) ^ hashStr(cmdOf(a.args))));
  for (int j = 0; j < 3; j++) {
    auto o2 = o;
    r.shuffle(o2);
    if (r.chance(20)) { pad(r, o2); c.add("padded-numbers"); }
    SolveRun b = run(flat(mode, o2), RunReq());
    if (b.res.serverDied || b.res.cpuKilled() || b.res.wallKilled()) continue;
    if (!cmp(a, b, "order-matters")) return;
  }
  if (r.chance(25)) {                                      // the problem is the file's content, not its name
    static const char *names[] = {"q q.mv", "./p2.mv", ".//p2.mv", "-wl", "-lazy", "-solvech", "-time", "-verbose", "p", "%s.mv", "p.cnf", "p.mv.bak", "0", "17", "sub/p.mv", "sub/../p2.mv"};
    str name = names[r.below(sizeof names / sizeof *names)];
    if (r.chance(20)) name = str(r.range(60, 240), 'n') + ".mv";
    if (r.chance(10)) { name.clear(); for (int j = r.range(100, 1000); j > 0; j--) name += "./"; name += "p2.mv"; }
    mkdir((rn.dir() + "/sub").c_str(), 0755);
    writeFile(rn.dir() + "/" + name, text);
    auto o2 = o;
    for (auto &x : o2) if (x[0] == "-file") x[1] = name;
    r.shuffle(o2);
    SolveRun b = run(flat(mode, o2), RunReq());
    remove((rn.dir() + "/" + name).c_str());
    c.add("file-names-tried");
    if (!b.res.serverDied && !b.res.cpuKilled() && !b.res.wallKilled() && !cmp(a, b, "file-name-matters")) return;
  }
  if (bare.size() != o.size()) {
    r.shuffle(bare);
    SolveRun b = run(flat(mode, bare), RunReq());
    c.add("redundant-options-left-out");
    if (!b.res.serverDied && !b.res.cpuKilled() && !b.res.wallKilled() && !cmp(a, b, "redundant-option-matters")) return;
  }
  if (!bv && g.mode == M_WL && (g.heur.empty() || g.heur == "-vsids")) {      // VSIDS is the default with -wl
    auto o2 = o;
    if (g.heur.empty()) o2.push_back({"-vsids"});
    else for (size_t k = 0; k < o2.size(); k++) if (o2[k][0] == "-vsids") { o2.erase(o2.begin() + k); break; }
    r.shuffle(o2);
    SolveRun b = run(flat(mode, o2), RunReq());
    if (b.good && !cmp(a, b, "wl-default-not-vsids")) return;
  }
  // the two searches: chronological search learns nothing, the other one clause per conflict it leaves
  if (a.out.hasStats && a.out.clauses >= 0 && (a.out.verdict == V_SAT || a.out.verdict == V_UNSAT)) {
    c.add("search-identified");
    bool learns = a.out.clauses != (long long)p.cls.size();
    if (mode == "-solvech" && learns) { c.violation("wrong-search", cmdOf(a.args) + fmt(": %lld clauses at the end, %zu given", a.out.clauses, p.cls.size()), bundle(p, a)); return; }
    if (mode == "-solvenc" && !learns && a.out.backtracks > 0) { c.violation("wrong-search", cmdOf(a.args) + fmt(": %lld backtracks and no clause learned", a.out.backtracks), bundle(p, a)); return; }
    if (g.k > 0 && g.mode != M_CHRONO) {
      c.add("restart-values-checked");
      if (a.out.restarts != a.out.backtracks / g.k) { c.violation("restart-value", cmdOf(a.args) + fmt(": %lld restarts after %lld backtracks", a.out.restarts, a.out.backtracks), bundle(p, a)); return; }
    } else if (a.out.restarts > 0) { c.violation("restart-value", cmdOf(a.args) + fmt(": %lld restarts", a.out.restarts), bundle(p, a)); return; }
  }
  if (timed && a.res.reads >= 40) {
    auto o2 = o;
    r.shuffle(o2);
    RunReq q;
    q.jumpAt = r.range(12, (int)std::min(a.res.reads - 10, 3000LL));
    q.jumpUsec = T * 900000;
    SolveRun b = run(flat(mode, o2), q);
    if (b.good) {
      c.add("time-values-checked");
      if (b.out.verdict != a.out.verdict) { c.violation("time-value", cmdOf(b.args) + fmt(": %s after %.1f s", verdictName(b.out.verdict), T * 0.9), bundle(p, b)); return; }
    }
    q.jumpUsec = T * 1100000 + 500000;
    b = run(flat(mode, o2), q);
    long long slack = mode == "-solvech" ? 4LL * p.n() + 60 : 60;
    if (b.good && b.res.reads > q.jumpAt + slack) { c.violation("time-value", cmdOf(b.args) + fmt(": still searching %.1f s after the start", T * 1.1), bundle(p, b)); return; }
  }
  c.sample(cmdOf(a.args) + " and other orders: " + verdictName(a.out.verdict) + " " + a.out.stats());
}

static void c29Files(Ctx &c, Rng &r) {
  Runner &rn = c.runner("src");
  str dir = rn.dir();
  std::vector<std::vector<str>> o;
  str mode, outFile = "gen.out", text;
  long long base = 1000000000 + (long long)(r.next() % 2000000000ULL);
  auto run = [&](const std::vector<std::vector<str>> &op, str &out, RunRes &s) {
    remove((dir + "/" + outFile).c_str());
    RunReq q; q.args = flat(mode, op); q.baseSec = base; q.cpuSec = 10;
    s = rn.run(q);
    c.evaluations++;
    out.clear();
    readFile(dir + "/" + outFile, out);
    if (!s.ok0()) c.noteBadRun(s);
    return s.ok0();
  };
  std::vector<std::vector<std::vector<str>>> alts;
  if (r.chance(70)) {
    mode = "-genben";
    int var = r.range(4, 12);
    bool fin = r.chance(60);
    std::map<str, str> v = {{"-clausesize", "3"}, {"-sat", "1"}, {"-domain", "10"}, {"-drand", "0"}, {"-bool", "0"}};   // the documented defaults
    if (r.chance(50)) v["-clausesize"] = std::to_string(r.range(1, std::min(var, 4)));
    if (r.chance(40)) v["-sat"] = "0";
    if (r.chance(50)) v["-domain"] = std::to_string(r.range(2, 20));
    if (r.chance(40)) v["-drand"] = "1";
    if (fin) v["-bool"] = "1";
    o = {{"-var", std::to_string(var)}, {"-clause", std::to_string(r.range(1, 40))}, {"-file", outFile}};
    std::vector<std::vector<str>> full = o, less = o;
    static const std::map<str, str> def = {{"-clausesize", "3"}, {"-sat", "1"}, {"-domain", "10"}, {"-drand", "0"}, {"-bool", "0"}};
    for (auto &x : v) { full.push_back({x.first, x.second}); if (def.at(x.first) != x.second) less.push_back({x.first, x.second}); }
    o = full;
    alts = {less, full, full};
  } else {
    static const char *m[] = {"-linenc", "-quadenc", "-b2f"};
    mode = m[r.below(3)];
    if (mode == "-b2f") { Cnf f = genCnf(r, 12); text = writeCnf(r, f, r.chance(50), false); }
    else { GenOpt g; g.maxDom = 40; text = writePlain(genSmall(r, g)); }
    writeFile(dir + "/conv.in", text);
    o = {{"-file", "conv.in"}, {"-model", outFile}};
    alts = {{{"-model", outFile}, {"-file", "conv.in"}}};
  }
  str first, again;
  RunRes s;
  if (!run(o, first, s) || !run(o, again, s)) return;
  if (first != again) { c.add("not-repeatable"); return; }
  for (auto &a : alts) {
    auto b = a;
    r.shuffle(b);
    if (r.chance(20)) { pad(r, b); c.add("padded-numbers"); }
    if (r.chance(15)) {                                   // said again and again
      auto said = b;
      for (int j = r.range(4, 24); j > 0; j--) b.push_back(r.pick(said));
      r.shuffle(b);
      c.add("long-command-lines");
    }
    str out;
    if (!run(b, out, s)) { if (crashed(s)) { c.violation("order-matters", cmdOf(flat(mode, b)) + ": " + s.describe(), {{"input", text}, {"stdout.txt", s.out.substr(0, 5000)}}); return; } continue; }
    c.add("outputs-compared");
    c.nontrivial(mix64(hashStr(first) ^ hashStr(cmdOf(flat(mode, b)))));
    if (out != first) {
      c.violation(a.size() != o.size() ? "default-wrong" : "order-matters", cmdOf(flat(mode, o)) + " and " + cmdOf(flat(mode, b)) + fmt(" at the same time (%lld) write different files", base), {{"input", text}, {"output-1", first}, {"output-2", out}});
      return;
    }
  }
  c.sample(cmdOf(flat(mode, o)) + ": the same file in any order and with defaults left out");
}

static void c29Menu(Ctx &c, Rng &r) {
  bool bv = r.chance(35);
  Runner &rn = c.runner(bv ? "bv" : "src");
  str dir = rn.dir(), in;
  static const char *fixed[] = {"", "\n", "0\n", "1\n", "1", "9\n", "abc\n", "-1\n", "1\n\n2\n\n0\n", "1\n\n1\n\n", "99999999999999999999\n", "6\n", "2\n", "3\n", "4\n", "5\n", "   \n\n", "1 2 3", "x1\n0\n"};
  int w = r.below(24), choice = -1;
  if (w < 19) in = fixed[w];
  else if (w < 22) { int n = r.range(1, 30); for (int j = 0; j < n; j++) in += std::to_string(r.below(8)) + (r.chance(60) ? "\n\n" : "\n"); }
  else { int n = r.range(1, 60); for (int j = 0; j < n; j++) in += (char)r.range(9, 126); }
  if (in.size() >= 2 && in[1] == '\n' && in.size() == 2 && in[0] >= '1' && in[0] <= (bv ? '1' : '6')) choice = in[0] - '0';
  writeFile(dir + "/stdin.txt", in);
  static const std::vector<std::vector<str>> calls = {{}, {"-help"}, {"-nosuchmode"}, {"help"}, {"-solve", "-file", "x"}, {"-file", "x", "-solvenc"}, {"SOLVENC"}, {""}, {"-solvencx", "-file", "p.mv"}};
  RunReq q;
  q.args = r.pick(calls);
  if (bv && r.chance(20)) { static const char *m[] = {"-genben", "-b2f", "-linenc", "-quadenc", "-solvech"}; q.args = {m[r.below(5)], "-file", "p.mv"}; }
  q.stdinPath = "stdin.txt";
  q.cpuSec = 4;
  RunRes s = rn.run(q);
  c.evaluations++;
  if (s.serverDied) return;
  c.add("menu-runs");
  c.nontrivial(mix64(hashStr(in) ^ hashStr(cmdOf(q.args))));
  str what = cmdOf(q.args) + " with input " + jsonEsc(in);
  std::map<str, str> f = {{"stdin.txt", in}, {"command.txt", cmdOf(q.args) + "\n"}, {"stdout.txt", s.out.substr(0, 20000)}, {"stderr.txt", s.err.substr(0, 5000)}, {"run.txt", s.describe() + "\n"}};
  if (s.sig() || s.out.size() > 2000000) { c.violation("menu-does-not-end", what + ": " + s.describe() + fmt(" after %zu bytes of output", s.out.size()), f); return; }
  if (s.out.find("Menu Options") == str::npos) { c.violation("no-menu", what + ": the help menu is not shown", f); return; }
  SolveOut so = parseSolve(s.out, bv);
  if (so.verdictLines) { c.violation("no-menu", what + ": prints a verdict", f); return; }
  if (choice > 0) {
    static const char *key[] = {"", "-genben", "-solvech", "-solvenc", "-b2f", "-linenc", "-quadenc"};
    str k = bv ? "-solvenc" : key[choice];
    c.add("menu-choices-checked");
    if (s.out.find("exe " + k) == str::npos) { c.violation("wrong-help", what + ": the help for " + k + " is not shown", f); return; }
  }
  c.sample(what + fmt(": menu shown, exit status %d", s.code()));
}

void C29(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    int w = (int)(i % 10);
    if (w < 4) c29Order(c, r);
    else if (w < 7) c29Decision(c, r);
    else if (w < 9) c29Files(c, r);
    else c29Menu(c, r);
  });
}
