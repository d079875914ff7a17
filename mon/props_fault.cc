// C32: files that cannot be read or written to their end.
#include "props.h"
#include <cerrno>
#include <csignal>
#include <sys/stat.h>
#include <unistd.h>

static bool saysSo(const RunRes &s) {
  auto lower = [](str t) { for (auto &c : t) c = tolower((unsigned char)c); return t; };
  str t = lower(s.out + s.err);
  for (auto k : {"error", "could not", "cannot", "can't", "unable", "fail", "not open", "no such", "incomplete"}) if (t.find(k) != str::npos) return true;
  return false;
}

void C32(Ctx &c) {
  c.forCases([&](Rng &r, long long i) {
    static const char *modes[] = {"-solvenc", "-solvech", "-b2f", "-linenc", "-quadenc", "-genben", "bv"};
    str mode = modes[i % 7];
    bool bv = mode == "bv";
    if (bv) mode = "-solvenc";
    Runner &rn = c.runner(bv ? "bv_fault" : "src_fault");
    str root = rn.dir();
    bool conv = mode == "-b2f" || mode == "-linenc" || mode == "-quadenc", gen = mode == "-genben", solve = !conv && !gen;
    GenOpt o;
    o.maxDom = bv ? 64 : 60;
    str text;
    if (mode == "-b2f") { Cnf f = genCnf(r, r.chance(60) ? 12 : 400); text = writeCnf(r, f, r.chance(50), r.chance(10)); }
    else {
      Problem p = r.chance(60) ? genSmall(r, o) : r.chance(50) ? genPlanted(r, o, 20, 60) : genAny(r, o);
      text = r.chance(50) ? writeLayout(r, p, r.chance(50)) : writePlain(p);
      // long files take several transfers
      if (r.chance(20)) { str pad; for (int j = r.range(50, 500); j > 0; j--) pad += "c " + str(r.range(10, 120), 'x') + "\n"; text = r.chance(50) ? pad + text : text + (text.empty() || text.back() == '\n' ? "" : "\n") + pad; }
    }
    str in = root + "/flt.in", outF = root + "/flt.out";
    writeFile(in, text);
    std::vector<std::vector<str>> op;
    if (gen) op = {{"-var", std::to_string(r.range(4, 12))}, {"-clause", std::to_string(r.chance(70) ? r.range(1, 60) : r.range(100, 2000))}, {"-bool", std::to_string(r.below(2))}, {"-domain", std::to_string(r.range(2, 6))}, {"-sat", std::to_string(r.below(2))}};
    else op = {{"-file", "flt.in"}};
    if (solve && !bv && mode == "-solvenc") { int h = r.below(5); if (h < 3) op.push_back({h == 0 ? "-wl" : h == 1 ? "-vsids" : "-lazy"}); }
    if (solve && r.chance(15)) op.push_back({"-verbose"});
    int outIdx = -1;
    if (conv) { outIdx = (int)op.size(); op.push_back({"-model", "flt.out"}); }
    if (gen) { outIdx = (int)op.size(); op.push_back({"-file", "flt.out"}); }
    RunReq q;
    q.stepLimit = 20000;
    q.baseSec = 1700000000 + r.below(1000000);
    auto setArgs = [&] { q.args = {mode}; for (auto &x : op) for (auto &y : x) q.args.push_back(y); };
    setArgs();
    remove(outF.c_str());
    RunRes a = rn.run(q);
    c.evaluations++;
    if (a.serverDied || !a.ok0() || a.stepLimitHit) { c.add("base-run-not-usable"); return; }
    str outA, label = (bv ? "bitvec " : "") + mode;
    if (!solve && !readFile(outF, outA)) { c.add("base-run-not-usable"); return; }
    SolveOut sa = parseSolve(a.out, bv);
    RunReq f = q;
    // 0,1 short or interrupted transfers; 2-4 reading fails; 5-7 writing fails; 8 the input is a folder; 9 a full device
    int sc = r.below(10);
    if (gen && (sc == 2 || sc == 3 || sc == 4 || sc == 8)) sc = 5;
    if (solve && (sc == 5 || sc == 6 || sc == 7 || sc == 9)) sc = 2 + r.below(2);
    str what;
    static const int rerr[] = {EIO, ENOMEM, ESTALE, EBADMSG}, werr[] = {ENOSPC, EIO, EDQUOT, EFBIG};
    if (sc <= 1) {
      f.fault.chunk = r.chance(30) ? 1 : r.range(2, 5000);
      if (r.chance(50)) f.fault.eintr = r.range(2, 9);
      what = "transfers of at most " + std::to_string(f.fault.chunk) + " bytes" + (f.fault.eintr ? ", some interrupted" : "");
    } else if (sc <= 4) {
      f.fault.readFail = r.chance(20) ? 0 : r.chance(20) ? (long long)text.size() : r.chance(30) ? 8191 * r.range(0, 1 + (int)(text.size() / 8191)) : (long long)(r.next() % (text.size() + 1));
      f.fault.readErrno = rerr[r.below(4)];
      if (r.chance(30)) f.fault.chunk = r.range(1, 2000);
      what = fmt("reading fails after %lld of %zu bytes", (long long)f.fault.readFail, text.size());
    } else if (sc <= 7) {
      f.fault.writeFail = r.chance(20) ? 0 : r.chance(20) && !outA.empty() ? (long long)outA.size() - 1 : (long long)(r.next() % (outA.size() + 1));
      f.fault.writeErrno = werr[r.below(4)];
      if (r.chance(30)) f.fault.chunk = r.range(1, 2000);
      what = fmt("writing fails after %lld of %zu bytes", (long long)f.fault.writeFail, outA.size());
    } else if (sc == 8) {
      mkdir((root + "/flt.dir").c_str(), 0755);
      op[0][1] = "flt.dir"; setArgs(); f.args = q.args;
      what = "the input is a folder";
    } else {
      op[outIdx][1] = "/dev/full"; setArgs(); f.args = q.args;
      what = "the output device is full";
    }
    if (sc >= 2 && sc <= 7 && r.chance(40)) { f.fault.times = r.range(1, 3); what += fmt(", %d times", f.fault.times); }
    remove(outF.c_str());
    RunRes b = rn.run(f);
    c.evaluations++;
    str outB;
    bool haveB = readFile(outF, outB);
    if (b.serverDied || b.cpuKilled() || b.wallKilled() || b.code() == 97) { c.noteBadRun(b); return; }
    SolveOut sb = parseSolve(b.out, bv);
    auto bad = [&](const str &k, const str &d) {
      c.violation(k, label + ", " + what + ": " + d, {{"in.txt", text}, {"command.txt", cmdOf(f.args) + "\n"}, {"stdout.txt", b.out.substr(0, 20000)}, {"stderr.txt", b.err.substr(0, 20000)}, {"run.txt", what + "\n" + b.describe() + "\n"}, {"output.txt", outB.substr(0, 20000)}, {"output_undisturbed.txt", outA.substr(0, 20000)}});
    };
    c.add("mode:" + label);
    c.add("transfers-watched", b.seen.reads + b.seen.writes);
    bool failed = b.seen.readFailed || b.seen.writeFailed || sc >= 8;
    if (sc == 9 && outA.empty()) failed = false;
    if (!failed) {
      // nothing was lost: nothing may change
      if (sc <= 1) { c.add("transfers-shortened", b.seen.shortened); c.add("transfers-interrupted", b.seen.interrupted); }
      if (b.stepLimitHit) return;
      if (b.status != a.status) return bad("transfer-size-matters", "undisturbed: " + a.describe() + "; now: " + b.describe());
      if (solve && sa.canonical() != sb.canonical()) return bad("transfer-size-matters", "undisturbed: " + sa.canonical().substr(0, 300) + "; now: " + sb.canonical().substr(0, 300));
      if (!solve && sc != 9 && (!haveB || outA != outB)) return bad("transfer-size-matters", "the output file differs from that of the undisturbed run");
      c.add("undisturbed-results-compared");
      if (b.seen.shortened + b.seen.interrupted > 1) { c.nontrivial(mix64(hashStr(cmdOf(f.args)) ^ hashStr(text) ^ f.fault.chunk)); c.sample(label + ", " + what + fmt(": %lld transfers, same result", (long long)(b.seen.reads + b.seen.writes))); }
      return;
    }
    c.add(str("fault:") + (sc <= 4 ? "read" : sc <= 7 ? "write" : sc == 8 ? "folder" : "full device"));
    c.nontrivial(mix64(hashStr(cmdOf(f.args)) ^ hashStr(text) ^ hashStr(what)));
    // a passing failure that the program made up for is none
    if (f.fault.times && b.status == a.status && (solve ? sa.canonical() == sb.canonical() : haveB && outA == outB)) { c.add("passing-failures-made-up-for"); return; }
    if (sb.verdictLines) return bad("verdict-on-part-of-the-input", str("prints ") + verdictName(sb.verdict));
    if (!b.exited()) return bad("crash", b.describe());
    if (b.code() == 0) return bad("passed-off-as-success", "exit status 0");
    if (!saysSo(b)) return bad("not-reported", "nothing is said about it");
    c.add("failures-reported");
    c.sample(label + ", " + what + fmt(": exit status %d, reported", b.code()));
  });
}
