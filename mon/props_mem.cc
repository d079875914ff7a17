// C34: a search loses no memory.
#include "props.h"

namespace {
Problem problem(Rng &r, bool bv, bool chrono) {
  GenOpt o; o.maxDom = bv ? 64 : 200;
  int w = r.below(100);
  if (w < 25) return genSmall(r, o);
  if (w < 50) return genStructured(r, o);
  if (w < 75) return genMid(r, o);
  if (w < 84) return genPlanted(r, o, 4, 24);
  if (w < 90) return genLargeDomain(r, o);
  if (w < 93) return genDeepCore(r, r.range(0, 200));
  if (w < 96 && !bv && chrono) return genLongRun(r, true);
  return genChain(r, o, r.range(10, 150));
}
}

void C34(Ctx &c) {
  c.forCases([&](Rng &r, long long) {
    bool bv = r.chance(35);
    Cfg g = bv ? rndBvCfg(r) : rndCfg(r, r.chance(60));
    g.verbose = r.chance(15);
    Problem p = problem(r, bv, g.mode == M_CHRONO);
    long long atoms = 0, lits = 0;
    for (int d : p.dom) atoms += d;
    for (auto &cl : p.cls) lits += (long long)cl.size();
    str text = writePlain(p);
    RunReq q;
    if (r.chance(20)) { q.stepUsec = r.range(1000, 200000); }
    std::vector<str> extra;
    if (q.stepUsec && r.chance(60)) extra = {"-time", std::to_string(r.range(1, 60))};
    SolveRun s = solveText(c, bv ? "bv_mem" : "src_mem", text, g, g.verbose ? 3000 : 70000, extra, q);
    const MvlMem &m = s.res.mem;
    if (s.res.serverDied || m.n < 1) { c.add("runs-not-sampled"); return; }
    c.add("runs-sampled"); c.add("samples", m.n); c.add("allocations-recorded", m.allocs);
    const MvlMemSample &a = m.s[0], &b = m.s[m.n - 1];
    if (getenv("MEMDBG")) fprintf(stderr, "%s %s looks %lld..%lld blocks %lld..%lld bytes %lld..%lld lost %lld..%lld back %lld atoms %lld lits %lld\n", g.name().c_str(), p.kind.c_str(), (long long)a.look, (long long)b.look, (long long)a.blocks, (long long)b.blocks, (long long)a.bytes, (long long)b.bytes, (long long)a.lost, (long long)b.lost, s.out.backtracks, atoms, lits);
    if (m.n < 2) return;
    c.add("searches-watched"); c.add("search-steps-covered", b.look - a.look); c.add("blocks-traced", b.blocks);
    c.maxi("most-steps", b.look); c.maxi("most-blocks", b.blocks); c.maxi("most-lost-before-search", a.lost); c.maxi("most-lost-in-search", b.lost - a.lost);
    c.add("mode:" + g.name());
    if (b.look >= 32) c.nontrivial(mix64(hashStr(text) ^ hashStr(g.name())));
    if (b.lost - a.lost > 4) {
      c.violation("memory-lost", fmt("%s: after %lld steps %lld blocks (%lld bytes) are allocated that no pointer leads to, after %lld steps it was %lld; the newest is %lld bytes from step %lld", g.name().c_str(), (long long)b.look, (long long)b.lost, (long long)b.lostBytes, (long long)a.look, (long long)a.lost, (long long)b.newestSize, (long long)b.newest), bundle(p, s, text));
      return;
    }
    // what is kept may grow with the problem (trail, per-atom lists) and with the clauses learned
    long long learned = bv || g.mode != M_CHRONO ? (s.out.backtracks >= 0 ? std::min(s.out.backtracks, (long long)b.look) : b.look) : 0;
    long long capBlocks = 500 + 4 * atoms + 12 * learned;
    c.maxi("most-kept-growth-permille", (b.blocks - a.blocks) * 1000 / capBlocks);
    if (b.blocks - a.blocks > capBlocks) {
      c.violation("memory-piles-up", fmt("%s: %lld blocks in use after %lld steps, %lld after %lld steps and %lld conflicts with clauses to keep; the problem has %lld atoms and %lld literals", g.name().c_str(), (long long)a.blocks, (long long)a.look, (long long)b.blocks, (long long)b.look, learned, atoms, lits), bundle(p, s, text));
      return;
    }
    if (learned == 0) {
      long long cap = 65536 + 256 * (atoms + lits);
      c.maxi("most-kept-bytes-growth-permille", (b.bytes - a.bytes) * 1000 / cap);
      if (b.bytes - a.bytes > cap) {
        c.violation("memory-piles-up", fmt("%s: %lld bytes in use after %lld steps, %lld after %lld steps, nothing learned; the problem has %lld atoms and %lld literals", g.name().c_str(), (long long)a.bytes, (long long)a.look, (long long)b.bytes, (long long)b.look, atoms, lits), bundle(p, s, text));
        return;
      }
    }
  });
}
