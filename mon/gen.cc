#include "gen.h"
#include "oracle.h"
#include <set>

long long space(const Problem &p, long long cap) {
  long long s = 1;
  for (int v = 1; v <= p.n(); v++) { s *= p.dom[v]; if (s > cap) return cap + 1; }
  return s;
}

static Lit rndLit(Rng &r, const Problem &p, int negPct) {
  Lit l;
  l.var = r.range(1, p.n());
  l.val = r.below(p.dom[l.var]);
  l.eq = !r.chance(negPct);
  return l;
}

static Cls rndClause(Rng &r, const Problem &p, int len, int negPct, bool distinctVars) {
  Cls c;
  int tries = 0;
  while ((int)c.size() < len && tries++ < 60) {
    Lit l = rndLit(r, p, negPct);
    bool bad = false;
    for (auto &x : c) if (x == l || (distinctVars && x.var == l.var)) bad = true;
    if (!bad) c.push_back(l);
  }
  return c;
}

void addDegenerate(Rng &r, Problem &p, bool allowEmpty) {
  if (p.n() == 0) return;
  int k = r.range(1, 3);
  for (int i = 0; i < k; i++) {
    int w = r.below(allowEmpty ? 12 : 11);
    if (w <= 2 && !p.cls.empty()) {             // repeat a literal, anywhere in the clause
      Cls &c = p.cls[r.below((int)p.cls.size())];
      if (!c.empty()) {
        Lit l = r.pick(c);
        int t = r.range(1, 2);
        while (t--) c.insert(c.begin() + r.below((int)c.size() + 1), l);
      }
    } else if (w <= 4 && !p.cls.empty()) {      // complementary literal
      Cls &c = p.cls[r.below((int)p.cls.size())];
      if (!c.empty()) { Lit l = r.pick(c); l.eq = !l.eq; c.insert(c.begin() + r.below((int)c.size() + 1), l); }
    } else if (w == 5 && !p.cls.empty()) {      // repeat a clause
      p.cls.insert(p.cls.begin() + r.below((int)p.cls.size() + 1), r.pick(p.cls));
    } else if (w == 6) {                        // unit clause
      p.cls.insert(p.cls.begin() + r.below((int)p.cls.size() + 1), Cls{rndLit(r, p, 50)});
    } else if (w == 7) {                        // a clause listing a whole domain
      int v = r.range(1, p.n());
      Cls c;
      for (int d = 0; d < p.dom[v]; d++) c.push_back({v, d, true});
      r.shuffle(c);
      if ((int)c.size() <= 12) p.cls.push_back(c);
    } else if (w == 8) {                        // a unit clause with its literal written twice
      Lit l = rndLit(r, p, 50);
      p.cls.push_back(Cls{l, l});
    } else if (w == 9) {                        // exclude all values of a variable but one (or all)
      int v = r.range(1, p.n()), keep = r.below(p.dom[v] + (r.chance(20) ? 1 : 0));
      if (p.dom[v] <= 8) for (int d = 0; d < p.dom[v]; d++) if (d != keep) p.cls.push_back(Cls{{v, d, false}});
    } else if (w == 10) {                       // same variable twice in a clause
      Lit l = rndLit(r, p, 30), m = l;
      m.val = r.below(p.dom[l.var]);
      m.eq = r.chance(50);
      p.cls.push_back(Cls{l, m});
    } else if (w == 11 && r.chance(25)) {
      p.cls.insert(p.cls.begin() + r.below((int)p.cls.size() + 1), Cls{});
    }
  }
  p.planted.clear();
}

static void rndDomains(Rng &r, Problem &p, int n, int lo, int hi) {
  p.dom.assign(1, 0);
  for (int i = 0; i < n; i++) p.dom.push_back(r.range(lo, hi));
}

Problem genSmall(Rng &r, const GenOpt &o) {
  Problem p;
  p.kind = "small";
  int shape = r.below(10);
  for (;;) {
    int n;
    if (shape < 4) { n = r.range(2, 6); rndDomains(r, p, n, 2, r.range(2, 5)); }
    else if (shape < 6) { n = r.range(3, 11); rndDomains(r, p, n, 2, 2); }
    else if (shape < 8) { n = r.range(1, 4); rndDomains(r, p, n, o.degenerate ? 1 : 2, 7); }
    else if (shape < 9) { n = r.range(3, 7); rndDomains(r, p, n, 3, 3); }
    else { n = r.range(1, 7); rndDomains(r, p, n, o.degenerate ? 1 : 2, 4); }
    if (space(p, o.maxSpace) <= o.maxSpace) break;
    if (r.chance(10)) shape = r.below(10);
  }
  int n = p.n();
  static const int negs[] = {0, 10, 30, 50, 70, 90, 100};
  int neg = negs[r.below(7)];
  int len = r.range(2, 4);
  // aim around the point where about half of the problems are satisfiable
  double sp = (double)space(p, 1 << 30);
  double bits = 0;
  for (double t = sp; t > 1; t /= 2) bits++;
  double avgd = 0;
  for (int v = 1; v <= n; v++) avgd += p.dom[v];
  avgd /= n;
  double pt = (1.0 - neg / 100.0) / avgd + (neg / 100.0) * (1 - 1 / avgd);      // literal true
  double pf = 1;
  for (int i = 0; i < len; i++) pf *= 1 - pt;
  if (pf < 0.002) pf = 0.002;
  double m = bits * 0.69 / pf;
  m *= 0.3 + r.unit() * 1.3;
  int mc = (int)m;
  if (mc > 90) mc = 90;
  bool mixed = r.chance(50);
  for (int i = 0; i < mc; i++) {
    int L = mixed ? r.range(1 + r.below(2), len + 1) : len;
    Cls c = rndClause(r, p, L, neg, r.chance(60));
    if (!c.empty()) p.cls.push_back(c);
  }
  if (o.degenerate && r.chance(35)) { addDegenerate(r, p, true); p.kind = "small+degenerate"; }
  return p;
}

// The same problem with one to three variables spread over a much larger domain: a random injective map of the
// values, the others excluded by unit clauses and (up to eight of them) by one clause listing the values in use.
static Problem widen(Rng &r, const GenOpt &o, Problem p) {
  if (o.maxDom < 32 || p.n() < 2) return p;
  static const int ds[] = {17, 33, 48, 63, 64, 65, 66, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300};
  std::vector<int> vs;
  for (int v = 1; v <= p.n(); v++) if (p.dom[v] > 1) vs.push_back(v);
  r.shuffle(vs);
  if (vs.empty()) return p;
  vs.resize(std::min((int)vs.size(), r.range(1, 3)));
  for (int v : vs) {
    int D; do D = ds[r.below(18)]; while (D > o.maxDom || (D < 64 && r.chance(50)));
    std::vector<int> to(D);
    for (int x = 0; x < D; x++) to[x] = x;
    bool high = r.chance(50);
    if (high) { std::reverse(to.begin(), to.end()); std::vector<int> h(to.begin(), to.begin() + std::min(D, p.dom[v] + 4)); r.shuffle(h); std::copy(h.begin(), h.end(), to.begin()); }
    else r.shuffle(to);
    int d = p.dom[v];
    for (auto &c : p.cls) for (auto &l : c) if (l.var == v) l.val = to[l.val];
    if (!p.planted.empty()) p.planted[v] = to[p.planted[v]];
    p.dom[v] = D;
    Cls alo;
    for (int x = 0; x < d; x++) alo.push_back({v, to[x], true});
    int viaClause = r.below(std::min(9, D - d + 1));
    if (viaClause) p.cls.push_back(alo);
    for (int x = d + viaClause; x < D; x++) p.cls.push_back(Cls{{v, to[x], false}});
  }
  if (r.chance(50)) r.shuffle(p.cls);
  p.kind += "+wide";
  return p;
}
static Problem mayWiden(Rng &r, const GenOpt &o, Problem p) { return r.chance(9) ? widen(r, o, p) : p; }

static Problem genMidScaled(Rng &r, const GenOpt &o, double scale);
Problem genMid(Rng &r, const GenOpt &o) { Problem p = genMidScaled(r, o, r.chance(8) ? 1.4 + 1.6 * r.unit() : 1.0); return mayWiden(r, o, p); }
static Problem genMidScaled(Rng &r, const GenOpt &o, double scale) {
  Problem p;
  p.kind = scale > 1 ? "hard" : "mid";
  int w = r.below(4);
  int n, d, len, neg;
  double ratio;
  if (w == 0) { n = r.range(12, 28); d = 2; len = 3; neg = 50; ratio = 4.26; rndDomains(r, p, n, d, d); }
  else if (w == 1) { n = r.range(8, 16); d = 3; len = 3; neg = 0; ratio = 2.6; rndDomains(r, p, n, 2, 4); }
  else if (w == 2) { n = r.range(8, 18); d = 4; len = 2; neg = 100; ratio = 10; rndDomains(r, p, n, 3, 4); }
  else { n = r.range(8, 14); d = 3; len = 3; neg = 30; ratio = 4; rndDomains(r, p, n, 2, 5); }
  if (scale > 1) { int lo = w == 0 ? 2 : w == 2 ? 3 : 2, hi = w == 0 ? 2 : w == 3 ? 5 : 4; n = (int)(n * scale); p.dom.assign(1, 0); rndDomains(r, p, n, lo, hi); }
  if (w == 2) {
    // binary nogoods, density near the threshold of random CSPs
    ratio = 0.69 * 2.0 * 12.0 * (0.8 + 0.4 * r.unit()) / 2.0;
  }
  double sp = 0, avgd = 0;
  for (int v = 1; v <= n; v++) { double t = p.dom[v]; avgd += t; while (t > 1) { sp += t >= 2 ? 1 : 0.58; t /= 2; } }
  avgd /= n;
  double pt = (1.0 - neg / 100.0) / avgd + (neg / 100.0) * (1 - 1 / avgd), pf = 1;
  for (int i = 0; i < len; i++) pf *= 1 - pt;
  double m = sp * 0.69 / pf * (0.85 + 0.3 * r.unit());
  (void)ratio;
  if (m > (scale > 1 ? 1500 : 600)) m = scale > 1 ? 1500 : 600;
  if (scale > 1 && r.chance(50)) m *= 1.12;
  for (int i = 0; i < (int)m; i++) p.cls.push_back(rndClause(r, p, len, neg, true));
  if (o.degenerate && r.chance(15)) { addDegenerate(r, p, false); p.kind += "+degenerate"; }
  return p;
}

static Problem genPlanted0(Rng &r, const GenOpt &o, int nmin, int nmax);
Problem genPlanted(Rng &r, const GenOpt &o, int nmin, int nmax) { Problem p = genPlanted0(r, o, nmin, nmax); return mayWiden(r, o, p); }
static Problem genPlanted0(Rng &r, const GenOpt &o, int nmin, int nmax) {
  Problem p;
  p.kind = "planted";
  int n = r.range(nmin, nmax);
  int lo = r.chance(15) && o.degenerate ? 1 : 2;
  int hi = r.range(2, std::min(o.maxDom, r.chance(80) ? 5 : 12));
  rndDomains(r, p, n, lo, hi);
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  static const int negs[] = {0, 20, 50, 80, 100};
  int neg = negs[r.below(5)], len = r.range(2, 4);
  double avgd = 0, sp = 0;
  for (int v = 1; v <= n; v++) { avgd += p.dom[v]; double t = p.dom[v]; while (t > 1) { sp += t >= 2 ? 1 : 0.58; t /= 2; } }
  avgd /= n;
  double pt = (1.0 - neg / 100.0) / avgd + (neg / 100.0) * (1 - 1 / avgd), pf = 1;
  for (int i = 0; i < len; i++) pf *= 1 - pt;
  if (pf < 0.004) pf = 0.004;
  int m = (int)(sp * 0.69 / pf * (0.6 + 0.9 * r.unit()));
  if (m > 900) m = 900;
  int guard = 0;
  while ((int)p.cls.size() < m && guard++ < 20 * m + 100) {
    Cls c = rndClause(r, p, r.chance(80) ? len : r.range(2, len + 2), neg, r.chance(85));
    if (!c.empty() && clsTrue(c, p.planted)) p.cls.push_back(c);
  }
  return p;
}

static void distinct(Problem &p, int a, int b) {
  int d = std::min(p.dom[a], p.dom[b]);
  for (int i = 0; i < d; i++) p.cls.push_back(Cls{{a, i, false}, {b, i, false}});
}

Problem genChain(Rng &r, const GenOpt &, int n) {
  Problem p;
  p.kind = "chain";
  rndDomains(r, p, n, 2, r.range(2, 4));
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  std::vector<int> order;
  for (int v = 1; v <= n; v++) order.push_back(v);
  if (r.chance(60)) r.shuffle(order);
  for (int i = 0; i + 1 < n; i++) {
    int a = order[i], b = order[i + 1];
    // a = planted -> b = planted, written with one or several literals
    p.cls.push_back(Cls{{a, p.planted[a], false}, {b, p.planted[b], true}});
    if (r.chance(30)) p.cls.push_back(Cls{{b, p.planted[b], false}, {a, p.planted[a], true}});
  }
  if (r.chance(50)) p.cls.push_back(Cls{{order[0], p.planted[order[0]], true}});
  r.shuffle(p.cls);
  return p;
}

static Problem genStructured0(Rng &r, const GenOpt &o);
Problem genStructured(Rng &r, const GenOpt &o) { Problem p = genStructured0(r, o); return mayWiden(r, o, p); }
static Problem genStructured0(Rng &r, const GenOpt &o) {
  Problem p;
  int w = r.below(9);
  switch (w) {
    case 0: {  // pigeons into holes
      int h = r.range(2, 5), g = h + r.range(0, 1);
      p.kind = "pigeonhole";
      rndDomains(r, p, g, h, h);
      for (int i = 1; i <= g; i++) for (int j = i + 1; j <= g; j++) distinct(p, i, j);
      break;
    }
    case 1: {  // queens
      int n = r.range(2, 7);
      p.kind = "queens";
      rndDomains(r, p, n, n, n);
      for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++)
        if (a == b || abs(a - b) == j - i) p.cls.push_back(Cls{{i, a, false}, {j, b, false}});
      break;
    }
    case 2: {  // graph colouring, colours per vertex vary
      int n = r.range(5, 14), k = r.range(2, 4);
      p.kind = "colouring";
      rndDomains(r, p, n, std::max(2, k - 1), k);
      int e = (int)(n * (k == 2 ? 1.1 : k == 3 ? 2.3 : 4.4) * (0.8 + 0.4 * r.unit()));
      for (int i = 0; i < e; i++) { int a = r.range(1, n), b = r.range(1, n); if (a != b) distinct(p, a, b); }
      break;
    }
    case 3: {  // latin square, some cells given
      int n = r.range(2, 4);
      p.kind = "latin";
      rndDomains(r, p, n * n, n, n);
      auto id = [&](int i, int j) { return i * n + j + 1; };
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = j + 1; k < n; k++) { distinct(p, id(i, j), id(i, k)); distinct(p, id(j, i), id(k, i)); }
      int g = r.below(n * 2);
      for (int i = 0; i < g; i++) p.cls.push_back(Cls{{r.range(1, n * n), r.below(n), true}});
      break;
    }
    case 4: {  // parity constraints over two-valued variables
      int n = r.range(4, 12), m = r.range(n / 2, n);
      p.kind = "parity";
      rndDomains(r, p, n, 2, 2);
      for (int i = 0; i < m; i++) {
        int a = r.range(1, n), b = r.range(1, n), c = r.range(1, n);
        if (a == b || b == c || a == c) continue;
        int rhs = r.below(2);
        for (int x = 0; x < 8; x++) {
          int s = (x & 1) ^ (x >> 1 & 1) ^ (x >> 2 & 1);
          if (s == rhs) continue;
          bool f = r.chance(50);
          p.cls.push_back(Cls{{a, f ? x & 1 : 1 - (x & 1), !f}, {b, x >> 1 & 1, false}, {c, x >> 2 & 1, false}});
        }
      }
      break;
    }
    case 5: p = genChain(r, o, r.range(5, 40)); break;
    case 6: {  // nothing, or nearly nothing, constrained
      p.kind = "loose";
      rndDomains(r, p, r.range(1, 6), o.degenerate ? 1 : 2, 6);
      int m = r.below(3);
      for (int i = 0; i < m; i++) p.cls.push_back(rndClause(r, p, r.range(1, 3), 50, false));
      break;
    }
    case 7: {  // modular sum / functional constraints  z = (x + y) mod d
      int d = r.range(2, 3), n = r.range(4, 8);
      p.kind = "modular";
      rndDomains(r, p, n, d, d);
      int m = r.range(2, n);
      for (int i = 0; i < m; i++) {
        int a = r.range(1, n), b = r.range(1, n), c = r.range(1, n);
        if (a == b || b == c || a == c) continue;
        for (int x = 0; x < d; x++) for (int y = 0; y < d; y++) p.cls.push_back(Cls{{a, x, false}, {b, y, false}, {c, (x + y) % d, true}});
      }
      break;
    }
    default: {  // clauses listing several values per variable ("x in S or y in T")
      int n = r.range(4, 9), d = r.range(3, 6);
      p.kind = "sets";
      rndDomains(r, p, n, 3, d);
      int m = r.range(n, 4 * n);
      for (int i = 0; i < m; i++) {
        Cls c;
        int k = r.range(1, 3);
        for (int j = 0; j < k; j++) {
          int v = r.range(1, n);
          for (int x = 0; x < p.dom[v]; x++) if (r.chance(30)) c.push_back({v, x, r.chance(85)});
        }
        c = normal(c);
        r.shuffle(c);
        if (!c.empty()) p.cls.push_back(c);
      }
    }
  }
  if (r.chance(50)) {
    r.shuffle(p.cls);
    for (auto &c : p.cls) if (r.chance(50)) r.shuffle(c);
  }
  if (o.degenerate && r.chance(10)) { addDegenerate(r, p, true); p.kind += "+degenerate"; }
  return p;
}

Problem genLargeDomain(Rng &r, const GenOpt &o) {
  Problem p;
  p.kind = "large-domain";
  int n = r.range(1, 4);
  static const int ds[] = {5, 9, 16, 31, 32, 33, 48, 60, 63, 64, 65, 100, 130, 256, 300};
  for (int i = 0; i < n; i++) { int d; do d = ds[r.below(15)]; while (d > o.maxDom); p.dom.push_back(d); }
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.chance(40) ? p.dom[v] - 1 : r.below(p.dom[v]);
  // nibble most values away
  for (int v = 1; v <= n; v++) {
    int keep = r.range(0, 4);
    for (int d = 0; d < p.dom[v]; d++) {
      if (d == p.planted[v]) continue;
      if (keep > 0 && r.chance(10)) { keep--; continue; }
      if (n > 1 && r.chance(30)) {
        int u = r.range(1, n);
        if (u != v) { p.cls.push_back(Cls{{v, d, false}, {u, r.below(p.dom[u]), r.chance(50)}}); if (!clsTrue(p.cls.back(), p.planted)) p.cls.pop_back(); continue; }
      }
      p.cls.push_back(Cls{{v, d, false}});
    }
  }
  r.shuffle(p.cls);
  if (r.chance(30)) { p.cls.push_back(Cls{{1, p.planted[1], false}}); p.planted.clear(); }
  return p;
}

Problem genLong(Rng &r, const GenOpt &o) {
  Problem p;
  p.kind = "long-clauses";
  int n = r.range(3, 40), d = r.range(2, std::min(30, o.maxDom));
  rndDomains(r, p, n, 2, d);
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  int m = r.range(1, 8);
  for (int i = 0; i < m; i++) {
    int len = r.range(20, r.chance(60) ? 1500 : 120);
    Cls c;
    for (int j = 0; j < len; j++) c.push_back(rndLit(r, p, 0));
    // often only the last literal can make the clause true
    if (r.chance(60)) {
      Cls k;
      for (auto &l : c) if (!litTrue(l, p.planted)) k.push_back(l);
      int v = r.range(1, n);
      k.push_back({v, p.planted[v], true});
      c = k;
    }
    if (!o.degenerate) { Cls k; for (auto &l : c) { bool dup = false; for (auto &x : k) if (x == l) dup = true; if (!dup) k.push_back(l); } c = k; }
    if (clsTrue(c, p.planted)) p.cls.push_back(c);
  }
  int u = r.below(n);
  for (int i = 0; i < u; i++) {
    int v = r.range(1, n);
    if (r.chance(50)) p.cls.push_back(Cls{{v, p.planted[v], true}});
    else { int x = r.below(p.dom[v]); if (x != p.planted[v]) p.cls.push_back(Cls{{v, x, false}}); }
  }
  r.shuffle(p.cls);
  return p;
}

// many variables and hardly any constraint: a search as deep as the problem is large
Problem genDeep(Rng &r, const GenOpt &o, int n) {
  Problem p;
  p.kind = "deep";
  rndDomains(r, p, n, 2, r.range(2, 4));
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  int m = r.range(0, n / 4);
  for (int i = 0; i < m; i++) {
    // neighbours only: a search in the order of the variables has nothing far away to undo
    int at = r.range(1, std::max(1, n - 5)), len = r.range(2, 3);
    Cls c;
    for (int j = 0; j < len; j++) { int v = std::min(n, at + 2 * j + r.below(2)); c.push_back({v, r.below(p.dom[v]), r.chance(30)}); }
    if (clsTrue(c, p.planted)) p.cls.push_back(c);
  }
  return p;
}

// many variables that every heuristic decides first, then a core full of conflicts; not for chronological search
Problem genDeepCore(Rng &r, int free) {
  Problem p;
  p.kind = "deep-core";
  int h = r.range(3, 4), k = h + (r.chance(40) ? 1 : r.chance(50) ? 3 : 0), n = free + k;
  std::vector<int> id(n);
  for (int i = 0; i < n; i++) id[i] = i + 1;
  if (r.chance(50)) r.shuffle(id);
  p.dom.assign(n + 1, 0);
  p.planted.assign(n + 1, 0);
  for (int i = 0; i < n; i++) { p.dom[id[i]] = i < free ? 2 : h; p.planted[id[i]] = i < free ? 1 : r.below(h); }
  for (int i = 0; i < free; i++) for (int j = r.range(3, 6); j > 0; j--) {
    Cls c{{id[i], 1, true}};
    for (int t = 0; t < 2; t++) { int o = id[r.below(free)]; if (o != c[0].var && (c.size() < 2 || o != c[1].var)) c.push_back({o, 1, true}); }
    if (c.size() > 1) p.cls.push_back(c);
  }
  if (k == h + 1) {                      // pigeons
    for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) distinct(p, id[free + i], id[free + j]);
    p.planted.clear();
  } else {                               // a planted colouring with some odd clauses
    for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (r.chance(80)) {
      int a = id[free + i], b = id[free + j];
      for (int x = 0; x < h; x++) for (int y = 0; y < h; y++)
        if ((p.planted[a] != x || p.planted[b] != y) && r.chance(x == y ? 80 : 35)) p.cls.push_back(Cls{{a, x, false}, {b, y, false}});
    }
  }
  return p;
}

// tens of thousands of clauses (or of literals of one variable), decided mostly by propagation
// few clauses, some of them with tens of thousands of literals on one line
static Problem genWideClauses(Rng &r) {
  Problem p;
  p.kind = "huge";
  int n = r.range(900, 2500);
  rndDomains(r, p, n, 8, r.range(10, 20));
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  int last = r.range(1, n);              // the long clause depends on its last literal
  int ruledOut = r.chance(50) ? 100 : 97;
  Cls c;
  for (int v = 1; v <= n; v++) for (int d = 0; d < p.dom[v]; d++) if (v != last && d != p.planted[v]) c.push_back({v, d, true});
  r.shuffle(c);
  c.push_back({last, p.planted[last], true});
  p.cls.push_back(c);
  for (int v = 1; v <= n; v++) if (v != last) for (int d = 0; d < p.dom[v]; d++) if (d != p.planted[v] && r.chance(ruledOut)) p.cls.push_back({{v, d, false}});
  for (int d = 0; d < p.dom[last]; d++) if (d != p.planted[last] && r.chance(80)) p.cls.push_back({{last, d, false}});
  r.shuffle(p.cls);
  return p;
}
// more than 32767 variables, nearly all of them fixed by a chain, and a core spread among them
static Problem genManyVariables(Rng &r) {
  Problem p;
  p.kind = "many-variables";
  int n = r.chance(35) ? r.range(65500, 67500) : r.range(32700, 34500);
  p.dom.assign(n + 1, 2);
  p.dom[0] = 0;
  p.planted.assign(n + 1, 0);
  GenOpt o;
  o.maxDom = 12;
  Problem q = r.chance(50) ? genMid(r, o) : genPlanted(r, o, 4, 16);
  std::vector<int> wit;
  bool known = !q.planted.empty() && isModel(q, q.planted);
  if (known) wit = q.planted;
  else known = decide(q, 20000, &wit) == 1;
  std::set<int> ids;
  while ((int)ids.size() < q.n()) ids.insert(r.chance(70) ? n - r.below(600) : r.range(1, n));
  std::vector<int> id(ids.begin(), ids.end());
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(2);
  for (int v = 1; v <= q.n(); v++) { p.dom[id[v - 1]] = q.dom[v]; p.planted[id[v - 1]] = known ? wit[v] : 0; }
  std::vector<Cls> k;
  for (auto c : q.cls) { for (auto &l : c) l.var = id[l.var - 1]; k.push_back(c); }
  bool tail = r.chance(60);
  if (!tail) p.cls = k;
  int at = 0;
  for (int v = 1; v <= n; v++) {
    if (ids.count(v)) continue;
    if (!at) { if (r.chance(70)) p.cls.push_back(Cls{{v, p.planted[v], true}}); }
    else {
      p.cls.push_back(Cls{{at, p.planted[at], false}, {v, p.planted[v], true}});
      p.cls.push_back(Cls{{at, p.planted[at], true}, {v, p.planted[v], r.chance(70)}});
    }
    at = v;
  }
  if (tail) for (auto &x : k) p.cls.push_back(x);
  if (!known) p.planted.clear();
  return p;
}
Problem genHuge(Rng &r, const GenOpt &o) {
  if (r.chance(15)) return genWideClauses(r);
  if (r.chance(20)) return genManyVariables(r);
  Problem p;
  p.kind = "huge";
  bool excl = r.chance(25);              // only negative literals, each of them thousands of times
  int n = excl ? r.range(8, 20) : r.range(20, 120), m = r.chance(50) ? r.range(33000, 40000) : r.range(66000, 72000);
  rndDomains(r, p, n, 2, excl ? 3 : r.range(2, 5));
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  bool crowd = r.chance(40);             // one variable in every clause
  // few clauses matter up to number 32768, more behind
  int loose = r.range(0, m);
  (void)o;
  for (int i = 0; i < m; i++) {
    Cls c;
    int len = r.range(2, 4);
    for (int t = 0; t < 50 && (int)c.size() < len; t++) {
      int v = crowd && c.empty() ? 1 : r.range(1, n);
      bool dup = false;
      for (auto &l : c) if (l.var == v) dup = true;
      if (dup) continue;
      if (excl) c.push_back({v, r.below(p.dom[v]), false});
      else if (i < loose && c.size() == 1) c.push_back({v, p.planted[v], true});
      else c.push_back({v, r.below(p.dom[v]), r.chance(50)});
    }
    if (clsTrue(c, p.planted)) p.cls.push_back(c); else i--;
  }
  if (r.chance(25)) {                    // the last clauses contradict
    p.cls.push_back(Cls{{n, 0, true}, {n - 1, 0, true}});
    for (int a = 0; a < p.dom[n]; a++) for (int b = 0; b < p.dom[n - 1]; b++) p.cls.push_back(Cls{{n, a, false}, {n - 1, b, false}});
    p.planted.clear();
  }
  return p;
}
// a hard core, and for a search with restarts many variables that are decided again and again
Problem genLongRun(Rng &r, bool chrono) {
  Problem p;
  p.kind = "long-run";
  int h = chrono ? (r.chance(85) ? 7 : 6) : r.range(5, 7), extra = chrono ? 0 : r.range(60, 260), n = h + 1 + extra;
  std::vector<int> id(n);
  for (int i = 0; i < n; i++) id[i] = i + 1;
  r.shuffle(id);
  p.dom.assign(n + 1, 0);
  for (int i = 0; i < n; i++) p.dom[id[i]] = i <= h ? h : r.range(2, 3);
  auto core = [&] {
    for (int i = 0; i <= h; i++) for (int j = i + 1; j <= h; j++) for (int d = 0; d < h; d++)
      p.cls.push_back(r.chance(50) ? Cls{{id[i], d, false}, {id[j], d, false}} : Cls{{id[j], d, false}, {id[i], d, false}});
  };
  auto loose = [&] {
    for (int i = h + 1; i < n; i++) for (int k = 0; k < 3; k++) {
      int o = id[r.range(h + 1, n - 1)];
      if (o != id[i]) p.cls.push_back(Cls{{id[i], r.below(p.dom[id[i]]), true}, {o, r.below(p.dom[o]), true}});
    }
  };
  if (r.chance(80)) { loose(); core(); } else { core(); loose(); }
  if (chrono && r.chance(40)) {          // everything twice
    p.dom.push_back(2);
    for (int k = r.range(1, 4); k > 0; k--) p.cls.push_back(Cls{{n + 1, r.below(2), true}, {n + 1, r.below(2), true}});
  }
  return p;
}
// one assignment makes hundreds of clauses unit at once
static Problem genFan(Rng &r) {
  Problem p;
  p.kind = "fan";
  int hubs = r.range(1, 4), leaves = r.range(300, r.chance(60) ? 2000 : 700), n = hubs + leaves;
  rndDomains(r, p, n, 2, r.range(2, 3));
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  std::vector<int> id(n);
  for (int i = 0; i < n; i++) id[i] = i + 1;
  if (r.chance(50)) r.shuffle(id);
  for (int i = hubs; i < n; i++) {
    int h = id[r.chance(85) ? 0 : r.below(hubs)], x = r.below(r.chance(90) ? 2 : p.dom[h]);
    Cls c{{h, x, false}, {id[i], r.below(p.dom[id[i]]), r.chance(60)}};
    if (!clsTrue(c, p.planted)) c[1] = {id[i], p.planted[id[i]], true};
    if (r.chance(30)) std::swap(c[0], c[1]);
    p.cls.push_back(c);
  }
  int m = r.range(0, leaves / 2);
  for (int i = 0; i < m; i++) {
    Cls c;
    for (int j = r.range(2, 3); j > 0; j--) { int v = id[r.range(r.chance(10) ? 0 : hubs, n - 1)]; bool dup = false; for (auto &l : c) if (l.var == v) dup = true; if (!dup) c.push_back({v, r.below(p.dom[v]), r.chance(60)}); }
    if (r.chance(3) || clsTrue(c, p.planted)) p.cls.push_back(c);
  }
  for (auto &c : p.cls) if (!clsTrue(c, p.planted)) { p.planted.clear(); break; }
  r.shuffle(p.cls);
  return p;
}

// a variable that loses its many values one after the other, by clauses and by entailment, before a conflict about the first ones
static Problem genNarrow(Rng &r, const GenOpt &o) {
  Problem p;
  p.kind = "narrowing";
  int d = std::min(o.maxDom, r.range(34, 64)), wide = r.range(1, 3), k = d + r.range(0, 10), n = wide + k;
  p.dom.assign(n + 1, 2);
  for (int v = 1; v <= wide; v++) p.dom[v] = d;
  bool chain = r.chance(70);
  for (int i = 1; i < k; i++) if (chain && r.chance(85)) p.cls.push_back(Cls{{wide + i, 1, false}, {wide + i + 1, 1, true}});   // one after the other
  for (int v = 1; v <= wide; v++) {
    std::vector<int> val(d);
    for (int i = 0; i < d; i++) val[i] = i;
    r.shuffle(val);
    int leave = r.range(0, 3);
    for (int i = 0; i < d - leave; i++) {
      Cls c{{wide + 1 + i, 1, false}, {v, val[i], false}};
      if (r.chance(20)) c.push_back({wide + 1 + r.below(k), 1, false});
      if (c.size() == 3 && c[2].var == c[0].var) c.pop_back();
      p.cls.push_back(c);
    }
  }
  int m = r.range(2, 30);
  for (int i = 0; i < m; i++) {
    Cls c;
    int v = r.range(1, wide);
    for (int j = r.range(1, 4); j > 0; j--) c.push_back({v, r.below(d), true});
    for (int j = r.range(0, 2); j > 0; j--) { int x = wide + 1 + r.below(k); c.push_back({x, r.below(2), true}); }
    if (c.size() > 1) p.cls.push_back(c);
  }
  if (!o.degenerate) for (auto &c : p.cls) { Cls q; for (auto &l : c) { bool dup = false; for (auto &x : q) if (x.var == l.var && x.val == l.val) dup = true; if (!dup) q.push_back(l); } c = q; }
  if (r.chance(50)) p.cls.push_back(Cls{{wide + 1, 1, true}, {wide + 2, 1, true}});
  if (r.chance(60)) {                    // satisfiable, everything on
    p.planted.assign(n + 1, 1);
    for (int v = 1; v <= wide; v++) p.planted[v] = r.below(d);
    std::vector<Cls> keep;
    for (auto &c : p.cls) if (clsTrue(c, p.planted)) keep.push_back(c);
    p.cls = keep;
  }
  r.shuffle(p.cls);
  return p;
}

// long clauses over many variables in which a variable comes back much later
static Problem genComingBack(Rng &r) {
  Problem p;
  p.kind = "coming-back";
  int n = r.range(75, 220);
  rndDomains(r, p, n, 2, r.range(3, 6));
  p.planted.assign(n + 1, 0);
  for (int v = 1; v <= n; v++) p.planted[v] = r.below(p.dom[v]);
  int m = r.range(1, 4), late = 5, forced = r.chance(60) ? 100 : r.chance(50) ? 25 : 95;
  for (int v = 1; v <= late; v++) { p.dom[v] = r.range(3, 5); p.planted[v] = r.below(p.dom[v]); }
  for (int i = 0; i < m; i++) {
    std::vector<int> id, rest;
    for (int j = 1; j <= n; j++) (j <= late ? id : rest).push_back(j);
    r.shuffle(id);
    r.shuffle(rest);
    id.pop_back();
    if (r.chance(50)) id.resize(r.range(1, 4)), id.resize(4, id[0]);
    id.insert(id.end(), rest.begin(), rest.end());
    int len = r.range(70, (int)id.size());
    Cls c;
    for (int j = 0; j < len; j++) { int v = id[j]; c.push_back({v, (p.planted[v] + 1 + r.below(p.dom[v] - 1)) % p.dom[v], true}); }
    for (int j = r.range(1, 6); j > 0; j--) { int v = id[r.below(4)]; if (p.dom[v] > 2 || r.chance(30)) { Lit l{v, r.below(p.dom[v]), true}; c.insert(c.end() - r.below(std::max(1, len - 65)), l); } }
    if (!clsTrue(c, p.planted)) c.push_back({id[r.below(4)], 0, true}), c.back().val = p.planted[c.back().var];
    Cls k;
    for (auto &l : c) { bool dup = false; for (auto &x : k) if (x.var == l.var && x.val == l.val) dup = true; if (!dup) k.push_back(l); }
    p.cls.push_back(k);
  }
  // what makes the long clauses short
  for (int v = 1; v <= n; v++) {
    int w = r.range(1, n);
    if (r.chance(70) && w != v) p.cls.push_back(Cls{{v, p.planted[v], true}, {w, (p.planted[w] + 1) % p.dom[w], true}});
    if (v > late && r.chance(forced)) p.cls.push_back(Cls{{v, p.planted[v], true}});
  }
  for (int v = 1; v <= late; v++) for (int x = 0; x < p.dom[v]; x++) if (x != p.planted[v] && r.chance(forced == 100 ? 60 : 20)) {   // not this value, which takes some search
    int u = 1 + v % late, y = r.below(p.dom[u]);
    p.cls.push_back(Cls{{v, x, false}, {u, y, true}});
    p.cls.push_back(Cls{{v, x, false}, {u, y, false}});
  }
  for (int i = r.range(0, 12); i > 0; i--) {
    Cls c;
    for (int j = r.range(2, 3); j > 0; j--) { int v = r.range(1, late); c.push_back({v, r.below(p.dom[v]), r.chance(40)}); }
    if (clsTrue(c, p.planted)) p.cls.push_back(c);
  }
  r.shuffle(p.cls);
  return p;
}

// a variable loses a value at each of many levels; then a conflict depends on one of the first
static Problem genLateConflict(Rng &r, const GenOpt &o) {
  Problem p;
  p.kind = "late-conflict";
  int d = std::min(o.maxDom, r.range(40, 64)), k = d - r.range(1, 6), t = r.range(1, 6), n = 1 + 2 * k + 3 * t;
  p.dom.assign(n + 1, 2);
  p.planted.assign(n + 1, 1);
  std::vector<int> id(n);
  for (int i = 0; i < n; i++) id[i] = i + 1;
  if (r.chance(50)) r.shuffle(id);
  int v = id[0];
  p.dom[v] = d;
  std::vector<int> val(d);
  for (int i = 0; i < d; i++) val[i] = i;
  r.shuffle(val);
  p.planted[v] = val[d - 1];
  std::vector<Cls> back;
  for (int i = 0; i < k; i++) {
    int x = id[1 + i], z = id[1 + k + i];
    for (int j = r.range(2, 4); j > 0; j--) p.cls.push_back(Cls{{x, 1, true}, {z, 1, true}});
    back.push_back(Cls{{x, 1, false}, {v, val[i], false}});
  }
  for (int i = 0; i < t; i++) {
    int s = id[1 + 2 * k + 3 * i], y = id[2 + 2 * k + 3 * i], z = id[3 + 2 * k + 3 * i];
    Cls c{{v, val[r.below(k)], true}, {s, 0, true}};
    if (r.chance(50)) c.push_back({v, val[r.below(k)], true});
    if (r.chance(30)) c.push_back({id[1 + r.below(k)], 0, true});
    for (int w = 0; w < 2; w++) { Cls e = c; e.push_back({y, w, true}); if (r.chance(50)) std::swap(e[0], e.back()); back.push_back(e); }
    p.cls.push_back(Cls{{s, 1, true}, {z, 1, true}});
    if (r.chance(50)) p.cls.push_back(Cls{{s, 1, true}, {z, 1, true}});
    p.planted[s] = 0;
  }
  if (r.chance(30)) r.shuffle(p.cls);
  if (r.chance(30)) r.shuffle(back);
  p.cls.insert(p.cls.end(), back.begin(), back.end());
  if (!o.degenerate) for (auto &c : p.cls) { Cls q; for (auto &l : c) { bool dup = false; for (auto &x : q) if (x == l) dup = true; if (!dup) q.push_back(l); } c = q; }
  return p;
}

Problem genSpecial(Rng &r, const GenOpt &o) {
  int w = r.below(10);
  return w < 2 ? genFan(r) : w < 4 && o.maxDom >= 34 ? genNarrow(r, o) : w < 7 && o.maxDom >= 40 ? genLateConflict(r, o) : genComingBack(r);
}

Problem genAny(Rng &r, const GenOpt &o) {
  int w = r.below(100);
  if (w < 50) return genSmall(r, o);
  if (w < 65) return genStructured(r, o);
  if (w < 78) return genMid(r, o);
  if (w < 90) return genPlanted(r, o, 6, 22);
  if (w < 95) return genLargeDomain(r, o);
  if (w < 97) return genLong(r, o);
  if (r.chance(30)) return genSpecial(r, o);
  return genChain(r, o, r.range(20, 120));
}

// ---------------------------------------------------------------- layouts

static str blanks(Rng &r, bool wild) {
  if (!wild) return " ";
  str s;
  int k = r.chance(70) ? 1 : r.range(1, 5);
  for (int i = 0; i < k; i++) s += r.chance(75) ? ' ' : '\t';
  return s;
}

static str comment(Rng &r) {
  static const char *t[] = {"c", "c comment", "c p cnf 3 4", "c d 1 1", "c 1=0 0", "c 0", "c a long comment with several words in it, and a number 17",
                            "c 1!=0 2!=0 0", "cccc", "c\tc\tc"};
  str s = t[r.below(10)];
  if (r.chance(3)) s += str(r.range(2900, 3300), 'x');
  return s + "\n";
}

str writeLayout(Rng &r, const Problem &p, bool wild, str *desc) {
  str s;
  bool cm = wild && r.chance(60), bl = wild && r.chance(40), lead = wild && r.chance(30), trail = wild && r.chance(40);
  bool kwmv = r.chance(50), noZero = wild && r.chance(15), sepMix = wild && r.chance(50), noEol = wild && r.chance(25);
  bool lz = wild && r.chance(15);
  bool vast = wild && r.below(250) == 0;    // lines beyond any buffer
  int pads = vast ? r.range(1, 6) : 0;
  auto pad = [&] { return pads > 0 && r.chance(15) ? (pads--, str(r.range(3000, 140000), ' ')) : str(); };
  auto num = [&](int x) { return vast && r.chance(5) ? str(r.range(200, 5000), '0') + std::to_string(x) : lz && r.chance(40) ? str(r.range(1, 3), '0') + std::to_string(x) : std::to_string(x); };
  if (vast && r.chance(60)) s += "c " + str(r.range(3000, 140000), '1') + " 2=0 0\n";
  if (cm) { int k = r.range(0, 3); while (k--) s += comment(r); }
  s += "p" + str(wild ? blanks(r, sepMix) : " ") + (kwmv ? "mvcnf" : "cnf") + " " + std::to_string(p.n()) + " " + std::to_string(p.cls.size()) + "\n";
  for (int v = 1; v <= p.n(); v++) {
    if (cm && r.chance(15)) s += comment(r);
    s += "d" + blanks(r, sepMix) + std::to_string(v) + blanks(r, sepMix) + std::to_string(p.dom[v]);
    if (trail && r.chance(30)) s += " ";
    s += "\n";
  }
  for (size_t i = 0; i < p.cls.size(); i++) {
    if (cm && r.chance(15)) s += comment(r);
    if (bl && r.chance(15)) { int k = r.range(1, 2); while (k--) s += r.chance(60) ? "\n" : r.chance(50) ? " \n" : "\t \n"; }
    const Cls &c = p.cls[i];
    if (lead && r.chance(40)) s += blanks(r, true);
    for (size_t j = 0; j < c.size(); j++) {
      if (j) s += blanks(r, sepMix) + pad();
      s += num(c[j].var) + (c[j].eq ? "=" : "!=") + num(c[j].val);
    }
    bool z = !(noZero && r.chance(40)) || c.empty();
    if (z) { if (!c.empty()) s += blanks(r, sepMix) + pad(); s += "0"; }
    if (trail && r.chance(40)) s += blanks(r, true);
    s += "\n";
  }
  if (bl && r.chance(60)) s += "\n";
  if (cm && r.chance(20)) s += comment(r);
  if (noEol && !s.empty() && s.back() == '\n') s.pop_back();
  if (desc) *desc = fmt("comments=%d blank-lines=%d leading=%d trailing=%d %s zero-terminated=%d mixed-separators=%d no-final-newline=%d leading-zeros=%d very-long-lines=%d", cm, bl, lead, trail,
                        kwmv ? "mvcnf" : "cnf", !noZero, sepMix, noEol, lz, vast);
  return s;
}

// ---------------------------------------------------------------- boolean CNF

Cnf genCnf(Rng &r, int maxVar) {
  Cnf c;
  c.n = r.range(1, maxVar);
  int m = r.below(4 * c.n + 2);
  int used = r.chance(30) ? r.range(1, c.n) : c.n;
  int base = r.chance(50) ? 0 : r.below(c.n - used + 1);
  for (int i = 0; i < m; i++) {
    std::vector<int> k;
    int len = r.chance(2) ? 0 : r.range(1, r.chance(90) ? 4 : 12);
    for (int j = 0; j < len; j++) {
      int v = base + r.range(1, used);
      k.push_back(r.chance(50) ? v : -v);
    }
    if (r.chance(85)) {
      std::vector<int> q;
      for (int x : k) { bool dup = false; for (int y : q) if (x == y) dup = true; if (!dup) q.push_back(x); }
      k = q;
    }
    c.cls.push_back(k);
  }
  if (r.chance(4)) {            // one very long clause
    std::vector<int> k;
    int len = r.range(800, 1600);
    for (int j = 0; j < len; j++) { int v = r.range(1, c.n); k.push_back(r.chance(50) ? v : -v); }
    c.cls.insert(c.cls.begin() + r.below((int)c.cls.size() + 1), k);
  }
  return c;
}

Cnf genBigCnf(Rng &r) {
  Cnf c;
  c.n = r.chance(50) ? r.range(100, 3000) : r.chance(80) ? r.range(33000, 70000) : r.range(100000, 200000);
  int m = r.chance(70) ? r.range(33000, 70000) : r.range(100, 3000);
  int wide = r.chance(40) ? r.below(m) : -1;   // one clause on a very long line
  for (int i = 0; i < m; i++) {
    std::vector<int> k;
    int len = i == wide ? 20000 : r.range(1, 4);
    for (int j = 0; j < len; j++) { int v = r.range(1, c.n); if (i + 3 > m) v = c.n - r.below(3); k.push_back(r.chance(50) ? v : -v); }
    c.cls.push_back(k);
  }
  return c;
}

str writeCnf(Rng &r, const Cnf &c, bool wild, bool satlib) {
  str s;
  bool zeros = wild && r.chance(12);
  bool cm = wild && r.chance(50), bl = wild && r.chance(30), sep = wild && r.chance(40);
  if (cm) { int k = r.range(0, 3); while (k--) s += comment(r); }
  if (wild && r.below(250) == 0) s += "c " + str(r.range(3000, 140000), '1') + " 2 0\n";
  s += "p cnf " + std::to_string(c.n) + " " + std::to_string(c.cls.size()) + "\n";
  for (auto &k : c.cls) {
    if (cm && r.chance(10)) s += comment(r);
    if (bl && r.chance(10)) s += r.chance(50) ? "\n" : "  \n";
    for (int x : k) {
      if (zeros && r.chance(30)) s += fmt("%s%0*d", x < 0 ? "-" : "", r.range(1, 8), abs(x));
      else s += std::to_string(x);
      s += blanks(r, sep);
    }
    s += "0\n";
  }
  if (satlib) s += "%\n0\n\n";
  else if (bl && r.chance(40)) s += "\n";
  return s;
}
