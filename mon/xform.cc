#include "xform.h"

Problem xform(Rng &r, const Problem &in, str &what) {
  Problem p = in;
  p.planted.clear();
  what = "";
  auto say = [&](const char *s) { if (!what.empty()) what += "+"; what += s; };
  int n = p.n();
  if (n == 0) { what = "unchanged"; return p; }
  if (r.chance(50)) {            // renumber the variables
    std::vector<int> perm;
    for (int v = 1; v <= n; v++) perm.push_back(v);
    r.shuffle(perm);
    Problem q; q.kind = p.kind; q.dom.assign(n + 1, 0);
    for (int v = 1; v <= n; v++) q.dom[perm[v - 1]] = p.dom[v];
    q.cls = p.cls;
    for (auto &c : q.cls) for (auto &l : c) l.var = perm[l.var - 1];
    p = q;
    say("renumbered");
  }
  if (r.chance(50)) {            // permute the values of each variable
    std::vector<std::vector<int>> perm(n + 1);
    for (int v = 1; v <= n; v++) { for (int d = 0; d < p.dom[v]; d++) perm[v].push_back(d); r.shuffle(perm[v]); }
    for (auto &c : p.cls) for (auto &l : c) l.val = perm[l.var][l.val];
    say("values-permuted");
  }
  if (r.chance(60)) {
    r.shuffle(p.cls);
    for (auto &c : p.cls) r.shuffle(c);
    say("shuffled");
  }
  if (!p.cls.empty() && r.chance(35)) {       // repeat clauses and literals
    int k = r.range(1, 4);
    for (int i = 0; i < k; i++) {
      Cls c = r.pick(p.cls);
      if (!c.empty() && r.chance(60)) c.insert(c.begin() + r.below((int)c.size() + 1), r.pick(c));
      if (r.chance(50)) p.cls.insert(p.cls.begin() + r.below((int)p.cls.size() + 1), c);
      else { int j = r.below((int)p.cls.size()); if (!p.cls[j].empty()) p.cls[j].insert(p.cls[j].begin() + r.below((int)p.cls[j].size() + 1), r.pick(p.cls[j])); }
    }
    say("repeated");
  }
  if (r.chance(35)) {            // redundant clauses
    int k = r.range(1, 4);
    for (int i = 0; i < k; i++) {
      Cls c;
      int t = r.below(4);
      int v = r.range(1, p.n());
      if (t == 0 && p.dom[v] <= 10) for (int d = 0; d < p.dom[v]; d++) c.push_back({v, d, true});
      else if (t == 1) { int d = r.below(p.dom[v]); c = {{v, d, true}, {v, d, false}}; if (r.chance(50)) c.push_back({r.range(1, p.n()), 0, r.chance(50)}); }
      else if (t == 2 && p.dom[v] >= 2) { int d = r.below(p.dom[v]), e = r.below(p.dom[v]); if (d != e) c = {{v, d, false}, {v, e, false}}; }
      else if (!p.cls.empty()) {           // a weaker copy of a clause
        c = r.pick(p.cls);
        if (!c.empty()) { int x = r.range(1, 3); while (x--) { int u = r.range(1, p.n()); c.insert(c.begin() + r.below((int)c.size() + 1), Lit{u, r.below(p.dom[u]), r.chance(50)}); } }
      }
      if (!c.empty()) p.cls.insert(p.cls.begin() + r.below((int)p.cls.size() + 1), c);
    }
    say("redundant-clauses");
  }
  if (r.chance(30)) {            // an independent satisfiable part
    int k = r.range(1, 5), base = p.n();
    std::vector<int> a;
    for (int i = 0; i < k; i++) { p.dom.push_back(r.range(2, 4)); a.push_back(r.below(p.dom.back())); }
    int m = r.below(3 * k + 1);
    for (int i = 0; i < m; i++) {
      Cls c;
      int len = r.range(1, 3);
      for (int j = 0; j < len; j++) { int u = r.below(k); c.push_back({base + 1 + u, r.below(p.dom[base + 1 + u]), r.chance(50)}); }
      int u = r.below(k);
      c.push_back({base + 1 + u, a[u], true});
      r.shuffle(c);
      c = r.chance(50) ? normal(c) : c;
      p.cls.insert(p.cls.begin() + r.below((int)p.cls.size() + 1), c);
    }
    say("joined");
  }
  if (what.empty()) { r.shuffle(p.cls); what = "shuffled"; }
  return p;
}
