// Shared basics of the monitor: random numbers, problems, file helpers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef std::string str;

inline u64 mix64(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline u64 hashStr(const str &s) {
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix64(h);
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (u64)n); }
  int range(int a, int b) { return a + below(b - a + 1); }       // inclusive
  bool chance(int pct) { return below(100) < pct; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

struct Lit {
  int var, val;
  bool eq;
  bool operator==(const Lit &o) const { return var == o.var && val == o.val && eq == o.eq; }
  bool operator<(const Lit &o) const {
    if (var != o.var) return var < o.var;
    if (val != o.val) return val < o.val;
    return eq < o.eq;
  }
};
typedef std::vector<Lit> Cls;

// dom[0] is unused; variables are 1..n with values 0..dom[v]-1
struct Problem {
  std::vector<int> dom = {0};
  std::vector<Cls> cls;
  std::vector<int> planted;   // a model, when the generator knows one (1-based), else empty
  str kind;
  int n() const { return (int)dom.size() - 1; }
};

inline bool litTrue(const Lit &l, const std::vector<int> &a) { return (a[l.var] == l.val) == l.eq; }
inline bool clsTrue(const Cls &c, const std::vector<int> &a) {
  for (auto &l : c) if (litTrue(l, a)) return true;
  return false;
}
inline bool isModel(const Problem &p, const std::vector<int> &a) {
  for (auto &c : p.cls) if (!clsTrue(c, a)) return false;
  return true;
}
inline Cls normal(Cls c) {
  std::sort(c.begin(), c.end());
  c.erase(std::unique(c.begin(), c.end()), c.end());
  return c;
}
inline u64 hashCls(const Cls &c) {          // c normalised
  u64 h = 7;
  for (auto &l : c) h = mix64(h ^ ((u64)l.var << 33) ^ ((u64)l.val << 1) ^ (u64)l.eq);
  return h;
}
inline u64 hashProblem(const Problem &p) {
  u64 h = 11;
  for (int d : p.dom) h = mix64(h ^ (u64)d);
  for (auto &c : p.cls) { h = mix64(h ^ 0x77); for (auto &l : c) h = mix64(h ^ ((u64)l.var << 33) ^ ((u64)l.val << 1) ^ (u64)l.eq); }
  return h;
}

inline str litStr(const Lit &l) { return std::to_string(l.var) + (l.eq ? "=" : "!=") + std::to_string(l.val); }
inline str clsStr(const Cls &c) {
  str s;
  for (auto &l : c) { if (!s.empty()) s += " "; s += litStr(l); }
  return s.empty() ? "(empty)" : s;
}

str writePlain(const Problem &p, const char *kw = "cnf");
bool writeFile(const str &path, const str &data);
bool readFile(const str &path, str &data);
str jsonEsc(const str &s);
str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
