// Canonical rational functions over Q: numerator polynomial over a multiset of interned denominator factors.
#pragma once
#include <gmpxx.h>
#include <map>
#include <vector>
#include <memory>
#include <stdexcept>
#include <cstdint>
#include <algorithm>

using Mono = std::vector<std::pair<uint32_t, int>>; // sorted by variable, exponents > 0
struct MonoLess { // graded lexicographic
  static int deg(Mono const &m) { int d = 0; for (auto &p : m) d += p.second; return d; }
  bool operator()(Mono const &a, Mono const &b) const {
    int da = deg(a), db = deg(b);
    if (da != db) return da > db;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
      if (a[i].first != b[i].first) return a[i].first < b[i].first;
      if (a[i].second != b[i].second) return a[i].second > b[i].second;
    }
    return false; // same degree: equal
  }
};
using Poly = std::map<Mono, mpq_class, MonoLess>;
struct Blowup : std::runtime_error { using std::runtime_error::runtime_error; };
constexpr size_t MAXTERMS = 60000;

inline Poly pconst(mpq_class const &c) { Poly p; if (c != 0) p[{}] = c; return p; }
inline Poly pvar(uint32_t v) { Poly p; p[{{v, 1}}] = 1; return p; }
inline bool pisconst(Poly const &p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
inline mpq_class pconstval(Poly const &p) { return p.empty() ? mpq_class(0) : p.begin()->second; }
inline Mono mmul(Mono const &a, Mono const &b) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); ++i; ++j; }
  }
  return r;
}
inline bool mdiv(Mono const &a, Mono const &b, Mono &r) { // a / b
  r.clear();
  size_t j = 0;
  for (auto &p : a) {
    if (j < b.size() && b[j].first < p.first) return false;
    if (j < b.size() && b[j].first == p.first) {
      if (b[j].second > p.second) return false;
      if (p.second > b[j].second) r.push_back({p.first, p.second - b[j].second});
      ++j;
    } else r.push_back(p);
  }
  return j == b.size();
}
inline Poly padd(Poly const &a, Poly const &b, mpq_class const &f = 1) {
  Poly r = a;
  for (auto &t : b) {
    auto it = r.emplace(t.first, 0).first;
    it->second += f * t.second;
    if (it->second == 0) r.erase(it);
  }
  if (r.size() > MAXTERMS) throw Blowup("poly add");
  return r;
}
inline Poly pscale(Poly const &a, mpq_class const &f) {
  if (f == 0) return {};
  Poly r = a;
  for (auto &t : r) t.second *= f;
  return r;
}
inline Poly pmul(Poly const &a, Poly const &b) {
  if (a.empty() || b.empty()) return {};
  if (a.size() * b.size() > 40 * MAXTERMS) throw Blowup("poly mul");
  if (pisconst(a)) return pscale(b, pconstval(a));
  if (pisconst(b)) return pscale(a, pconstval(b));
  Poly r;
  for (auto &s : a)
    for (auto &t : b) {
      auto it = r.emplace(mmul(s.first, t.first), 0).first;
      it->second += s.second * t.second;
      if (it->second == 0) r.erase(it);
    }
  if (r.size() > MAXTERMS) throw Blowup("poly mul");
  return r;
}
inline Poly ppow(Poly const &a, int n) { Poly r = pconst(1); for (int i = 0; i < n; ++i) r = pmul(r, a); return r; }
// exact division, returns false if not divisible
inline bool pdivexact(Poly a, Poly const &b, Poly &q) {
  q.clear();
  if (b.empty()) return false;
  auto const &lb = *b.begin();
  Mono m;
  size_t steps = 0;
  while (!a.empty()) {
    auto const la = *a.begin();
    if (!mdiv(la.first, lb.first, m)) return false;
    mpq_class c = la.second / lb.second;
    { auto it = q.emplace(m, 0).first; it->second += c; if (it->second == 0) q.erase(it); }
    for (auto &t : b) {
      auto it = a.emplace(mmul(m, t.first), 0).first;
      it->second -= c * t.second;
      if (it->second == 0) a.erase(it);
    }
    if (++steps > 3000 || a.size() > 6000) return false;
  }
  return true;
}
struct RatFn {
  Poly num;
  std::map<uint32_t, int> den; // interned factor -> exponent
};
