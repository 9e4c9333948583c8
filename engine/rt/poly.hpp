// Exact multivariate polynomials and rational functions with factored denominators.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
typedef std::vector<uint32_t> Mono; // entries var*64+exp, sorted by var
static inline uint32_t mvar(uint32_t e) { return e >> 6; }
static inline uint32_t mexp(uint32_t e) { return e & 63; }
struct MonoCmp {
  bool operator()(const Mono &a, const Mono &b) const { // graded, then lex: larger first
    unsigned da = 0, db = 0;
    for (auto e : a) da += mexp(e);
    for (auto e : b) db += mexp(e);
    if (da != db) return da > db;
    return lexgt(a, b);
  }
  static bool lexgt(const Mono &a, const Mono &b) { // lex with lower var index more significant
    size_t i = 0;
    for (; i < a.size() && i < b.size(); i++) {
      if (a[i] == b[i]) continue;
      if (mvar(a[i]) != mvar(b[i])) return mvar(a[i]) < mvar(b[i]);
      return mexp(a[i]) > mexp(b[i]);
    }
    return a.size() > b.size();
  }
};
typedef std::pair<Mono, mpq_class> Term;
struct Poly {
  std::vector<Term> t; // sorted by MonoCmp
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first.empty()); }
  bool isZero() const { return t.empty(); }
  mpq_class cst() const { return t.empty() ? mpq_class(0) : t[0].second; }
  bool isOne() const { return t.size() == 1 && t[0].first.empty() && t[0].second == 1; }
};
static inline Poly pconst(const mpq_class &c) {
  Poly p;
  if (c != 0) p.t.push_back(Term(Mono(), c));
  return p;
}
static inline Poly pvar(uint32_t v) {
  Poly p;
  p.t.push_back(Term(Mono{v * 64 + 1}, mpq_class(1)));
  return p;
}
static inline Poly padd(const Poly &a, const Poly &b, const mpq_class &cb = mpq_class(1)) {
  Poly r;
  r.t.reserve(a.t.size() + b.t.size());
  MonoCmp lt;
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && lt(a.t[i].first, b.t[j].first)))
      r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || lt(b.t[j].first, a.t[i].first)) {
      r.t.push_back(Term(b.t[j].first, b.t[j].second * cb));
      j++;
    } else {
      mpq_class c = a.t[i].second + cb * b.t[j].second;
      if (c != 0) r.t.push_back(Term(a.t[i].first, c));
      i++;
      j++;
    }
  }
  return r;
}
static inline Poly pscale(const Poly &a, const mpq_class &c) {
  Poly r;
  if (c == 0) return r;
  r = a;
  for (auto &x : r.t) x.second *= c;
  return r;
}
static inline Mono mmul(const Mono &a, const Mono &b) {
  Mono r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && mvar(a[i]) < mvar(b[j]))) r.push_back(a[i++]);
    else if (i >= a.size() || mvar(b[j]) < mvar(a[i])) r.push_back(b[j++]);
    else {
      unsigned e = mexp(a[i]) + mexp(b[j]);
      assert(e < 64);
      r.push_back(mvar(a[i]) * 64 + e);
      i++;
      j++;
    }
  }
  return r;
}
static inline Poly pmul(const Poly &a, const Poly &b) {
  if (a.isConst()) return pscale(b, a.cst());
  if (b.isConst()) return pscale(a, b.cst());
  std::map<Mono, mpq_class, MonoCmp> m;
  for (auto &x : a.t)
    for (auto &y : b.t) {
      Mono k = mmul(x.first, y.first);
      auto it = m.find(k);
      if (it == m.end()) m.emplace(std::move(k), x.second * y.second);
      else it->second += x.second * y.second;
    }
  Poly r;
  for (auto &kv : m)
    if (kv.second != 0) r.t.push_back(Term(kv.first, kv.second));
  return r;
}
// does mono b divide a ?  q=a/b
static inline bool mdiv(const Mono &a, const Mono &b, Mono &q) {
  q.clear();
  size_t i = 0;
  for (size_t j = 0; j < b.size(); j++) {
    while (i < a.size() && mvar(a[i]) < mvar(b[j])) q.push_back(a[i++]);
    if (i >= a.size() || mvar(a[i]) != mvar(b[j]) || mexp(a[i]) < mexp(b[j])) return false;
    unsigned e = mexp(a[i]) - mexp(b[j]);
    if (e) q.push_back(mvar(a[i]) * 64 + e);
    i++;
  }
  while (i < a.size()) q.push_back(a[i++]);
  return true;
}
// exact division a/b, false when b does not divide a
static inline bool pdivexact(const Poly &a, const Poly &b, Poly &q) {
  if (b.isZero()) return false;
  if (b.t.size() == 1) {
    q.t.clear();
    Mono m;
    for (auto &x : a.t) {
      if (!mdiv(x.first, b.t[0].first, m)) return false;
      q.t.push_back(Term(m, x.second / b.t[0].second));
    }
    return true;
  }
  if (a.isZero()) { q = Poly(); return true; }
  // necessary: trailing terms divide
  Mono m;
  if (!mdiv(a.t.back().first, b.t.back().first, m)) return false;
  Poly r = a;
  std::map<Mono, mpq_class, MonoCmp> acc;
  int guard = 0;
  Poly quo;
  while (!r.isZero()) {
    if (++guard > 4000) return false;
    if (!mdiv(r.t[0].first, b.t[0].first, m)) return false;
    mpq_class c = r.t[0].second / b.t[0].second;
    Poly mono;
    mono.t.push_back(Term(m, c));
    quo.t.push_back(mono.t[0]);
    r = padd(r, pmul(mono, b), mpq_class(-1));
  }
  std::sort(quo.t.begin(), quo.t.end(), [](const Term &x, const Term &y) { return MonoCmp()(x.first, y.first); });
  q = quo;
  return true;
}
static inline std::string pkey(const Poly &p) {
  std::string s;
  for (auto &x : p.t) {
    s += x.second.get_str(36);
    for (auto e : x.first) {
      s += ',';
      s += std::to_string(e);
    }
    s += ';';
  }
  return s;
}
static inline double peval(const Poly &p, const std::vector<double> &val) {
  double r = 0;
  for (auto &x : p.t) {
    double c = x.second.get_d();
    for (auto e : x.first) {
      double v = mvar(e) < val.size() ? val[mvar(e)] : NAN;
      for (unsigned k = 0; k < mexp(e); k++) c *= v;
    }
    r += c;
  }
  return r;
}
static inline double pevalabs(const Poly &p, const std::vector<double> &val) {
  double r = 0;
  for (auto &x : p.t) {
    double c = fabs(x.second.get_d());
    for (auto e : x.first) {
      double v = mvar(e) < val.size() ? fabs(val[mvar(e)]) : NAN;
      for (unsigned k = 0; k < mexp(e); k++) c *= v;
    }
    r += c;
  }
  return r;
}
