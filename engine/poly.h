// Exact multivariate polynomials and rational functions over Q (GMP).
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
typedef mpq_class Q;
static const int NV = 64; // max number of symbolic real variables on one path
struct Mono {
  uint8_t e[NV];
  Mono() { memset(e, 0, NV); }
  bool operator==(const Mono &o) const { return !memcmp(e, o.e, NV); }
  bool operator<(const Mono &o) const { return memcmp(e, o.e, NV) < 0; } // lex
  bool isOne() const { for (int i = 0; i < NV; i += 8) { uint64_t w; memcpy(&w, e + i, 8); if (w) return false; } return true; }
};
struct EngineLimit { std::string what; };
struct Poly {
  std::vector<std::pair<Mono, Q>> t; // descending lex, non-zero coefs
  Poly() {}
  explicit Poly(const Q &c) { if (c != 0) t.push_back({Mono(), c}); }
  static Poly var(int i) { Poly p; Mono m; m.e[i] = 1; p.t.push_back({m, Q(1)}); return p; }
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first.isOne()); }
  Q constVal() const { return t.empty() ? Q(0) : t[0].second; }
  bool operator==(const Poly &o) const {
    if (t.size() != o.t.size()) return false;
    for (size_t i = 0; i < t.size(); ++i) if (!(t[i].first == o.t[i].first) || t[i].second != o.t[i].second) return false;
    return true;
  }
  bool operator<(const Poly &o) const {
    if (t.size() != o.t.size()) return t.size() < o.t.size();
    for (size_t i = 0; i < t.size(); ++i) {
      int c = memcmp(t[i].first.e, o.t[i].first.e, NV);
      if (c) return c < 0;
      int d = cmp(t[i].second, o.t[i].second);
      if (d) return d < 0;
    }
    return false;
  }
  void negate() { for (auto &x : t) x.second = -x.second; }
  void scale(const Q &c) { if (c == 0) { t.clear(); return; } for (auto &x : t) x.second *= c; }
  bool linear() const {
    for (auto &x : t) { int d = 0; for (int i = 0; i < NV; ++i) d += x.first.e[i]; if (d > 1) return false; }
    return true;
  }
  int totalDegree() const { int r = 0; for (auto &x : t) { int d = 0; for (int i = 0; i < NV; ++i) d += x.first.e[i]; r = std::max(r, d); } return r; }
  int degIn(int v) const { int r = 0; for (auto &x : t) r = std::max(r, (int)x.first.e[v]); return r; }
};
inline Poly addScaled(const Poly &a, const Poly &b, int sgn) {
  Poly r; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    int c;
    if (i == a.t.size()) c = -1; else if (j == b.t.size()) c = 1;
    else c = memcmp(a.t[i].first.e, b.t[j].first.e, NV);
    if (c > 0) r.t.push_back(a.t[i++]);
    else if (c < 0) { r.t.push_back(b.t[j]); if (sgn < 0) r.t.back().second = -r.t.back().second; j++; }
    else {
      Q s = sgn > 0 ? Q(a.t[i].second + b.t[j].second) : Q(a.t[i].second - b.t[j].second);
      if (s != 0) r.t.push_back({a.t[i].first, s});
      i++; j++;
    }
  }
  return r;
}
inline Poly operator+(const Poly &a, const Poly &b) { return addScaled(a, b, 1); }
inline Poly operator-(const Poly &a, const Poly &b) { return addScaled(a, b, -1); }
static const size_t POLY_MAX_TERMS = 20000;
inline volatile bool gHardStop = false; // set when the time budget is used up
inline Poly operator*(const Poly &a, const Poly &b) {
  if (a.isZero() || b.isZero()) return Poly();
  if (a.isConst()) { Poly r = b; r.scale(a.constVal()); return r; }
  if (b.isConst()) { Poly r = a; r.scale(b.constVal()); return r; }
  if (gHardStop) throw EngineLimit{"time budget"};
  if (a.t.size() * b.t.size() > POLY_MAX_TERMS * 20) throw EngineLimit{"polynomial too large"};
  std::vector<std::pair<Mono, Q>> v; v.reserve(a.t.size() * b.t.size());
  for (auto &x : a.t) for (auto &y : b.t) {
    Mono m;
    for (int i = 0; i < NV; ++i) { int s = x.first.e[i] + y.first.e[i]; if (s > 255) throw EngineLimit{"degree overflow"}; m.e[i] = (uint8_t)s; }
    v.push_back({m, x.second * y.second});
  }
  std::sort(v.begin(), v.end(), [](const std::pair<Mono, Q> &p, const std::pair<Mono, Q> &q) { return q.first < p.first; });
  Poly r;
  for (auto &x : v) {
    if (!r.t.empty() && r.t.back().first == x.first) { r.t.back().second += x.second; if (r.t.back().second == 0) r.t.pop_back(); }
    else r.t.push_back(std::move(x));
  }
  if (r.t.size() > POLY_MAX_TERMS) throw EngineLimit{"polynomial too large"};
  return r;
}
// exact division; returns false when not divisible
inline bool divExact(const Poly &a, const Poly &b, Poly &q) {
  if (b.isConst()) { q = a; q.scale(1 / b.constVal()); return true; }
  Poly r = a; q = Poly();
  const Mono &lb = b.t[0].first;
  size_t guard = 0;
  while (!r.isZero()) {
    const Mono &lr = r.t[0].first;
    Mono m;
    for (int i = 0; i < NV; ++i) { if (lr.e[i] < lb.e[i]) return false; m.e[i] = lr.e[i] - lb.e[i]; }
    Q c = r.t[0].second / b.t[0].second;
    Poly term; term.t.push_back({m, c});
    r = r - term * b;
    q.t.push_back({m, c});
    if (++guard > 3000) throw EngineLimit{"polynomial division too long"};
  }
  return true;
}
// view p as univariate in v: coefficients by degree
inline std::vector<Poly> coeffs(const Poly &p, int v) {
  std::vector<Poly> c(p.degIn(v) + 1);
  for (auto &x : p.t) { Mono m = x.first; int d = m.e[v]; m.e[v] = 0; c[d].t.push_back({m, x.second}); }
  return c;
}
inline void makeMonic(Poly &p) { if (!p.isZero()) { Q l = p.t[0].second; if (l != 1) p.scale(1 / l); } }
Poly polyGcd(const Poly &a, const Poly &b);
inline Poly contentIn(const Poly &p, int v) {
  std::vector<Poly> c = coeffs(p, v);
  Poly g;
  for (auto &x : c) if (!x.isZero()) { g = g.isZero() ? x : polyGcd(g, x); if (g.isConst()) return Poly(Q(1)); }
  return g;
}
inline Poly shiftVar(const Poly &p, int v, int k) { Poly r = p; for (auto &x : r.t) x.first.e[v] += k; std::sort(r.t.begin(), r.t.end(), [](const std::pair<Mono, Q> &a, const std::pair<Mono, Q> &b) { return b.first < a.first; }); return r; }
inline Poly pseudoRem(Poly a, const Poly &b, int v) {
  int db = b.degIn(v);
  Poly lb = coeffs(b, v)[db];
  while (!a.isZero()) {
    int da = a.degIn(v);
    if (da < db) break;
    Poly la = coeffs(a, v)[da];
    a = lb * a - shiftVar(la, v, da - db) * b;
    if (a.t.size() > 4000) throw EngineLimit{"gcd too large"};
  }
  return a;
}
inline Poly polyGcd(const Poly &a0, const Poly &b0) {
  if (a0.isZero()) { Poly r = b0; makeMonic(r); return r; }
  if (b0.isZero()) { Poly r = a0; makeMonic(r); return r; }
  if (a0.isConst() || b0.isConst()) return Poly(Q(1));
  Poly q;
  if (a0.t.size() >= b0.t.size()) { if (divExact(a0, b0, q)) { q = b0; makeMonic(q); return q; } }
  else if (divExact(b0, a0, q)) { q = a0; makeMonic(q); return q; }
  // main variable: occurs in both; otherwise gcd divides the content
  int v = -1, only = -1; bool onlyA = false;
  for (int i = 0; i < NV; ++i) {
    int da = a0.degIn(i), db = b0.degIn(i);
    if (da && db) { if (v < 0) v = i; }
    else if (da || db) { only = i; onlyA = da != 0; }
  }
  if (v < 0) return Poly(Q(1));
  if (only >= 0) return onlyA ? polyGcd(contentIn(a0, only), b0) : polyGcd(a0, contentIn(b0, only));
  Poly ca = contentIn(a0, v), cb = contentIn(b0, v), a, b;
  divExact(a0, ca, a); divExact(b0, cb, b);
  Poly cg = polyGcd(ca, cb);
  if (a.degIn(v) < b.degIn(v)) std::swap(a, b);
  while (true) {
    Poly r = pseudoRem(a, b, v);
    if (r.isZero()) break;
    if (r.degIn(v) == 0) { b = Poly(Q(1)); break; }
    Poly c = contentIn(r, v), rp;
    divExact(r, c, rp); makeMonic(rp);
    a = b; b = rp;
  }
  if (!b.isConst()) { Poly c = contentIn(b, v), bp; divExact(b, c, bp); b = bp; }
  Poly g = b * cg; makeMonic(g);
  return g;
}

// exact square root of a polynomial, when there is one
inline bool polySqrt(const Poly &p, Poly &q) {
  q = Poly(); if (p.isZero()) return true;
  auto qsqrt = [](const Q &c, Q &r) { if (c < 0) return false; mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n != c.get_num() || d * d != c.get_den()) return false; r = Q(n) / Q(d); return true; };
  Mono m; Q c; if (!qsqrt(p.t[0].second, c)) return false;
  for (int i = 0; i < NV; ++i) { if (p.t[0].first.e[i] & 1) return false; m.e[i] = p.t[0].first.e[i] / 2; }
  q.t.push_back({m, c}); Q c2 = 2 * c; Poly r = p - q * q;
  for (size_t guard = 0; !r.isZero(); ++guard) {
    if (guard > 300) return false;
    Mono k; for (int i = 0; i < NV; ++i) { if (r.t[0].first.e[i] < m.e[i]) return false; k.e[i] = r.t[0].first.e[i] - m.e[i]; }
    if (!(k < q.t.back().first)) return false;
    Poly t; t.t.push_back({k, r.t[0].second / c2});
    r = r - t * (q + q + t); q = q + t;
  }
  return true;
}
