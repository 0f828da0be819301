// Symbolic values used by the executor: exact rational functions over the
// reals, ranged bit-vector integers and Boolean conditions over both.
#pragma once
#include "poly.h"
#include <cmath>
#include <limits>
#include <bitset>
#include <map>
#include <string>
#include <algorithm>
#include <cassert>

typedef std::shared_ptr<const Poly> PolyP;
typedef std::bitset<192> VarSet; // 0..63 real variables, 64..191 integer variables

inline size_t hashPoly(const Poly &p) {
  size_t h = 1469598103934665603ULL;
  auto mix = [&](uint64_t v) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; };
  for (auto &x : p.t) {
    for (int i = 0; i < NV; i += 8) { uint64_t w; memcpy(&w, x.first.e + i, 8); if (w) { mix(w); mix(i); } }
    mix(mpz_fdiv_ui(x.second.get_num_mpz_t(), 4294967291UL) + (mpz_sgn(x.second.get_num_mpz_t()) < 0 ? 77 : 0));
    mix(mpz_fdiv_ui(x.second.get_den_mpz_t(), 4294967291UL));
  }
  return h;
}
inline VarSet varsOf(const Poly &p) { VarSet v; for (auto &x : p.t) for (int i = 0; i < NV; ++i) if (x.first.e[i]) v.set(i); return v; }

// ------------------------------------------------------------ rational functions
struct Rat { Poly n, d; }; // d is monic, 1 when polynomial
typedef std::shared_ptr<const Rat> RatP;
inline bool isOne(const Poly &p) { return p.t.size() == 1 && p.t[0].first.isOne() && p.t[0].second == 1; }
inline Rat mkRat(Poly n, Poly d) {
  Rat r;
  if (n.isZero()) { r.d = Poly(Q(1)); return r; }
  if (d.isConst()) { n.scale(1 / d.constVal()); r.n = n; r.d = Poly(Q(1)); return r; }
  if (!n.isConst()) {
    Poly g = polyGcd(n, d);
    if (!g.isConst()) { Poly q; if (divExact(n, g, q)) { Poly q2; if (divExact(d, g, q2)) { n = q; d = q2; } } }
  }
  if (d.isConst()) { n.scale(1 / d.constVal()); d = Poly(Q(1)); }
  else { Q l = d.t[0].second; if (l != 1) { Q il = 1 / l; n.scale(il); d.scale(il); } }
  r.n = n; r.d = d; return r;
}
inline Rat rconst(const Q &c) { Rat r; r.n = Poly(c); r.d = Poly(Q(1)); return r; }
inline Rat rconst(double c) { return rconst(Q(c)); }
inline bool rIsConst(const Rat &a) { return a.n.isConst() && a.d.isConst(); }
inline Rat radd(const Rat &a, const Rat &b, int s) {
  if (isOne(a.d) && isOne(b.d)) { Rat r; r.n = addScaled(a.n, b.n, s); r.d = Poly(Q(1)); return r; }
  if (a.d == b.d) return mkRat(addScaled(a.n, b.n, s), a.d);
  if (isOne(b.d)) return mkRat(addScaled(a.n, b.n * a.d, s), a.d);
  if (isOne(a.d)) return mkRat(addScaled(a.n * b.d, b.n, s), b.d);
  Poly g = polyGcd(a.d, b.d);
  if (g.isConst()) return mkRat(addScaled(a.n * b.d, b.n * a.d, s), a.d * b.d);
  Poly ad, bd; divExact(a.d, g, ad); divExact(b.d, g, bd);
  return mkRat(addScaled(a.n * bd, b.n * ad, s), ad * b.d);
}
inline Rat rmul(const Rat &a, const Rat &b) {
  if (isOne(a.d) && isOne(b.d)) { Rat r; r.n = a.n * b.n; r.d = Poly(Q(1)); return r; }
  // cross-cancel first to keep things small
  Rat x = mkRat(a.n, b.d), y = mkRat(b.n, a.d);
  Rat r; r.n = x.n * y.n; r.d = x.d * y.d;
  if (r.n.isZero()) r.d = Poly(Q(1));
  return r;
}
inline Rat rinv(const Rat &a) { return mkRat(a.d, a.n); }
inline Rat rdiv(const Rat &a, const Rat &b) { return rmul(a, rinv(b)); }
inline Rat rneg(const Rat &a) { Rat r = a; r.n.negate(); return r; }

// ------------------------------------------------------------ integers
// value = signed mathematical integer in [lo,hi], congruent to the machine
// word of `w` bits.  exact: the operation cannot wrap, so it may be encoded
// at the smallest sufficient width.
enum BOp { B_CONST, B_VAR, B_ADD, B_SUB, B_MUL, B_SDIV, B_SREM, B_UDIV, B_UREM, B_AND, B_OR, B_XOR, B_SHL, B_LSHR, B_ASHR, B_ZEXT, B_TRUNC, B_CONCAT };
struct BVN;
typedef std::shared_ptr<const BVN> BP;
struct BVN { BOp op; int w; int64_t lo, hi; bool exact; int var; BP a, b; VarSet vs; };
inline int64_t smin(int w) { return w >= 64 ? INT64_MIN : -(1LL << (w - 1)); }
inline int64_t smax(int w) { return w >= 64 ? INT64_MAX : (1LL << (w - 1)) - 1; }
inline int64_t sext(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = (1ULL << w) - 1; v &= m; if (v >> (w - 1)) v |= ~m; return (int64_t)v; }
inline uint64_t zext(uint64_t v, int w) { if (w >= 64) return v; return v & ((1ULL << w) - 1); }
inline BP bconst(int64_t v, int w) { auto n = std::make_shared<BVN>(); n->op = B_CONST; n->w = w; n->lo = n->hi = sext((uint64_t)v, w); n->exact = true; n->var = -1; return n; }
inline BP bvar(int id, int w, int64_t lo, int64_t hi) { auto n = std::make_shared<BVN>(); n->op = B_VAR; n->w = w; n->lo = lo; n->hi = hi; n->exact = true; n->var = id; n->vs.set(64 + id); return n; }
inline int64_t evalB(BOp op, int64_t a, int64_t b, int w, int wa) {
  uint64_t ua = zext((uint64_t)a, wa), ub = zext((uint64_t)b, wa);
  switch (op) {
  case B_ADD: return sext((uint64_t)a + (uint64_t)b, w);
  case B_SUB: return sext((uint64_t)a - (uint64_t)b, w);
  case B_MUL: return sext((uint64_t)a * (uint64_t)b, w);
  case B_SDIV: return b == 0 ? 0 : (b == -1 ? sext(0 - (uint64_t)a, w) : sext((uint64_t)(a / b), w));
  case B_SREM: return b == 0 ? 0 : (b == -1 ? 0 : a % b);
  case B_UDIV: return ub == 0 ? 0 : sext(ua / ub, w);
  case B_UREM: return ub == 0 ? 0 : sext(ua % ub, w);
  case B_AND: return sext(ua & ub, w);
  case B_OR: return sext(ua | ub, w);
  case B_XOR: return sext(ua ^ ub, w);
  case B_SHL: return ub >= (uint64_t)w ? 0 : sext(ua << ub, w);
  case B_LSHR: return ub >= (uint64_t)w ? 0 : sext(ua >> ub, w);
  case B_ASHR: return ub >= (uint64_t)w ? (a < 0 ? -1 : 0) : (a >> ub);
  case B_ZEXT: return sext(ua, w);
  case B_TRUNC: return sext(ua, w);
  default: return 0;
  }
}
inline BP bmk(BOp op, int w, BP a, BP b) {
  if (a->op == B_CONST && (!b || b->op == B_CONST)) return bconst(evalB(op, a->lo, b ? b->lo : 0, w, a->w), w);
  typedef __int128 I;
  if (b) {
    if ((op == B_ADD || op == B_SUB || op == B_SHL || op == B_LSHR || op == B_ASHR || op == B_OR || op == B_XOR) && b->op == B_CONST && b->lo == 0) return a;
    if ((op == B_ADD || op == B_OR || op == B_XOR) && a->op == B_CONST && a->lo == 0) return b;
    if (op == B_MUL) {
      if (b->op == B_CONST && b->lo == 1) return a;
      if (a->op == B_CONST && a->lo == 1) return b;
      if (b->op == B_CONST && b->lo == 0) return b;
      if (a->op == B_CONST && a->lo == 0) return a;
    }
    if ((op == B_SDIV || op == B_UDIV) && b->op == B_CONST && b->lo == 1) return a;
    if (op == B_SHL && b->op == B_CONST && b->lo > 0 && b->lo < w - 1) return bmk(B_MUL, w, a, bconst((int64_t)1 << b->lo, w));
    if (op == B_LSHR && b->op == B_CONST && b->lo > 0 && b->lo < w - 1 && a->lo >= 0) return bmk(B_UDIV, w, a, bconst((int64_t)1 << b->lo, w));
  }
  if (op == B_ZEXT && a->lo >= 0) { auto n = std::make_shared<BVN>(*a); n->w = w; if (n->op == B_VAR || n->exact) return n; auto m = std::make_shared<BVN>(); m->op = B_ZEXT; m->w = w; m->lo = a->lo; m->hi = a->hi; m->exact = true; m->a = a; m->vs = a->vs; m->var = -1; return m; }
  if (op == B_TRUNC && a->lo >= smin(w) && a->hi <= smax(w)) { auto m = std::make_shared<BVN>(); m->op = B_TRUNC; m->w = w; m->lo = a->lo; m->hi = a->hi; m->exact = true; m->a = a; m->vs = a->vs; m->var = -1; return m; }
  auto n = std::make_shared<BVN>();
  n->op = op; n->w = w; n->a = a; n->b = b; n->var = -1; n->vs = a->vs; if (b) n->vs |= b->vs;
  bool nn = a->lo >= 0 && (!b || b->lo >= 0);
  if (nn) { if (op == B_UDIV) n->op = B_SDIV; if (op == B_UREM) n->op = B_SREM; }
  I lo = smin(w), hi = smax(w); bool ex = false;
  I al = a->lo, ah = a->hi, bl = b ? b->lo : 0, bh = b ? b->hi : 0;
  auto set4 = [&](I p, I q, I r, I s) { lo = std::min(std::min(p, q), std::min(r, s)); hi = std::max(std::max(p, q), std::max(r, s)); };
  switch (n->op) {
  case B_ADD: lo = al + bl; hi = ah + bh; ex = true; break;
  case B_SUB: lo = al - bh; hi = ah - bl; ex = true; break;
  case B_MUL: set4(al * bl, al * bh, ah * bl, ah * bh); ex = true; break;
  case B_SDIV: if (bl > 0) { set4(al / bl, al / bh, ah / bl, ah / bh); ex = true; } break;
  case B_SREM: if (bl > 0) { hi = al >= 0 ? std::min(ah, bh - 1) : bh - 1; lo = al >= 0 ? 0 : -(bh - 1); if (ah < 0) hi = 0; ex = true; } break;
  case B_AND: if (nn) { lo = 0; hi = std::min(ah, bh); ex = true; } break;
  case B_LSHR: if (nn) { lo = 0; hi = ah; ex = true; } break;
  case B_ASHR: if (nn) { lo = 0; hi = ah; ex = true; } break;
  case B_OR: case B_XOR: if (nn) { I m = std::max(ah, bh); I p = 1; while (p <= m) p <<= 1; lo = 0; hi = p - 1; ex = true; } break;
  case B_ZEXT: lo = 0; hi = ((I)1 << a->w) - 1; break;
  default: break;
  }
  if (lo < smin(w) || hi > smax(w)) { lo = smin(w); hi = smax(w); ex = false; }
  n->lo = (int64_t)lo; n->hi = (int64_t)hi; n->exact = ex;
  if (n->lo == n->hi) return bconst(n->lo, w);
  return n;
}
enum CmpOp { C_EQ, C_SLT, C_SLE, C_ULT, C_ULE };
// normal form of non-wrapping integer arithmetic: a polynomial with integer
// coefficients over variables and opaque sub-terms; equal forms mean equal values
struct IntForms {
  std::map<std::string, int> ids;
  typedef std::map<std::vector<int>, __int128> Form;
  bool ok = true;
  std::string key(const Form &f) { std::string s; for (auto &t : f) { s += std::to_string((long long)t.second) + "*"; for (int v : t.first) s += std::to_string(v) + "."; s += "+"; } return s; }
  int id(const std::string &k) { auto it = ids.find(k); if (it != ids.end()) return it->second; int n = (int)ids.size(); ids[k] = n; return n; }
  Form form(const BP &b) {
    Form r;
    if (b->op == B_CONST) { if (b->lo) r[{}] = b->lo; return r; }
    if (b->op == B_VAR) { r[{id("v" + std::to_string(b->var))}] = 1; return r; }
    if (b->exact && (b->op == B_TRUNC || b->op == B_ZEXT)) return form(b->a);
    if (b->exact && (b->op == B_ADD || b->op == B_SUB)) {
      r = form(b->a); Form y = form(b->b);
      for (auto &t : y) { auto &c = r[t.first]; c += b->op == B_ADD ? t.second : -t.second; if (!c) r.erase(t.first); }
      if (r.size() > 200) ok = false;
      return r;
    }
    if (b->exact && b->op == B_MUL) {
      Form x = form(b->a), y = form(b->b);
      if (x.size() * y.size() > 200) { ok = false; return r; }
      for (auto &s : x) for (auto &t : y) {
        std::vector<int> k = s.first; k.insert(k.end(), t.first.begin(), t.first.end()); std::sort(k.begin(), k.end());
        if (k.size() > 12) ok = false;
        __int128 p = s.second * t.second; if (p > ((__int128)1 << 62) || p < -((__int128)1 << 62)) ok = false;
        auto &c = r[k]; c += p; if (!c) r.erase(k);
      }
      return r;
    }
    std::string k = "o" + std::to_string(b->op) + "w" + std::to_string(b->w) + (b->exact ? "e" : "") + "(" + key(form(b->a)) + "," + (b->b ? key(form(b->b)) : "") + ")";
    r[{id(k)}] = 1; return r;
  }
};

// ------------------------------------------------------------ conditions
struct Cond;
typedef std::shared_ptr<const Cond> CP;
struct Cond {
  enum K { T, F, ATOM, AND, OR, BV } k;
  PolyP p; size_t h = 0; uint8_t mask = 0; // ATOM: sign(p) in mask (1 neg, 2 zero, 4 pos)
  CP a, b;
  CmpOp cop = C_EQ; BP x, y; bool neg = false; // BV comparison
  VarSet vs;
};
inline CP cT() { static CP c = [] { auto x = std::make_shared<Cond>(); x->k = Cond::T; return x; }(); return c; }
inline CP cF() { static CP c = [] { auto x = std::make_shared<Cond>(); x->k = Cond::F; return x; }(); return c; }
inline CP cBool(bool b) { return b ? cT() : cF(); }
inline CP mkAtom(Poly p, uint8_t mask) {
  if (mask == 0) return cF();
  if (mask == 7) return cT();
  if (p.isConst()) { int s = sgn(p.constVal()); return cBool(mask & (s < 0 ? 1 : s == 0 ? 2 : 4)); }
  Q l = p.t[0].second;
  if (l < 0) mask = (uint8_t)((mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2));
  p.scale(1 / l);
  auto c = std::make_shared<Cond>();
  c->k = Cond::ATOM; c->vs = varsOf(p); c->h = hashPoly(p); c->p = std::make_shared<Poly>(std::move(p)); c->mask = mask;
  return c;
}
inline bool sameCond(const CP &a, const CP &b) {
  if (a == b) return true;
  if (a->k != b->k) return false;
  if (a->k == Cond::ATOM) return a->h == b->h && a->mask == b->mask && *a->p == *b->p;
  return false;
}
inline CP cAnd(CP a, CP b) {
  if (a->k == Cond::F || b->k == Cond::F) return cF();
  if (a->k == Cond::T) return b;
  if (b->k == Cond::T) return a;
  if (a->k == Cond::ATOM && b->k == Cond::ATOM && a->h == b->h && *a->p == *b->p) {
    uint8_t m = a->mask & b->mask; if (!m) return cF(); auto c = std::make_shared<Cond>(*a); c->mask = m; return c;
  }
  auto c = std::make_shared<Cond>(); c->k = Cond::AND; c->a = a; c->b = b; c->vs = a->vs | b->vs; return c;
}
inline CP cOr(CP a, CP b) {
  if (a->k == Cond::T || b->k == Cond::T) return cT();
  if (a->k == Cond::F) return b;
  if (b->k == Cond::F) return a;
  if (a->k == Cond::ATOM && b->k == Cond::ATOM && a->h == b->h && *a->p == *b->p) {
    uint8_t m = a->mask | b->mask; if (m == 7) return cT(); auto c = std::make_shared<Cond>(*a); c->mask = m; return c;
  }
  auto c = std::make_shared<Cond>(); c->k = Cond::OR; c->a = a; c->b = b; c->vs = a->vs | b->vs; return c;
}
inline CP cNot(const CP &a) {
  switch (a->k) {
  case Cond::T: return cF();
  case Cond::F: return cT();
  case Cond::ATOM: { auto c = std::make_shared<Cond>(*a); c->mask = a->mask ^ 7; return c; }
  case Cond::AND: return cOr(cNot(a->a), cNot(a->b));
  case Cond::OR: return cAnd(cNot(a->a), cNot(a->b));
  case Cond::BV: { auto c = std::make_shared<Cond>(*a); c->neg = !a->neg; return c; }
  }
  return cF();
}
inline CP cXor(const CP &a, const CP &b) { return cOr(cAnd(a, cNot(b)), cAnd(cNot(a), b)); }
// sign(n/d) in mask, d != 0 assumed
inline CP mkRatSign(const Rat &r, uint8_t mask) {
  if (isOne(r.d)) return mkAtom(r.n, mask);
  uint8_t fm = (uint8_t)((mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2));
  CP dp = mkAtom(r.d, 4), dn = mkAtom(r.d, 1);
  return cOr(cAnd(dp, mkAtom(r.n, mask)), cAnd(dn, mkAtom(r.n, fm)));
}
inline CP bcmp(CmpOp op, BP a, BP b, bool neg) {
  bool uns = op == C_ULT || op == C_ULE;
  if (a->op == B_CONST && b->op == B_CONST) {
    bool r; uint64_t ua = zext((uint64_t)a->lo, a->w), ub = zext((uint64_t)b->lo, b->w);
    switch (op) { case C_EQ: r = a->lo == b->lo; break; case C_SLT: r = a->lo < b->lo; break; case C_SLE: r = a->lo <= b->lo; break; case C_ULT: r = ua < ub; break; default: r = ua <= ub; }
    return cBool(r != neg);
  }
  if (uns && a->lo >= 0 && b->lo >= 0) { op = op == C_ULT ? C_SLT : C_SLE; uns = false; }
  if (!uns) {
    if (op == C_EQ && (a->hi < b->lo || b->hi < a->lo)) return cBool(neg);
    if (op == C_SLT) { if (a->hi < b->lo) return cBool(!neg); if (a->lo >= b->hi) return cBool(neg); }
    if (op == C_SLE) { if (a->hi <= b->lo) return cBool(!neg); if (a->lo > b->hi) return cBool(neg); }
  }
  if (!uns) {
    IntForms F; auto d = F.form(a), y = F.form(b);
    for (auto &t : y) { auto &c = d[t.first]; c -= t.second; if (!c) d.erase(t.first); }
    if (F.ok && (d.empty() || (d.size() == 1 && d.begin()->first.empty()))) {
      __int128 k = d.empty() ? 0 : d.begin()->second; bool r = op == C_EQ ? k == 0 : op == C_SLT ? k < 0 : k <= 0; return cBool(r != neg);
    }
  }
  auto c = std::make_shared<Cond>(); c->k = Cond::BV; c->cop = op; c->x = a; c->y = b; c->neg = neg; c->vs = a->vs | b->vs; return c;
}

// ------------------------------------------------------------ evaluation on a model
struct Model { std::vector<Q> r; std::vector<int64_t> i; bool exact = true; };
inline Q evalPoly(const Poly &p, const std::vector<Q> &m) {
  Q s = 0;
  for (auto &x : p.t) {
    Q c = x.second;
    for (int i = 0; i < NV; ++i) for (int k = 0; k < x.first.e[i]; ++k) c *= m[i];
    s += c;
  }
  return s;
}
inline int64_t evalBV(const BP &b, const Model &m) {
  if (b->op == B_CONST) return b->lo;
  if (b->op == B_VAR) return m.i[b->var];
  int64_t x = evalBV(b->a, m), y = b->b ? evalBV(b->b, m) : 0;
  return evalB(b->op, x, y, b->w, b->a->w);
}
inline bool evalCond(const CP &c, const Model &m) {
  switch (c->k) {
  case Cond::T: return true;
  case Cond::F: return false;
  case Cond::ATOM: { int s = sgn(evalPoly(*c->p, m.r)); return c->mask & (s < 0 ? 1 : s == 0 ? 2 : 4); }
  case Cond::AND: return evalCond(c->a, m) && evalCond(c->b, m);
  case Cond::OR: return evalCond(c->a, m) || evalCond(c->b, m);
  case Cond::BV: {
    int64_t a = evalBV(c->x, m), b = evalBV(c->y, m); uint64_t ua = zext((uint64_t)a, c->x->w), ub = zext((uint64_t)b, c->y->w); bool r;
    switch (c->cop) { case C_EQ: r = a == b; break; case C_SLT: r = a < b; break; case C_SLE: r = a <= b; break; case C_ULT: r = ua < ub; break; default: r = ua <= ub; }
    return r != c->neg;
  }
  }
  return false;
}
