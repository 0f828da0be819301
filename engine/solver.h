// Translation of path conditions to z3 and satisfiability queries.
#pragma once
#include "sym.h"
#include <z3++.h>
#include <atomic>
#include <chrono>
#include <unordered_map>
#include <mutex>

struct VarInfo { std::string name; Q lo, hi; bool hasLo, hasHi; bool input; };
struct IVarInfo { std::string name; int w; int64_t lo, hi; };
enum SatR { SAT, UNSAT, UNKNOWN };

struct SolverStats {
  std::atomic<uint64_t> queries{0}, sat{0}, unsat{0}, unknown{0}, lin{0}, nonlin{0}, bv{0}, cached{0};
  std::atomic<uint64_t> micros{0}, maxMicros{0};
};
extern SolverStats gStats;
extern bool gVerbose;
extern bool gNlsatFirst;

inline int minWidth(int64_t lo, int64_t hi) { int w = 1; while (w < 64 && (lo < smin(w) || hi > smax(w))) w++; return w; }

struct Z3Worker {
  z3::context ctx;
  std::unordered_map<int, z3::expr> rv;
  std::vector<std::pair<int, VarInfo>> dummy;
  std::map<std::pair<const BVN *, int>, std::pair<BP, z3::expr>> bvCache; // the BP keeps the key alive

  z3::expr qnum(const Q &q) { return ctx.real_val(q.get_str().c_str()); }
  z3::expr rvar(int i) {
    auto it = rv.find(i);
    if (it != rv.end()) return it->second;
    z3::expr e = ctx.real_const(("x" + std::to_string(i)).c_str());
    rv.emplace(i, e); return e;
  }
  z3::expr poly(const Poly &p) {
    z3::expr_vector sum(ctx);
    for (auto &x : p.t) {
      z3::expr_vector f(ctx);
      if (x.second != 1 || x.first.isOne()) f.push_back(qnum(x.second));
      for (int i = 0; i < NV; ++i) for (int k = 0; k < x.first.e[i]; ++k) f.push_back(rvar(i));
      if (f.size() == 1) sum.push_back(f[0u]);
      else { std::vector<Z3_ast> a; for (unsigned i = 0; i < f.size(); ++i) a.push_back(f[i]); sum.push_back(z3::expr(ctx, Z3_mk_mul(ctx, a.size(), a.data()))); }
    }
    if (sum.empty()) return ctx.real_val(0);
    return z3::sum(sum);
  }
  z3::expr resize(const z3::expr &e, int w) {
    int cw = e.get_sort().bv_size();
    if (cw == w) return e;
    if (cw < w) return z3::sext(e, w - cw);
    return e.extract(w - 1, 0);
  }
  z3::expr op2(BOp op, const z3::expr &a, const z3::expr &b) {
    switch (op) {
    case B_ADD: return a + b;
    case B_SUB: return a - b;
    case B_MUL: return a * b;
    case B_SDIV: return z3::expr(ctx, Z3_mk_bvsdiv(ctx, a, b));
    case B_SREM: return z3::expr(ctx, Z3_mk_bvsrem(ctx, a, b));
    case B_UDIV: return z3::udiv(a, b);
    case B_UREM: return z3::urem(a, b);
    case B_AND: return a & b;
    case B_OR: return a | b;
    case B_XOR: return a ^ b;
    case B_SHL: return z3::shl(a, b);
    case B_LSHR: return z3::lshr(a, b);
    case B_ASHR: return z3::ashr(a, b);
    default: throw EngineLimit{"bv op"};
    }
  }
  z3::expr bv(const BP &n, int W) {
    auto key = std::make_pair(n.get(), W);
    auto it = bvCache.find(key);
    if (it != bvCache.end()) return it->second.second;
    z3::expr r(ctx);
    if (n->op == B_CONST) r = ctx.bv_val((int64_t)n->lo, W);
    else if (n->op == B_VAR) r = resize(ctx.bv_const(("i" + std::to_string(n->var)).c_str(), minWidth(n->lo, n->hi)), W);
    else if (n->op == B_ZEXT) {
      if (n->a->lo >= 0) r = bv(n->a, W);
      else r = resize(z3::zext(bv(n->a, n->a->w), n->w - n->a->w), W);
    } else if (n->op == B_TRUNC) {
      if (n->exact) r = bv(n->a, std::max(W, minWidth(n->a->lo, n->a->hi)));
      else r = bv(n->a, n->a->w).extract(n->w - 1, 0);
      r = resize(r, W);
    } else {
      int wp = n->exact ? std::max(std::max(minWidth(n->a->lo, n->a->hi), minWidth(n->b->lo, n->b->hi)), minWidth(n->lo, n->hi)) : n->w;
      r = resize(op2(n->op, bv(n->a, wp), bv(n->b, wp)), W);
    }
    bvCache.emplace(key, std::make_pair(n, r));
    return r;
  }
  bool nonlin, hasBV;
  z3::expr cond(const CP &c) {
    switch (c->k) {
    case Cond::T: return ctx.bool_val(true);
    case Cond::F: return ctx.bool_val(false);
    case Cond::AND: return cond(c->a) && cond(c->b);
    case Cond::OR: return cond(c->a) || cond(c->b);
    case Cond::ATOM: {
      if (!c->p->linear()) nonlin = true;
      z3::expr e = poly(*c->p); z3::expr z = ctx.real_val(0);
      switch (c->mask) {
      case 1: return e < z;
      case 2: return e == z;
      case 3: return e <= z;
      case 4: return e > z;
      case 5: return e != z;
      default: return e >= z;
      }
    }
    case Cond::BV: {
      hasBV = true;
      bool uns = c->cop == C_ULT || c->cop == C_ULE;
      int W = std::max(minWidth(c->x->lo, c->x->hi), minWidth(c->y->lo, c->y->hi));
      if (uns) W = c->x->w;
      z3::expr a = bv(c->x, W), b = bv(c->y, W), r(ctx);
      switch (c->cop) { case C_EQ: r = a == b; break; case C_SLT: r = a < b; break; case C_SLE: r = a <= b; break; case C_ULT: r = z3::ult(a, b); break; default: r = z3::ule(a, b); }
      return c->neg ? !r : r;
    }
    }
    return ctx.bool_val(true);
  }
  static Q parseNum(const std::string &s0) {
    std::string s = s0; if (!s.empty() && s.back() == '?') s.pop_back();
    size_t dot = s.find('.');
    if (dot == std::string::npos) return Q(s, 10);
    std::string t = s.substr(0, dot) + s.substr(dot + 1);
    Q q(t, 10); mpz_class ten; mpz_ui_pow_ui(ten.get_mpz_t(), 10, s.size() - dot - 1); q /= Q(ten); q.canonicalize(); return q;
  }
  // satisfiability of base /\ extra; model filled for variables in vs
  SatR check(const std::vector<CP> &cs, const std::vector<VarInfo> &vars, const std::vector<IVarInfo> &ivars, const VarSet &vs, Model *out, unsigned timeoutMs) {
    auto t0 = std::chrono::steady_clock::now();
    SatR res = UNKNOWN;
    bvCache.clear();
    try {
      nonlin = hasBV = false;
      z3::expr_vector fs(ctx);
      for (auto &c : cs) fs.push_back(cond(c));
      for (size_t i = 0; i < vars.size(); ++i) if (vs[i]) {
        if (vars[i].hasLo) fs.push_back(rvar(i) >= qnum(vars[i].lo));
        if (vars[i].hasHi) fs.push_back(rvar(i) <= qnum(vars[i].hi));
      }
      for (size_t i = 0; i < ivars.size(); ++i) if (vs[64 + i]) {
        BP v = bvar(i, ivars[i].w, ivars[i].lo, ivars[i].hi); int W = minWidth(v->lo, v->hi);
        z3::expr e = bv(v, W);
        fs.push_back(e >= ctx.bv_val((int64_t)v->lo, W)); fs.push_back(e <= ctx.bv_val((int64_t)v->hi, W));
      }
      auto attempt = [&](z3::solver s, unsigned to) {
        z3::params p(ctx); p.set("timeout", to); s.set(p);
        for (unsigned i = 0; i < fs.size(); ++i) s.add(fs[i]);
        z3::check_result r = s.check();
        if (r == z3::sat) {
          res = SAT;
          if (out) {
            z3::model m = s.get_model();
            for (size_t i = 0; i < vars.size(); ++i) if (vs[i]) {
              z3::expr v = m.eval(rvar(i), true);
              if (v.is_numeral()) { out->r[i] = Q(Z3_get_numeral_string(ctx, v), 10); out->r[i].canonicalize(); }
              else if (v.is_algebraic()) { out->r[i] = parseNum(v.get_decimal_string(25)); out->exact = false; }
              else { out->r[i] = 0; out->exact = false; }
            }
            for (size_t i = 0; i < ivars.size(); ++i) if (vs[64 + i]) {
              int W = minWidth(ivars[i].lo, ivars[i].hi);
              z3::expr v = m.eval(ctx.bv_const(("i" + std::to_string(i)).c_str(), W), true);
              uint64_t u = 0; v.is_numeral_u64(u); out->i[i] = sext(u, W);
            }
          }
        } else if (r == z3::unsat) res = UNSAT;
        else res = UNKNOWN;
      };
      if (hasBV && !nonlin) { gStats.bv++; attempt(z3::solver(ctx), timeoutMs); }
      else if (!nonlin) { gStats.lin++; attempt(z3::solver(ctx, "QF_LRA"), timeoutMs); }
      else {
        gStats.nonlin++;
        { // the linear part alone may already be contradictory
          z3::expr_vector lf(ctx); bool nl = nonlin, hb = hasBV; size_t k = 0; bool some = false;
          for (auto &c : cs) { nonlin = hasBV = false; z3::expr e = cond(c); (void)k; if (!nonlin && !hasBV) { lf.push_back(e); some = true; } }
          nonlin = nl; hasBV = hb;
          if (some) {
            for (size_t i = 0; i < vars.size(); ++i) if (vs[i]) { if (vars[i].hasLo) lf.push_back(rvar(i) >= qnum(vars[i].lo)); if (vars[i].hasHi) lf.push_back(rvar(i) <= qnum(vars[i].hi)); }
            z3::solver ls(ctx, "QF_LRA"); z3::params p(ctx); p.set("timeout", 500u); ls.set(p);
            for (unsigned i = 0; i < lf.size(); ++i) ls.add(lf[i]);
            if (ls.check() == z3::unsat) res = UNSAT;
          }
        }
        if (res == UNKNOWN)
        { if (gNlsatFirst && !hasBV) attempt(z3::tactic(ctx, "qfnra-nlsat").mk_solver(), timeoutMs * 3 / 4);
        if (res == UNKNOWN) attempt(z3::solver(ctx, "QF_NRA"), timeoutMs / 2); }
      }
    } catch (z3::exception &e) { res = UNKNOWN; if (gVerbose) fprintf(stderr, "z3: %s\n", e.msg()); }
    uint64_t us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    gStats.queries++; gStats.micros += us;
    uint64_t mx = gStats.maxMicros; while (us > mx && !gStats.maxMicros.compare_exchange_weak(mx, us)) {}
    if (res == SAT) gStats.sat++; else if (res == UNSAT) gStats.unsat++; else gStats.unknown++;
    return res;
  }
};
