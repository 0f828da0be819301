// sgsym: symbolic executor for LLVM IR over exact real arithmetic.
// Doubles that depend on inputs are rational functions of real variables,
// integers that depend on inputs are bit-vectors, every branch on them is
// decided by z3; both sides are explored when both are satisfiable.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <thread>
#include <condition_variable>
#include <set>
#include <cstdarg>
#include <unistd.h>
using namespace llvm;

extern "C" void dgels_(char *, int *, int *, int *, double *, int *, double *, int *, double *, int *, int *);

SolverStats gStats;
bool gVerbose = false, gNlsatFirst = true;
static std::map<std::string, long> gParams;
static unsigned gBranchTimeout = 3000, gAssertTimeout = 20000;
static uint64_t gMaxInstr = 40000000;
static double gTimeBudget = 120;
static long gMaxPaths = 2000000;
static std::chrono::steady_clock::time_point gStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count(); }

// ------------------------------------------------------------ values
struct Val;
struct Agg;
struct Val {
  enum K : uint8_t { UNDEF, INT, DBL, SREAL, SBOOL, SINT, AGG, PACK /* bytes of memory, some symbolic, read as one word */, FRESH /* in memory only: an unconstrained real */ } k = UNDEF;
  union { uint64_t i; double d; };
  std::shared_ptr<const void> p;
  Val() : i(0) {}
  static Val I(uint64_t v) { Val r; r.k = INT; r.i = v; return r; }
  static Val D(double v) { Val r; r.k = DBL; r.d = v; return r; }
  const Rat &rat() const { return *(const Rat *)p.get(); }
  CP cond() const { return std::static_pointer_cast<const Cond>(p); }
  BP bv() const { return std::static_pointer_cast<const BVN>(p); }
};
struct Agg { std::vector<Val> v; };
static Val mkReal(Rat r) {
  if (rIsConst(r)) {
    Q q = r.n.constVal(); double d = q.get_d();
    if (std::isfinite(d) && Q(d) == q) return Val::D(d);
  }
  Val v; v.k = Val::SREAL; v.p = std::make_shared<Rat>(std::move(r)); return v;
}
static Val mkBool(const CP &c) {
  if (c->k == Cond::T) return Val::I(1);
  if (c->k == Cond::F) return Val::I(0);
  Val v; v.k = Val::SBOOL; v.p = c; return v;
}
static Val mkInt(const BP &b) {
  if (b->op == B_CONST) return Val::I(zext((uint64_t)b->lo, b->w));
  Val v; v.k = Val::SINT; v.p = b; return v;
}

// ------------------------------------------------------------ program
enum { OP_CALL = 1000, OP_BUILTIN, OP_MEMCPY, OP_MEMSET, OP_GEP, OP_AGGLOAD, OP_AGGSTORE };
struct Ins {
  int op = 0, pred = 0, dst = -1; uint16_t w = 0, w2 = 0; // w: result width, w2: operand width
  bool dbl = false; // result is a double
  std::vector<int> o; // operands
  int64_t k = 0; // gep constant offset, alloca size, ...
  std::vector<int64_t> s; // gep scales / switch values / indices
  std::vector<int64_t> bv; // byval arguments: index, size
  int fn = -1; // callee
  const Instruction *I = nullptr;
};
struct Block { std::vector<Ins> ins; std::vector<std::pair<int, std::vector<int>>> phis; /* dst, per-pred operand */ std::map<int, int> predIdx; };
struct FuncInfo { std::string name; const Function *F = nullptr; int nregs = 0, nargs = 0; std::vector<Block> blocks; bool defined = false; int builtin = -1; };
struct Program {
  std::vector<FuncInfo> fns;
  std::map<const Function *, int> fnIdx;
  std::vector<Val> consts;
  std::set<std::string> used; // functions entered at least once
} P;
static const uint64_t FN_BASE = 0x1000, GLOB_BASE = 0x10000000ULL, HEAP_BASE = 0x500000000000ULL, STACK_BASE = 0x700000000000ULL;

// ------------------------------------------------------------ memory
struct Data { std::vector<uint8_t> b, st; std::map<uint32_t, Val> sym; };
struct Obj { uint64_t base; uint64_t size; std::shared_ptr<Data> d; uint8_t kind; /*0 global 1 stack 2 heap new 3 new[] 4 malloc*/ };

struct Frame { int fn; int blk; int pc; int retDst; size_t stackMark; std::vector<Val> r; };
struct Fact { size_t h; PolyP p; uint8_t mask; };
struct TrigMemo { int fn; Rat arg; int v;  Rat arg2 = Rat(); };
static std::map<uint64_t, const GlobalVariable *> gAddrGlob;
static bool typeMatches(uint64_t t, uint64_t h);
static uint64_t constAddr(const Constant *C, bool &ok);
static uint16_t widthOf(Type *t);
struct Exc { uint64_t ti = 0, dtor = 0; int handlers = 0; bool again = false; };
struct State {
  std::vector<Frame> fr;
  std::vector<Obj> glob, heap, stack;
  uint64_t heapTop = HEAP_BASE, stackTop = STACK_BASE;
  std::vector<VarInfo> vars; std::vector<IVarInfo> ivars;
  std::vector<CP> pc; std::vector<Fact> facts;
  Model w; bool hasW = true;
  std::vector<int64_t> log; // decisions taken inside the current instruction
  std::vector<std::pair<std::string, Val>> outs;
  std::vector<std::pair<std::string, long>> choices; // sg_choose values, in call order
  std::map<std::string, int> nameCount;
  std::vector<TrigMemo> trig;
  uint64_t ninstr = 0; int depth = 0; int forks = 0;
  long liveHeap = 0; std::vector<long> guards;
  std::map<uint64_t, Exc> excs; std::vector<uint64_t> caught, dying; uint64_t landing = 0, landingSel = 0; // exceptions in flight, being handled, being destroyed
  bool uncertain = false;
  std::vector<std::pair<int, Poly>> pins, newPins; // variable = polynomial, implied by pc
};
typedef std::unique_ptr<State> SP;

struct PathEnd { int why; std::string msg; }; // 0 done, 1 killed(assume), 2 violation, 3 limit
struct ModelOut { std::vector<std::pair<std::string, std::string>> kv; };
struct Violation { std::string kind, msg, where; std::vector<ModelOut> models; };
struct PathSample { ModelOut m; std::vector<std::pair<std::string, double>> outs; };

static std::mutex gMx;
static std::condition_variable gCv;
static std::vector<SP> gQueue;
static int gActive = 0;
static bool gStop = false;
static std::vector<Violation> gViol;
static std::map<std::string, int> gViolCount;
static std::vector<PathSample> gSamples;
static std::map<std::string, long> gReach, gAssertMsgs, gLimits;
static std::atomic<long> nCompleted{0}, nKilled{0}, nViolPaths{0}, nLimit{0}, nForks{0}, nAsserts{0}, nAssertProved{0}, nAssertUnknown{0}, nUnknownBranch{0}, nDecisions{0}, nConcrAssert{0}, nDivZero{0}, nSolverForced{0};
static std::atomic<uint64_t> nInstr{0};
static size_t gMaxSamples = 24;
static int gThreads = 8;

static std::string qstr(const Q &q) {
  double d = q.get_d(); char buf[64]; snprintf(buf, sizeof buf, "%a", d); return buf;
}

struct Exec {
  SP st; Z3Worker z; size_t logPos = 0; int curFn = -1;
  std::set<int> usedFns;

  [[noreturn]] void limit(const std::string &m) { throw PathEnd{3, m}; }

  // ---------------------------------------------------------- solver glue
  static int signMask(const Fact &f) { return f.mask; }
  int knownMask(const Cond &c) {
    int m = 7;
    for (auto &f : st->facts) if (f.h == c.h && *f.p == *c.p) m &= f.mask;
    return m;
  }
  int intervalMask(const Poly &p) {
    double lo = 0, hi = 0, ab = 0;
    for (auto &x : p.t) {
      double c = x.second.get_d(); double tl = c, th = c;
      for (int i = 0; i < NV; ++i) if (x.first.e[i]) {
        if (!st->vars[i].hasLo || !st->vars[i].hasHi) return 7;
        double vl = st->vars[i].lo.get_d(), vh = st->vars[i].hi.get_d();
        int e = x.first.e[i]; double pl, ph;
        if (e % 2 == 0) { double a = std::pow(vl, e), b = std::pow(vh, e); ph = std::max(a, b); pl = (vl <= 0 && vh >= 0) ? 0 : std::min(a, b); }
        else { pl = std::pow(vl, e); ph = std::pow(vh, e); }
        double a = tl * pl, b = tl * ph, cc = th * pl, d = th * ph;
        tl = std::min(std::min(a, b), std::min(cc, d)); th = std::max(std::max(a, b), std::max(cc, d));
      }
      lo += tl; hi += th; ab += std::max(std::fabs(tl), std::fabs(th));
    }
    double mg = 1e-12 * ab;
    if (lo > mg) return 4;
    if (hi < -mg) return 1;
    if (lo < -mg && hi > mg) return 7;
    // borderline: exact
    Q L = 0, H = 0;
    for (auto &x : p.t) {
      Q tl = x.second, th = x.second;
      for (int i = 0; i < NV; ++i) if (x.first.e[i]) {
        int e = x.first.e[i]; Q vl = 1, vh = 1; for (int k = 0; k < e; ++k) { vl *= st->vars[i].lo; vh *= st->vars[i].hi; }
        Q pl = vl, ph = vh;
        if (e % 2 == 0) { ph = std::max(vl, vh); pl = (st->vars[i].lo <= 0 && st->vars[i].hi >= 0) ? Q(0) : std::min(vl, vh); }
        Q a = tl * pl, b = tl * ph, c = th * pl, d = th * ph;
        tl = std::min(std::min(a, b), std::min(c, d)); th = std::max(std::max(a, b), std::max(c, d));
      }
      L += tl; H += th;
    }
    int m = 0;
    if (L < 0) m |= 1;
    if (L <= 0 && H >= 0) m |= 2;
    if (H > 0) m |= 4;
    return m;
  }
  CP simp(const CP &c) {
    switch (c->k) {
    case Cond::ATOM: {
      int m = knownMask(*c);
      if (!(m & c->mask)) return cF();
      if (!(m & ~c->mask)) return cT();
      m &= intervalMask(*c->p);
      if (!(m & c->mask)) return cF();
      if (!(m & ~c->mask)) return cT();
      return c;
    }
    case Cond::AND: { CP a = simp(c->a); if (a->k == Cond::F) return a; CP b = simp(c->b); return cAnd(a, b); }
    case Cond::OR: { CP a = simp(c->a); if (a->k == Cond::T) return a; CP b = simp(c->b); return cOr(a, b); }
    default: return c;
    }
  }
  void addFact(const CP &c) {
    if (c->k == Cond::AND) { addFact(c->a); addFact(c->b); return; }
    if (c->k != Cond::ATOM) return;
    for (auto &f : st->facts) if (f.h == c->h && *f.p == *c->p) { if (f.mask != 2 && (f.mask & c->mask) == 2) pinBy(*f.p); f.mask &= c->mask; goto bounds; }
    st->facts.push_back({c->h, c->p, c->mask});
    if (c->mask == 2) pinBy(*c->p);
  bounds:
    // univariate linear: tighten the box
    const Poly &p = *c->p;
    if (p.t.size() <= 2 && p.linear() && !p.t[0].first.isOne()) {
      if (p.t.size() == 2 && !p.t[1].first.isOne()) return;
      int v = -1; for (int i = 0; i < NV; ++i) if (p.t[0].first.e[i]) v = i;
      Q b = p.t.size() == 2 ? Q(-p.t[1].second) : Q(0); // x ? b (monic)
      VarInfo &vi = st->vars[v];
      if (!(c->mask & 4)) { if (!vi.hasHi || b < vi.hi) { vi.hi = b; vi.hasHi = true; } }
      if (!(c->mask & 1)) { if (!vi.hasLo || b > vi.lo) { vi.lo = b; vi.hasLo = true; } }
      if (vi.hasLo && vi.hasHi && vi.lo == vi.hi) st->newPins.push_back({v, Poly(vi.lo)});
    }
  }
  // linear equalities implied by the path condition are substituted into later values
  void pinBy(const Poly &p) {
    if (p.isConst() || p.t.size() > 6 || !p.linear()) return;
    int v = -1; for (int i = 0; i < NV; ++i) if (p.t[0].first.e[i]) v = i;
    Poly r; for (size_t k = 1; k < p.t.size(); ++k) r.t.push_back({p.t[k].first, Q(-p.t[k].second / p.t[0].second)});
    st->newPins.push_back({v, r});
  }
  void mergePins() { // only between instructions: within one, decisions are replayed by position
    auto np = std::move(st->newPins); st->newPins.clear();
    for (auto &x : np) {
      Poly e = Poly::var(x.first) - x.second, f = e; substPins(f); if (f.isConst()) continue; // x known already
      if (!f.linear()) continue;
      int v = -1; for (int i = 0; i < NV; ++i) if (f.t[0].first.e[i]) v = i;
      Poly r; for (size_t k = 1; k < f.t.size(); ++k) r.t.push_back({f.t[k].first, Q(-f.t[k].second / f.t[0].second)});
      std::vector<std::pair<int, Poly>> one{{v, r}};
      for (auto &q : st->pins) subst(q.second, one);
      st->pins.push_back({v, r});
    }
  }
  static bool subst(Poly &p, const std::vector<std::pair<int, Poly>> &pins) {
    bool any = false;
    for (auto &t : p.t) for (auto &q : pins) if (t.first.e[q.first]) { any = true; break; }
    if (!any) return false;
    Poly r;
    for (auto &t : p.t) {
      Poly m; Mono mo = t.first; Poly f(Q(1)); for (auto &q : pins) { for (int k = 0; k < mo.e[q.first]; ++k) f = f * q.second; mo.e[q.first] = 0; }
      m.t.push_back({mo, t.second}); r = r + m * f;
    }
    p = r; return true;
  }
  bool substPins(Poly &p) { return !st->pins.empty() && subst(p, st->pins); }
  Rat toRat(const Val &v) {
    if (v.k == Val::DBL) return rconst(v.d);
    if (st->pins.empty()) return v.rat();
    Rat r = v.rat(); bool a = substPins(r.n), b = substPins(r.d);
    if (!a && !b) return r;
    if (r.d.isZero()) return v.rat();
    return mkRat(r.n, r.d);
  }
  Val norm(const Val &v) { return v.k == Val::SREAL && !st->pins.empty() ? mkReal(toRat(v)) : v; }
  void addPC(const CP &c) { if (c->k == Cond::T) return; st->pc.push_back(c); addFact(c); }
  VarSet allVars() { VarSet v; for (size_t i = 0; i < st->vars.size(); ++i) v.set(i); for (size_t i = 0; i < st->ivars.size(); ++i) v.set(64 + i); return v; }
  SatR query(const CP &extra, Model &m, unsigned to, bool full = false) {
    std::vector<CP> cs{extra}; VarSet vs = extra->vs;
    if (st->hasW && !full) {
      std::vector<char> in(st->pc.size(), 0); bool ch = true;
      while (ch) { ch = false; for (size_t i = 0; i < st->pc.size(); ++i) if (!in[i] && (st->pc[i]->vs & vs).any()) { in[i] = 1; vs |= st->pc[i]->vs; ch = true; } }
      for (size_t i = 0; i < st->pc.size(); ++i) if (in[i]) cs.push_back(st->pc[i]);
      m = st->w;
    } else {
      for (auto &c : st->pc) cs.push_back(c);
      vs = allVars(); m.r.assign(st->vars.size(), Q(0)); m.i.assign(st->ivars.size(), 0); m.exact = true;
    }
    return z.check(cs, st->vars, st->ivars, vs, &m, to);
  }
  void push(SP s) {
    nForks++;
    std::lock_guard<std::mutex> g(gMx); gQueue.push_back(std::move(s)); gCv.notify_one();
  }
  // decide a condition, forking when both outcomes are satisfiable
  bool decide(CP c) {
    if (c->k == Cond::T) return true;
    if (c->k == Cond::F) return false;
    if (logPos < st->log.size()) return st->log[logPos++] != 0;
    c = simp(c);
    if (c->k == Cond::T || c->k == Cond::F) { bool b = c->k == Cond::T; st->log.push_back(b); logPos++; return b; }
    nDecisions++;
    bool known = false, side = false; Model mo; SatR other;
    if (st->hasW) { side = evalCond(c, st->w); known = true; }
    CP nc = cNot(c);
    if (!known) {
      Model m1; SatR r1 = query(c, m1, gBranchTimeout);
      if (r1 == UNSAT) side = false;
      else { side = true; if (r1 == SAT) { st->w = m1; st->hasW = true; } else { st->uncertain = true; } }
      if (r1 == UNSAT) { addFact(nc); st->log.push_back(0); logPos++; return false; }
    }
    CP sc = side ? c : nc, oc = side ? nc : c;
    other = query(oc, mo, gBranchTimeout);
    if (other == UNSAT) { nSolverForced++; addFact(sc); if (st->hasW && !st->w.exact) {} st->log.push_back(side); logPos++; return side; }
    if (other == UNKNOWN) nUnknownBranch++;
    // fork
    SP sib(new State(*st));
    sib->log.push_back(!side); sib->forks++;
    if (other == SAT) { sib->w = mo; sib->hasW = true; } else { sib->hasW = false; sib->uncertain = true; }
    { std::swap(st, sib); addPC(oc); std::swap(st, sib); }
    st->forks++;
    push(std::move(sib));
    st->log.push_back(side); logPos++;
    addPC(sc);
    return side;
  }
  int64_t chooseN(int64_t lo, int64_t hi) {
    if (logPos < st->log.size()) return st->log[logPos++];
    for (int64_t v = hi; v > lo; --v) { SP sib(new State(*st)); sib->log.push_back(v); push(std::move(sib)); }
    st->log.push_back(lo); logPos++; return lo;
  }
  // concretise a symbolic integer by forking over its feasible values
  int64_t concretise(const BP &b) {
    if (b->op == B_CONST) return b->lo;
    while (true) {
      int64_t cand;
      if (logPos < st->log.size()) cand = st->log[logPos++];
      else {
        if (!st->hasW) { Model m; SatR r = query(cT(), m, gBranchTimeout); if (r == SAT) { st->w = m; st->hasW = true; } else limit("no model to concretise an integer"); }
        cand = evalBV(b, st->w); st->log.push_back(cand); logPos++;
      }
      if (decide(bcmp(C_EQ, b, bconst(cand, b->w), false))) return cand;
    }
  }
  // decide the sign of a rational function: -1, 0, 1
  int decideSign(const Rat &r) {
    if (rIsConst(r)) return sgn(r.n.constVal());
    if (decide(mkRatSign(r, 4))) return 1;
    if (decide(mkRatSign(r, 1))) return -1;
    return 0;
  }
  // floor of a symbolic real
  Q floorOf(const Rat &r) {
    if (rIsConst(r)) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), r.n.constVal().get_num_mpz_t(), r.n.constVal().get_den_mpz_t()); return Q(f); }
    int64_t last = INT64_MIN; int rep = 0;
    for (int it = 0; it < 4096; ++it) {
      int64_t cand;
      if (logPos < st->log.size()) cand = st->log[logPos++];
      else {
        if (!st->hasW) { Model m; SatR q = query(cT(), m, gBranchTimeout); if (q == SAT) { st->w = m; st->hasW = true; } else limit("no model for floor"); }
        Q d = evalPoly(r.d, st->w.r); if (d == 0) limit("floor: approximate witness");
        Q v = evalPoly(r.n, st->w.r) / d; mpz_class f; mpz_fdiv_q(f.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t());
        if (!f.fits_slong_p()) limit("floor out of range");
        cand = f.get_si(); if (cand == last) { rep++; if (rep > 2) { Model m; if (query(cT(), m, gBranchTimeout, true) == UNSAT) throw PathEnd{1, "infeasible"}; limit("floor: approximate witness"); } cand += rep == 1 ? 1 : -1; } else { last = cand; rep = 0; } st->log.push_back(cand); logPos++;
      }
      Q k = cand;
      CP c = cAnd(mkRatSign(radd(r, rconst(k), -1), 6), mkRatSign(radd(r, rconst(Q(k + 1)), -1), 1));
      if (decide(c)) return k;
    }
    limit("floor: too many values");
  }

  // ---------------------------------------------------------- violations
  ModelOut modelOut(const Model &m) {
    ModelOut o;
    for (size_t i = 0; i < st->vars.size(); ++i) if (st->vars[i].input) o.kv.push_back({st->vars[i].name, qstr(m.r[i])});
    for (size_t i = 0; i < st->ivars.size(); ++i) o.kv.push_back({st->ivars[i].name, std::to_string(m.i[i])});
    for (auto &c : st->choices) o.kv.push_back({c.first, std::to_string(c.second)});
    return o;
  }
  // try to move the model to short dyadic values that still satisfy pc /\ extra
  bool roundModel(Model &m, const CP &extra) {
    for (int bits : {3, 6, 10, 16, 24, 36}) {
      Model t = m; bool aux = false;
      for (size_t i = 0; i < t.r.size(); ++i) {
        if (!st->vars[i].input) { aux = true; continue; }
        Q s = t.r[i] * Q(mpz_class(1) << bits); mpz_class f; Q h = s + Q(1, 2); mpz_fdiv_q(f.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t());
        t.r[i] = Q(f) / Q(mpz_class(1) << bits);
        if (st->vars[i].hasLo && t.r[i] < st->vars[i].lo) t.r[i] = m.r[i];
        if (st->vars[i].hasHi && t.r[i] > st->vars[i].hi) t.r[i] = m.r[i];
      }
      if (aux) return false;
      bool ok = evalCond(extra, t);
      for (auto &c : st->pc) { if (!ok) break; ok = evalCond(c, t); }
      if (ok) { m = t; return true; }
    }
    return false;
  }
  std::string where() {
    std::string s; int n = 0;
    for (auto it = st->fr.rbegin(); it != st->fr.rend() && n < 6; ++it, ++n) { std::string d = llvm::demangle(P.fns[it->fn].name); size_t q = d.find('('); if (q != std::string::npos) d = d.substr(0, q); s += (n ? " < " : "") + d; }
    return s;
  }
  // strengthen a violated condition so that the counterexample is not marginal
  void amplify(const CP &bad, std::vector<Model> &ms) {
    std::vector<CP> djs; std::function<void(const CP &)> split = [&](const CP &c) { if (c->k == Cond::OR) { split(c->a); split(c->b); } else djs.push_back(c); };
    split(bad);
    int n = 0;
    for (auto &d : djs) {
      if (++n > 6) break;
      // collect the atoms of this conjunct; push strict ones away from zero
      std::vector<CP> at; std::function<void(const CP &)> sp = [&](const CP &c) { if (c->k == Cond::AND) { sp(c->a); sp(c->b); } else at.push_back(c); };
      sp(d);
      for (const char *mg : {"1", "1/8", "1/100", "1/10000", "1/1000000"}) {
        Q q(mg); CP s = cT(); bool any = false;
        for (auto &a : at) {
          if (a->k == Cond::ATOM && (a->mask == 4 || a->mask == 6)) { s = cAnd(s, mkAtom(*a->p - Poly(q), 4)); any = true; }
          else if (a->k == Cond::ATOM && (a->mask == 1 || a->mask == 3)) { s = cAnd(s, mkAtom(*a->p + Poly(q), 1)); any = true; }
          else s = cAnd(s, a);
        }
        if (!any) break;
        Model m; SatR r = query(s, m, 3000);
        if (r == SAT) { roundModel(m, s); ms.push_back(m); break; }
        if (r == UNKNOWN) break;
      }
    }
  }
  void report(const std::string &kind, const std::string &msg, std::vector<Model> ms) {
    std::string key = kind + "|" + msg;
    { std::lock_guard<std::mutex> g(gMx); if (gViolCount[key]++ >= 12) return; }
    Violation v; v.kind = kind; v.msg = msg; v.where = where();
    for (auto &m : ms) { Model t = m; if (roundModel(t, cT())) v.models.push_back(modelOut(t)); v.models.push_back(modelOut(m)); }
    std::lock_guard<std::mutex> g(gMx); gViol.push_back(v);
    if (gVerbose) { fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), v.where.c_str()); for (auto &m : v.models) { for (auto &kv : m.kv) fprintf(stderr, "   %s=%s", kv.first.c_str(), kv.second.c_str()); fprintf(stderr, "\n"); } }
  }
  // several models of the current path, for crash-like violations
  std::vector<Model> pathModels() {
    std::vector<Model> ms;
    if (st->hasW) ms.push_back(st->w);
    else { Model m; if (query(cT(), m, gAssertTimeout, true) == SAT) ms.push_back(m); }
    return ms;
  }
  [[noreturn]] void violation(const std::string &kind, const std::string &msg) {
    if (gVerbose && !st->fr.empty()) {
      auto &fr = st->fr.back(); auto &b = P.fns[fr.fn].blocks[fr.blk].ins; std::string t; raw_string_ostream os(t);
      for (int d = -6; d <= 1; ++d) { long q = (long)fr.pc + d; if (q >= 0 && q < (long)b.size() && b[q].I) os << (d == 0 ? "=> " : "   ") << *b[q].I << "\n"; }
      fprintf(stderr, "%s in %s\n%s", msg.c_str(), P.fns[fr.fn].name.c_str(), os.str().c_str());
    }
    auto ms = pathModels();
    if (ms.empty()) { nAssertUnknown++; throw PathEnd{3, "violation on a path without model: " + kind}; }
    report(kind, msg, ms);
    throw PathEnd{2, msg};
  }
  void doAssert(const Val &v, const std::string &msg) {
    nAsserts++;
    { std::lock_guard<std::mutex> g(gMx); gAssertMsgs[msg]++; }
    if (v.k == Val::UNDEF) violation("uninit", msg + " (value undefined)");
    if (v.k == Val::INT) { nConcrAssert++; if (v.i & 1) { nAssertProved++; return; } auto ms = pathModels(); if (ms.empty()) { nAssertUnknown++; throw PathEnd{3, "assert false without model"}; } report("assert", msg, ms); throw PathEnd{2, msg}; }
    CP c = v.k == Val::SBOOL ? v.cond() : cNot(bcmp(C_EQ, v.bv(), bconst(0, v.bv()->w), false));
    c = simp(c);
    if (c->k == Cond::T) { nAssertProved++; return; }
    CP bad = cNot(c);
    std::vector<Model> ms; SatR r;
    if (st->hasW && st->w.exact && evalCond(bad, st->w)) { ms.push_back(st->w); r = SAT; }
    else { Model m; r = query(bad, m, gAssertTimeout); if (r == SAT) ms.push_back(m); }
    if (r == UNSAT) { nAssertProved++; addFact(c); return; }
    if (r == UNKNOWN) {
      // bug hunting under partial concretisation; never counts as proof
      if (st->hasW) {
        std::vector<int> idx; for (size_t i = 0; i < st->vars.size(); ++i) if (st->vars[i].input) idx.push_back(i);
        for (size_t keep = 0; keep < idx.size() && ms.empty(); ++keep) {
          CP s = bad; for (size_t j = 0; j < idx.size(); ++j) if (j != keep && j != (keep + 1) % idx.size()) s = cAnd(s, mkAtom(Poly::var(idx[j]) - Poly(st->w.r[idx[j]]), 2));
          Model m; if (query(s, m, 2000, true) == SAT) ms.push_back(m);
        }
      }
      nAssertUnknown++;
      if (ms.empty()) { addPC(c); return; }
    }
    std::vector<Model> am; amplify(bad, am);
    for (auto &m : ms) { Model t = m; if (roundModel(t, bad)) am.push_back(t); am.push_back(m); }
    report("assert", msg, am);
    // continue where the assertion holds
    Model m; SatR g = query(c, m, gBranchTimeout);
    if (g == UNSAT) throw PathEnd{2, msg};
    if (g == SAT) { st->w = m; st->hasW = true; } else st->hasW = false;
    addPC(c);
  }
  void doAssume(const Val &v) {
    if (v.k == Val::UNDEF) violation("uninit", "assumption on an undefined value");
    if (v.k == Val::INT) { if (!(v.i & 1)) throw PathEnd{1, "assume"}; return; }
    CP c = v.k == Val::SBOOL ? v.cond() : cNot(bcmp(C_EQ, v.bv(), bconst(0, v.bv()->w), false));
    c = simp(c);
    if (c->k == Cond::T) return;
    if (c->k == Cond::F) throw PathEnd{1, "assume"};
    if (!(st->hasW && evalCond(c, st->w))) {
      Model m; SatR r = query(c, m, gAssertTimeout);
      if (r == UNSAT) throw PathEnd{1, "assume"};
      if (r == SAT) { st->w = m; st->hasW = true; } else { st->hasW = false; st->uncertain = true; }
    }
    addPC(c);
  }

  // ---------------------------------------------------------- memory
  Obj *find(uint64_t a) {
    std::vector<Obj> *v = a >= STACK_BASE ? &st->stack : a >= HEAP_BASE ? &st->heap : a >= GLOB_BASE ? &st->glob : nullptr;
    if (!v) return nullptr;
    size_t lo = 0, hi = v->size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if ((*v)[m].base <= a) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    return &(*v)[lo - 1];
  }
  Obj &access(uint64_t a, uint64_t n, const char *what) {
    Obj *o = find(a);
    if (!o || a < o->base || a + n > o->base + o->size || a + n < a) {
      const char *m = a < 4096 ? "null pointer access" : (o && a <= o->base + o->size + 64) ? "out-of-bounds access" : "access to freed or unmapped memory";
      violation("memory", std::string(m) + " (" + what + ")");
    }
    return *o;
  }
  static Data &own(Obj &o) { if (o.d.use_count() > 1) o.d = std::make_shared<Data>(*o.d); return *o.d; }
  void clearSym(Data &d, uint64_t off, uint64_t n) {
    if (d.sym.empty()) return;
    // symbolic cells overlapping [off, off+n) are dropped; partial overlap poisons the rest
    for (auto it = d.sym.lower_bound(off >= 8 ? off - 7 : 0); it != d.sym.end() && it->first < off + n;) {
      uint32_t s = it->first, e = s + 1; while (e < d.st.size() && d.st[e] == 3) e++;
      if (e > off) { for (uint32_t q = s; q < e; ++q) d.st[q] = 0; it = d.sym.erase(it); } else ++it;
    }
  }
  Val load(uint64_t a, int bytes, int w, bool dbl) {
    Obj &o = access(a, bytes, "load"); uint64_t off = a - o.base; Data &d = *o.d;
    if (bytes > 1) { // single bytes, not all concrete
      bool one = true, sy = false;
      for (int i = 0; i < bytes && one; ++i) { uint8_t s = d.st[off + i]; if (s == 3) one = false; if (s == 2) { sy = true; if (off + i + 1 < d.st.size() && d.st[off + i + 1] == 3) one = false; else { auto k = d.sym.find(off + i); if (k == d.sym.end() || (k->second.k != Val::SINT && k->second.k != Val::SBOOL)) one = false; } } }
      if (one && sy) {
        auto g = std::make_shared<Agg>(); for (int i = 0; i < bytes; ++i) { uint8_t s = d.st[off + i]; g->v.push_back(s == 2 ? d.sym[off + i] : s ? Val::I(d.b[off + i]) : Val()); }
        Val v; v.k = Val::PACK; v.p = g; return v;
      }
    }
    if (d.st[off] == 2) {
      int n = 1; while (off + n < d.st.size() && d.st[off + n] == 3) n++;
      if (n == bytes) {
        Val v = d.sym[off];
        if (v.k == Val::FRESH) { v = varVal(newVar("aux", true, Q(-1000000), true, Q(1000000), false, Q(12345))); own(o).sym[off] = v; }
        return v;
      }
      limit("load of part of a symbolic value");
    }
    for (int i = 0; i < bytes; ++i) { if (d.st[off + i] == 0) return Val(); if (d.st[off + i] >= 2) limit("load overlapping a symbolic value"); }
    uint64_t v = 0; memcpy(&v, &d.b[off], bytes);
    if (dbl) { double x; memcpy(&x, &v, 8); return Val::D(x); }
    return Val::I(zext(v, w));
  }
  void store(uint64_t a, int bytes, const Val &v) {
    Obj &o = access(a, bytes, "store"); uint64_t off = a - o.base; Data &d = own(o);
    clearSym(d, off, bytes);
    if (v.k == Val::UNDEF) { for (int i = 0; i < bytes; ++i) d.st[off + i] = 0; return; }
    if (v.k == Val::INT || v.k == Val::DBL) {
      uint64_t x; if (v.k == Val::INT) x = v.i; else memcpy(&x, &v.d, 8);
      memcpy(&d.b[off], &x, bytes); for (int i = 0; i < bytes; ++i) d.st[off + i] = 1; return;
    }
    if (v.k == Val::AGG) limit("store of an aggregate");
    if (v.k == Val::PACK) { auto g = std::static_pointer_cast<const Agg>(v.p); for (size_t i = 0; i < g->v.size() && (int)i < bytes; ++i) store(a + i, 1, g->v[i]); return; }
    d.st[off] = 2; for (int i = 1; i < bytes; ++i) d.st[off + i] = 3;
    d.sym[off] = v;
  }
  void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    Obj &so = access(src, n, "memcpy source"); uint64_t so_off = src - so.base; std::shared_ptr<Data> sd = so.d;
    Obj &dO = access(dst, n, "memcpy destination"); uint64_t doff = dst - dO.base;
    std::vector<uint8_t> b(sd->b.begin() + so_off, sd->b.begin() + so_off + n), s(sd->st.begin() + so_off, sd->st.begin() + so_off + n);
    std::vector<std::pair<uint32_t, Val>> sy;
    for (auto it = sd->sym.lower_bound(so_off); it != sd->sym.end() && it->first < so_off + n; ++it) sy.push_back({(uint32_t)(it->first - so_off), it->second});
    if (s[0] == 3) limit("memcpy of part of a symbolic value");
    bool cut = so_off + n < sd->st.size() && sd->st[so_off + n] == 3; if (cut) limit("memcpy of part of a symbolic value");
    sd.reset();
    Data &d = own(dO); clearSym(d, doff, n);
    std::copy(b.begin(), b.end(), d.b.begin() + doff); std::copy(s.begin(), s.end(), d.st.begin() + doff);
    for (auto &x : sy) d.sym[doff + x.first] = x.second;
  }
  uint64_t allocHeap(uint64_t n, int kind) {
    if (n > (1ULL << 28)) violation("memory", "allocation of an absurd size");
    Obj o; o.base = st->heapTop; o.size = n; o.kind = kind; o.d = std::make_shared<Data>(); o.d->b.resize(n); o.d->st.resize(n, 0);
    st->heapTop += ((n + 15) & ~15ULL) + 64; st->heap.push_back(o); st->liveHeap++; return o.base;
  }
  void freeHeap(uint64_t a, int kind) {
    if (!a) return;
    Obj *o = find(a);
    if (!o || o->base != a || o->kind < 2) violation("memory", "free of a pointer that is not allocated (double free?)");
    if (o->kind != kind) violation("memory", "allocation and deallocation functions do not match");
    st->heap.erase(st->heap.begin() + (o - &st->heap[0])); st->liveHeap--;
  }
  uint64_t allocStack(uint64_t n) {
    Obj o; o.base = st->stackTop; o.size = n; o.kind = 1; o.d = std::make_shared<Data>(); o.d->b.resize(n); o.d->st.resize(n, 0);
    st->stackTop += ((n + 15) & ~15ULL) + 64; st->stack.push_back(o); return o.base;
  }
  std::string cstr(uint64_t a) {
    std::string s;
    while (true) { Val v = load(a++, 1, 8, false); if (v.k != Val::INT) limit("symbolic or undefined C string"); if (!v.i) break; s += (char)v.i; if (s.size() > 4096) break; }
    return s;
  }

  // ---------------------------------------------------------- arithmetic
  Val &reg(int i) { return st->fr.back().r[i]; }
  const Val &op(int i) { return i >= 0 ? st->fr.back().r[i] : P.consts[~i]; }
  BP toBV(const Val &v, int w) {
    if (v.k == Val::INT) return bconst((int64_t)v.i, w);
    if (v.k == Val::SINT) { BP b = v.bv(); if (b->w != w) limit("width mismatch"); return b; }
    limit("not an integer");
  }
  // make an operand an INT or SINT value
  Val unpack(const Val &v) {
    if (v.k != Val::PACK) return v;
    const Agg &g = *(const Agg *)v.p.get(); int w = 8 * (int)g.v.size(); BP r;
    for (size_t i = 0; i < g.v.size(); ++i) {
      Val x = g.v[i]; if (x.k == Val::UNDEF) return Val(); if (x.k == Val::SBOOL) x = Val::I(decide(x.cond()) ? 1 : 0);
      BP b = bmk(B_ZEXT, w, toBV(x, 8), nullptr); if (i) b = bmk(B_SHL, w, b, bconst((int64_t)(8 * i), w));
      r = r ? bmk(B_OR, w, r, b) : b;
    }
    return mkInt(r);
  }
  Val intVal(const Val &v0, int w) {
    if (v0.k == Val::PACK) { Val u = unpack(v0); if (u.k == Val::UNDEF) limit("word with an undefined byte"); return u; }
    const Val &v = v0;
    if (v.k == Val::SBOOL) { bool b = decide(v.cond()); return Val::I(b ? 1 : 0); }
    if (v.k == Val::SREAL || v.k == Val::DBL) { if (v.k == Val::DBL) { uint64_t x; memcpy(&x, &v.d, 8); return Val::I(x); } limit("integer operation on the bits of a symbolic double"); }
    return v;
  }
  uint64_t concInt(const Val &v, int w, const char *what) {
    if (v.k == Val::INT) return v.i;
    if (v.k == Val::PACK) return concInt(unpack(v), w, what);
    if (v.k == Val::UNDEF) violation("uninit", std::string("undefined value used as ") + what);
    if (v.k == Val::SBOOL) return decide(v.cond()) ? 1 : 0;
    if (v.k == Val::SINT) return zext((uint64_t)concretise(v.bv()), w);
    if (v.k == Val::DBL) { uint64_t x; memcpy(&x, &v.d, 8); return x; }
    limit(std::string("symbolic double used as ") + what);
  }
  CP boolOf(const Val &v, const char *what = "branch condition") {
    if (v.k == Val::INT) return cBool(v.i & 1);
    if (v.k == Val::SBOOL) return v.cond();
    if (v.k == Val::SINT) return cNot(bcmp(C_EQ, v.bv(), bconst(0, v.bv()->w), false));
    if (v.k == Val::UNDEF) violation("uninit", std::string("undefined value used as ") + what);
    limit("boolean");
  }
  Val fop(int opc, const Val &a, const Val &b) {
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
    if (a.k == Val::INT || b.k == Val::INT) { Val x = a, y = b; if (x.k == Val::INT) { double d; memcpy(&d, &x.i, 8); x = Val::D(d); } if (y.k == Val::INT) { double d; memcpy(&d, &y.i, 8); y = Val::D(d); } return fop(opc, x, y); }
    if (a.k == Val::DBL && b.k == Val::DBL) {
      switch (opc) {
      case Instruction::FAdd: return Val::D(a.d + b.d);
      case Instruction::FSub: return Val::D(a.d - b.d);
      case Instruction::FMul: return Val::D(a.d * b.d);
      case Instruction::FDiv: if (b.d == 0) nDivZero++; return Val::D(a.d / b.d);
      case Instruction::FRem: return Val::D(std::fmod(a.d, b.d));
      }
    }
    bool ai = a.k == Val::DBL && !std::isfinite(a.d), bi = b.k == Val::DBL && !std::isfinite(b.d);
    if (ai || bi) {
      if ((ai && std::isnan(a.d)) || (bi && std::isnan(b.d))) return Val::D(NAN);
      switch (opc) {
      case Instruction::FAdd: return ai ? a : b;
      case Instruction::FSub: return ai ? a : Val::D(-b.d);
      case Instruction::FMul: { int s = decideSign(ai ? b.rat() : a.rat()); return s == 0 ? Val::D(NAN) : Val::D(s * (ai ? a.d : b.d)); }
      case Instruction::FDiv: { if (bi) return Val::D(0); int s = decideSign(b.rat()); return Val::D(s < 0 ? -a.d : a.d); }
      case Instruction::FRem: return bi ? a : Val::D(NAN);
      }
    }
    switch (opc) {
    case Instruction::FAdd: if (a.k == Val::DBL && a.d == 0) return b; if (b.k == Val::DBL && b.d == 0) return a; return mkReal(radd(toRat(a), toRat(b), 1));
    case Instruction::FSub: if (b.k == Val::DBL && b.d == 0) return a; return mkReal(radd(toRat(a), toRat(b), -1));
    case Instruction::FMul: if ((a.k == Val::DBL && a.d == 0) || (b.k == Val::DBL && b.d == 0)) return Val::D(0); if (a.k == Val::DBL && a.d == 1) return b; if (b.k == Val::DBL && b.d == 1) return a; return mkReal(rmul(toRat(a), toRat(b)));
    case Instruction::FDiv: {
      Rat rb = toRat(b);
      if (b.k == Val::DBL ? b.d == 0 : rIsConst(rb) ? rb.n.isZero() : decide(mkAtom(rb.n, 2))) {
        nDivZero++;
        int s = a.k == Val::DBL ? (a.d > 0) - (a.d < 0) : decideSign(a.rat());
        if (s == 0) return Val::D(NAN);
        return Val::D(s * INFINITY * (b.k == Val::DBL && std::signbit(b.d) ? -1 : 1));
      }
      return mkReal(rdiv(toRat(a), rb));
    }
    case Instruction::FRem: {
      if (b.k != Val::DBL || b.d == 0) limit("fmod with symbolic divisor");
      Rat q = rdiv(toRat(a), rconst(b.d)); Q f;
      if (decide(mkRatSign(q, 6))) f = floorOf(q); else f = -floorOf(rneg(q));
      return mkReal(radd(toRat(a), rconst(Q(f * Q(b.d))), -1));
    }
    }
    limit("fp op");
  }
  Val fcmp(int pred, const Val &a0, const Val &b0) {
    Val a = a0, b = b0;
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
    auto fix = [](Val &x) { if (x.k == Val::INT) { double d; memcpy(&d, &x.i, 8); x = Val::D(d); } }; fix(a); fix(b);
    bool unord = (a.k == Val::DBL && std::isnan(a.d)) || (b.k == Val::DBL && std::isnan(b.d));
    if (pred == CmpInst::FCMP_TRUE) return Val::I(1);
    if (pred == CmpInst::FCMP_FALSE) return Val::I(0);
    if (unord) return Val::I(CmpInst::isUnordered((CmpInst::Predicate)pred) ? 1 : 0);
    int mask;
    switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: mask = 2; break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: mask = 4; break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: mask = 6; break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: mask = 1; break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: mask = 3; break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: mask = 5; break;
    case CmpInst::FCMP_ORD: mask = 7; break;
    default: mask = 0; break; // UNO
    }
    if (mask == 7) return Val::I(1);
    if (mask == 0) return Val::I(0);
    if (a.k == Val::DBL && b.k == Val::DBL) { int m = a.d < b.d ? 1 : a.d == b.d ? 2 : 4; return Val::I((m & mask) ? 1 : 0); }
    if (a.k == Val::DBL && std::isinf(a.d)) return Val::I(((a.d < 0 ? 1 : 4) & mask) ? 1 : 0);
    if (b.k == Val::DBL && std::isinf(b.d)) return Val::I(((b.d > 0 ? 1 : 4) & mask) ? 1 : 0);
    return mkBool(mkRatSign(radd(toRat(a), toRat(b), -1), mask));
  }
  Val iop(int opc, int w, const Val &a0, const Val &b0) {
    if (a0.k == Val::UNDEF || b0.k == Val::UNDEF) {
      const Val &d = a0.k == Val::UNDEF ? b0 : a0;
      if (opc == Instruction::And && d.k == Val::INT && d.i == 0) return d;
      if (w == 1 && d.k == Val::INT && opc == Instruction::Or && d.i) return d;
      if (w == 1 && d.k == Val::SBOOL && (opc == Instruction::And || opc == Instruction::Or)) { bool t = decide(d.cond()); if (t == (opc == Instruction::Or)) return Val::I(t ? 1 : 0); }
      return Val();
    }
    // Boolean algebra on (possibly extended) conditions
    if ((a0.k == Val::SBOOL || b0.k == Val::SBOOL) && (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor)) {
      auto isB = [&](const Val &v) { return v.k == Val::SBOOL || (v.k == Val::INT && v.i <= 1); };
      if (isB(a0) && isB(b0)) {
        CP a = boolOf(a0), b = boolOf(b0);
        return mkBool(opc == Instruction::And ? cAnd(a, b) : opc == Instruction::Or ? cOr(a, b) : cXor(a, b));
      }
      if (opc == Instruction::And) { // mask with a constant: keep bit 0
        const Val &cst = a0.k == Val::INT ? a0 : b0, &sb = a0.k == Val::SBOOL ? a0 : b0;
        if (cst.k == Val::INT) { if (cst.i & 1) return sb; return Val::I(0); }
      }
    }
    Val a = intVal(a0, w), b = intVal(b0, w);
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) return Val();
    if (a.k == Val::INT && b.k == Val::INT) {
      int64_t sa = sext(a.i, w), sb = sext(b.i, w);
      if ((opc == Instruction::SDiv || opc == Instruction::SRem || opc == Instruction::UDiv || opc == Instruction::URem) && b.i == 0) violation("arith", "integer division by zero");
      BOp o;
      switch (opc) {
      case Instruction::Add: o = B_ADD; break; case Instruction::Sub: o = B_SUB; break; case Instruction::Mul: o = B_MUL; break;
      case Instruction::SDiv: o = B_SDIV; break; case Instruction::SRem: o = B_SREM; break; case Instruction::UDiv: o = B_UDIV; break; case Instruction::URem: o = B_UREM; break;
      case Instruction::And: o = B_AND; break; case Instruction::Or: o = B_OR; break; case Instruction::Xor: o = B_XOR; break;
      case Instruction::Shl: o = B_SHL; break; case Instruction::LShr: o = B_LSHR; break; default: o = B_ASHR; break;
      }
      return Val::I(zext((uint64_t)evalB(o, sa, sb, w, w), w));
    }
    BP x = toBV(a, w), y = toBV(b, w); BOp o;
    switch (opc) {
    case Instruction::Add: o = B_ADD; break; case Instruction::Sub: o = B_SUB; break; case Instruction::Mul: o = B_MUL; break;
    case Instruction::SDiv: o = B_SDIV; break; case Instruction::SRem: o = B_SREM; break; case Instruction::UDiv: o = B_UDIV; break; case Instruction::URem: o = B_UREM; break;
    case Instruction::And: o = B_AND; break; case Instruction::Or: o = B_OR; break; case Instruction::Xor: o = B_XOR; break;
    case Instruction::Shl: o = B_SHL; break; case Instruction::LShr: o = B_LSHR; break; default: o = B_ASHR; break;
    }
    if (o == B_SDIV || o == B_SREM || o == B_UDIV || o == B_UREM) if (decide(bcmp(C_EQ, y, bconst(0, w), false))) violation("arith", "integer division by zero");
    return mkInt(bmk(o, w, x, y));
  }
  Val icmp(int pred, int w, const Val &a0, const Val &b0) {
    if (a0.k == Val::UNDEF || b0.k == Val::UNDEF) return Val();
    if ((a0.k == Val::SBOOL && b0.k == Val::INT) || (a0.k == Val::INT && b0.k == Val::SBOOL)) {
      bool sw = a0.k == Val::INT; const Val &sb = sw ? b0 : a0; uint64_t k = sw ? a0.i : b0.i;
      auto ev = [&](uint64_t bit) { Val x = Val::I(w == 1 ? bit : bit), y = Val::I(k); return sw ? icmp(pred, w, y, x).i : icmp(pred, w, x, y).i; };
      bool r0 = ev(0), r1 = ev(1);
      if (r0 == r1) return Val::I(r0);
      return mkBool(r1 ? sb.cond() : cNot(sb.cond()));
    }
    if (a0.k == Val::SBOOL && b0.k == Val::SBOOL && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) { CP x = cXor(a0.cond(), b0.cond()); return mkBool(pred == CmpInst::ICMP_EQ ? cNot(x) : x); }
    if ((a0.k == Val::PACK || b0.k == Val::PACK) && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && (a0.k == Val::PACK || a0.k == Val::INT) && (b0.k == Val::PACK || b0.k == Val::INT)) { // byte by byte
      CP c = cBool(true);
      for (int i = 0; i < w / 8; ++i) {
        auto byte = [&](const Val &v) { return v.k == Val::INT ? Val::I((v.i >> (8 * i)) & 255) : ((const Agg *)v.p.get())->v[i]; };
        Val e = icmp(CmpInst::ICMP_EQ, 8, byte(a0), byte(b0)); if (e.k == Val::UNDEF) return Val();
        c = cAnd(c, boolOf(e));
      }
      return mkBool(pred == CmpInst::ICMP_EQ ? c : cNot(c));
    }
    if (w == 64 && a0.k == Val::SREAL && b0.k == Val::INT) { // the sign bit
      if (pred == CmpInst::ICMP_SLT && b0.i == 0) return mkBool(mkRatSign(a0.rat(), 1));
      if (pred == CmpInst::ICMP_SGT && b0.i == ~0ULL) return mkBool(cNot(mkRatSign(a0.rat(), 1)));
    }
    Val a = intVal(a0, w), b = intVal(b0, w);
    if (a.k == Val::INT && b.k == Val::INT) {
      int64_t sa = sext(a.i, w), sb = sext(b.i, w); uint64_t ua = zext(a.i, w), ub = zext(b.i, w); bool r;
      switch (pred) {
      case CmpInst::ICMP_EQ: r = ua == ub; break; case CmpInst::ICMP_NE: r = ua != ub; break;
      case CmpInst::ICMP_UGT: r = ua > ub; break; case CmpInst::ICMP_UGE: r = ua >= ub; break; case CmpInst::ICMP_ULT: r = ua < ub; break; case CmpInst::ICMP_ULE: r = ua <= ub; break;
      case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; case CmpInst::ICMP_SLT: r = sa < sb; break; default: r = sa <= sb; break;
      }
      return Val::I(r);
    }
    BP x = toBV(a, w), y = toBV(b, w); CP c;
    switch (pred) {
    case CmpInst::ICMP_EQ: c = bcmp(C_EQ, x, y, false); break; case CmpInst::ICMP_NE: c = bcmp(C_EQ, x, y, true); break;
    case CmpInst::ICMP_UGT: c = bcmp(C_ULE, x, y, true); break; case CmpInst::ICMP_UGE: c = bcmp(C_ULT, x, y, true); break;
    case CmpInst::ICMP_ULT: c = bcmp(C_ULT, x, y, false); break; case CmpInst::ICMP_ULE: c = bcmp(C_ULE, x, y, false); break;
    case CmpInst::ICMP_SGT: c = bcmp(C_SLE, x, y, true); break; case CmpInst::ICMP_SGE: c = bcmp(C_SLT, x, y, true); break;
    case CmpInst::ICMP_SLT: c = bcmp(C_SLT, x, y, false); break; default: c = bcmp(C_SLE, x, y, false); break;
    }
    return mkBool(c);
  }
  // ---------------------------------------------------------- math functions
  int newVar(const std::string &name, bool hasLo, Q lo, bool hasHi, Q hi, bool input, Q wit) {
    if ((int)st->vars.size() >= NV) limit("too many symbolic reals");
    st->vars.push_back({name, lo, hi, hasLo, hasHi, input}); st->w.r.push_back(wit); return (int)st->vars.size() - 1;
  }
  double approx(const Rat &r) { if (!st->hasW) return 0.5; Q d = evalPoly(r.d, st->w.r); if (d == 0) return 0; return Q(evalPoly(r.n, st->w.r) / d).get_d(); }
  Val varVal(int v) { Rat r; r.n = Poly::var(v); r.d = Poly(Q(1)); return mkReal(r); }
  Val memoVar(int fn, const Rat &arg, double lo, double hi, double wit, bool &fresh) {
    for (auto &t : st->trig) if (t.fn == fn && t.arg.n == arg.n && t.arg.d == arg.d) { fresh = false; return varVal(t.v); }
    fresh = true;
    int v = newVar("aux", true, Q(lo), true, Q(hi), false, Q(wit)); st->trig.push_back({fn, arg, v}); st->w.exact = false;
    return varVal(v);
  }
  Val mathFn(const std::string &f, const std::vector<Val> &a0) {
    std::vector<Val> a; for (auto &x : a0) a.push_back(norm(x));
    for (auto &x : a) if (x.k == Val::UNDEF) return Val();
    if ((f == "ldexp" || f == "scalbn" || f == "scalbln") && a.size() == 2) { int64_t k = (int64_t)concInt(a[1], 32, "an exponent"); k = sext((uint64_t)k, 32); return fop(Instruction::FMul, a[0], Val::D(std::ldexp(1.0, (int)k))); }
    bool conc = true; for (auto &x : a) conc &= x.k == Val::DBL;
    auto A = [&](int i) { return a[i].d; };
    if (conc) {
      if (f == "sqrt") return Val::D(std::sqrt(A(0)));
      if (f == "fabs") return Val::D(std::fabs(A(0)));
      if (f == "floor") return Val::D(std::floor(A(0)));
      if (f == "ceil") return Val::D(std::ceil(A(0)));
      if (f == "round") return Val::D(std::round(A(0)));
      if (f == "trunc") return Val::D(std::trunc(A(0)));
      if (f == "sin") return Val::D(std::sin(A(0)));
      if (f == "cos") return Val::D(std::cos(A(0)));
      if (f == "tan") return Val::D(std::tan(A(0)));
      if (f == "asin") return Val::D(std::asin(A(0)));
      if (f == "acos") return Val::D(std::acos(A(0)));
      if (f == "atan") return Val::D(std::atan(A(0)));
      if (f == "atan2") return Val::D(std::atan2(A(0), A(1)));
      if (f == "exp") return Val::D(std::exp(A(0)));
      if (f == "log") return Val::D(std::log(A(0)));
      if (f == "pow") return Val::D(std::pow(A(0), A(1)));
      if (f == "fmod") return Val::D(std::fmod(A(0), A(1)));
      if (f == "fmin") return Val::D(std::fmin(A(0), A(1)));
      if (f == "fmax") return Val::D(std::fmax(A(0), A(1)));
      if (f == "hypot") return Val::D(std::hypot(A(0), A(1)));
      if (f == "exp2") return Val::D(std::exp2(A(0)));
      if (f == "exp10") return Val::D(std::pow(10.0, A(0)));
      if (f == "log2") return Val::D(std::log2(A(0)));
      if (f == "log10") return Val::D(std::log10(A(0)));
      if (f == "cbrt") return Val::D(std::cbrt(A(0)));
      if (f == "nearbyint" || f == "rint" || f == "roundeven") return Val::D(std::nearbyint(A(0)));
      if (f == "remainder") return Val::D(std::remainder(A(0), A(1)));
      if (f == "fdim") return Val::D(std::fdim(A(0), A(1)));
      if (f == "sinh") return Val::D(std::sinh(A(0)));
      if (f == "cosh") return Val::D(std::cosh(A(0)));
      if (f == "tanh") return Val::D(std::tanh(A(0)));
      if (f == "fma") return Val::D(std::fma(A(0), A(1), A(2)));
      if (f == "copysign") return Val::D(std::copysign(A(0), A(1)));
      limit("math function " + f);
    }
    for (auto &x : a) if (x.k == Val::DBL && std::isnan(x.d)) return Val::D(NAN);
    if (f == "fma") return fop(Instruction::FAdd, fop(Instruction::FMul, a[0], a[1]), a[2]);
    if (f == "copysign") { bool neg; if (a[1].k == Val::DBL) neg = std::signbit(a[1].d); else neg = decide(mkRatSign(a[1].rat(), 1)); Val m = mathFn("fabs", {a[0]}); return neg ? (m.k == Val::DBL ? Val::D(-m.d) : mkReal(rneg(m.rat()))) : m; }
    if (f == "fdim") { Val c = fcmp(CmpInst::FCMP_OGT, a[0], a[1]); return decide(boolOf(c)) ? fop(Instruction::FSub, a[0], a[1]) : Val::D(0); }
    if (f == "fabs") { if (decide(mkRatSign(a[0].rat(), 6))) return a[0]; return mkReal(rneg(a[0].rat())); }
    if (f == "floor") { return mkReal(rconst(floorOf(a[0].rat()))); }
    if (f == "ceil") { return mkReal(rconst(Q(-floorOf(rneg(a[0].rat()))))); }
    if (f == "trunc") { if (decide(mkRatSign(a[0].rat(), 6))) return mkReal(rconst(floorOf(a[0].rat()))); return mkReal(rconst(Q(-floorOf(rneg(a[0].rat()))))); }
    if (f == "round") { Rat h = rconst(Q(1, 2)); if (decide(mkRatSign(a[0].rat(), 6))) return mkReal(rconst(floorOf(radd(a[0].rat(), h, 1)))); return mkReal(rconst(Q(-floorOf(radd(rneg(a[0].rat()), h, 1))))); }
    if (f == "nearbyint" || f == "rint" || f == "roundeven") { // half to even
      Rat y = radd(a[0].rat(), rconst(Q(1, 2)), 1); Q k = floorOf(y); if (k.get_num() % 2 != 0 && decide(mkRatSign(radd(y, rconst(k), -1), 2))) k -= 1; return mkReal(rconst(k));
    }
    if (f == "fmod") return fop(Instruction::FRem, a[0], a[1]);
    if (f == "fmin" || f == "fmax") { Val c = fcmp(CmpInst::FCMP_OLT, a[0], a[1]); bool lt = decide(boolOf(c)); return (lt == (f == "fmin")) ? a[0] : a[1]; }
    if (f == "pow") {
      if (a[1].k == Val::DBL && a[1].d == std::floor(a[1].d) && a[1].d >= 0 && a[1].d <= 8) { Rat r = rconst(1.0); for (int i = 0; i < (int)a[1].d; ++i) r = rmul(r, a[0].rat()); return mkReal(r); }
      if (a[1].k == Val::DBL && a[1].d == std::floor(a[1].d) && a[1].d < 0 && a[1].d >= -8) return fop(Instruction::FDiv, Val::D(1), mathFn("pow", {a[0], Val::D(-a[1].d)}));
      if (a[1].k == Val::DBL && a[1].d > 0 && a[1].d <= 4 && a[1].d * 2 == std::floor(a[1].d * 2)) return fop(Instruction::FMul, mathFn("sqrt", {a[0]}), mathFn("pow", {a[0], Val::D(a[1].d - 0.5)}));
      if (a[1].k == Val::DBL && a[1].d == 0.5) return mathFn("sqrt", {a[0]});
      limit("pow with symbolic exponent");
    }
    if (f == "hypot") { Val s = fop(Instruction::FAdd, fop(Instruction::FMul, a[0], a[0]), fop(Instruction::FMul, a[1], a[1])); return mathFn("sqrt", {s}); }
    if (f == "sqrt") {
      const Rat &r = a[0].rat();
      if (decide(mkRatSign(r, 1))) return Val::D(NAN);
      if (rIsConst(r)) { // exact rational square root when there is one
        Q q = r.n.constVal(); mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
        if (n * n == q.get_num() && d * d == q.get_den()) return mkReal(rconst(Q(n) / Q(d)));
      }
      { Poly sn, sd; if (polySqrt(r.n, sn) && polySqrt(r.d, sd)) return mathFn("fabs", {mkReal(mkRat(sn, sd))}); }
      if (decide(mkAtom(r.n, 2))) return Val::D(0);
      for (auto &t : st->trig) if (t.fn == 1 && t.arg.n == r.n && t.arg.d == r.d) return varVal(t.v);
      double ap = approx(r);
      int v = newVar("aux", true, Q(0), false, Q(0), false, Q(std::sqrt(std::max(0.0, ap)))); st->trig.push_back({1, r, v});
      if (st->w.r[v] * st->w.r[v] != Q(ap)) st->w.exact = false; else { Q dd = evalPoly(r.d, st->w.r); if (dd == 0 || evalPoly(r.n, st->w.r) / dd != st->w.r[v] * st->w.r[v]) st->w.exact = false; }
      Poly x = Poly::var(v);
      addPC(mkAtom(x * x * r.d - r.n, 2)); addFact(mkAtom(x, 4)); st->pc.push_back(mkAtom(x, 4));
      return varVal(v);
    }
    if (f == "sin" || f == "cos" || f == "tan") {
      const Rat &r = a[0].rat(); bool fr; double ap = approx(r);
      if (f != "tan") for (size_t q = 0; q < st->trig.size(); ++q) { // sine and cosine of the result of an inverse function
        auto t = st->trig[q]; if (t.fn < 5 || t.fn > 7 || !(r.d == Poly(Q(1))) || !(r.n == Poly::var(t.v))) continue;
        if (t.fn == 7) { Rat y = t.arg, x = t.arg2; Val h = mathFn("sqrt", {mkReal(radd(rmul(x, x), rmul(y, y), 1))}); if (h.k == Val::DBL && h.d == 0) return Val::D(f == "sin" ? 0 : 1); return fop(Instruction::FDiv, mkReal(f == "sin" ? y : x), h); }
        if ((t.fn == 5) == (f == "sin")) return mkReal(t.arg);
        return mathFn("sqrt", {mkReal(radd(rconst(1.0), rmul(t.arg, t.arg), -1))});
      }
      Val s = memoVar(2, r, -1, 1, std::sin(ap), fr); bool fr2; Val c = memoVar(3, r, -1, 1, std::cos(ap), fr2);
      if (fr) { Rat e = radd(rmul(toRat(s), toRat(s)), rmul(toRat(c), toRat(c)), 1); e = radd(e, rconst(1.0), -1); addPC(mkAtom(e.n, 2)); }
      if (f == "sin") return s;
      if (f == "cos") return c;
      return fop(Instruction::FDiv, s, c);
    }
    const double PI = M_PI;
    if (f == "atan") { bool fr; const Rat &r = a[0].rat(); Val v = memoVar(4, r, -PI / 2, PI / 2, std::atan(approx(r)), fr);
      if (fr) addPC(cOr(cOr(cAnd(mkRatSign(r, 4), mkRatSign(toRat(v), 4)), cAnd(mkRatSign(r, 1), mkRatSign(toRat(v), 1))), cAnd(mkRatSign(r, 2), mkRatSign(toRat(v), 2)))); return v; }
    if (f == "asin" || f == "acos") {
      const Rat &r = a[0].rat(); bool fr;
      if (decide(cOr(mkRatSign(radd(r, rconst(1.0), -1), 4), mkRatSign(radd(r, rconst(1.0), 1), 1)))) return Val::D(NAN);
      double ap = std::min(1.0, std::max(-1.0, approx(r)));
      if (f == "asin") return memoVar(5, r, -PI / 2, PI / 2, std::asin(ap), fr);
      return memoVar(6, r, 0, PI, std::acos(ap), fr);
    }
    if (f == "atan2") {
      Rat y = toRat(a[0]), x = toRat(a[1]); Rat key = radd(rmul(y, rconst(Q("104729/7"))), x, 1); bool fr;
      for (auto &t : st->trig) if (t.fn == 7 && t.arg.n == y.n && t.arg.d == y.d && t.arg2.n == x.n && t.arg2.d == x.d) return varVal(t.v);
      Val v = memoVar(8, key, -PI, PI, std::atan2(approx(y), approx(x)), fr);
      auto &t = st->trig.back(); t.fn = 7; t.arg = y; t.arg2 = x;
      return v;
    }
    limit("symbolic " + f);
  }
  // ---------------------------------------------------------- LAPACK dgels contract
  static Rat det(const std::vector<std::vector<Rat>> &m) {
    size_t n = m.size();
    if (n == 0) return rconst(1.0);
    if (n == 1) return m[0][0];
    if (n == 2) return radd(rmul(m[0][0], m[1][1]), rmul(m[0][1], m[1][0]), -1);
    Rat d = rconst(0.0);
    for (size_t j = 0; j < n; ++j) {
      if (m[0][j].n.isZero()) continue;
      std::vector<std::vector<Rat>> s;
      for (size_t i = 1; i < n; ++i) { std::vector<Rat> row; for (size_t k = 0; k < n; ++k) if (k != j) row.push_back(m[i][k]); s.push_back(row); }
      d = radd(d, rmul(m[0][j], det(s)), j % 2 ? -1 : 1);
    }
    return d;
  }
  void dgels(const std::vector<Val> &a) {
    auto ld32 = [&](int i) { return (int)(int32_t)concInt(load(a[i].i, 4, 32, false), 32, "a LAPACK argument"); };
    char tr = (char)concInt(load(a[0].i, 1, 8, false), 8, "a LAPACK argument");
    int m = ld32(1), n = ld32(2), nrhs = ld32(3), lda = ld32(5), ldb = ld32(7), lwork = ld32(9);
    int mn = std::min(m, n), info = 0;
    if (tr != 'N' && tr != 'T' && tr != 'n' && tr != 't') info = -1;
    else if (m < 0) info = -2; else if (n < 0) info = -3; else if (nrhs < 0) info = -4;
    else if (lda < std::max(1, m)) info = -6;
    else if (ldb < std::max(1, std::max(m, n))) info = -8;
    else if (lwork != -1 && lwork < std::max(1, mn + std::max(mn, nrhs))) info = -10;
    if (info) { store(a[10].i, 4, Val::I(zext((uint64_t)info, 32))); return; }
    if (lwork == -1) limit("dgels workspace query");
    uint64_t pa = a[4].i, pb = a[6].i;
    std::vector<std::vector<Val>> A(m, std::vector<Val>(n)); // A[i][j]
    bool conc = true, undef = false;
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { A[i][j] = load(pa + 8 * (j * (uint64_t)lda + i), 8, 64, true); }
    int rows = (tr == 'N' || tr == 'n') ? m : n, cols = (tr == 'N' || tr == 'n') ? n : m;
    int nb = std::max(m, n);
    std::vector<Val> B(nb);
    for (int i = 0; i < nb; ++i) { Val v = load(pb + 8 * i, 8, 64, true); if (i < rows) B[i] = v; else B[i] = Val::D(0); }
    access(a[8].i, 8 * (uint64_t)lwork, "LAPACK workspace");
    for (auto &r : A) for (auto &v : r) { if (v.k == Val::INT) { double d; memcpy(&d, &v.i, 8); v = Val::D(d); } if (v.k == Val::UNDEF) undef = true; if (v.k != Val::DBL) conc = false; }
    for (auto &v : B) { if (v.k == Val::INT) { double d; memcpy(&d, &v.i, 8); v = Val::D(d); } if (v.k == Val::UNDEF) undef = true; if (v.k != Val::DBL) conc = false; }
    if (undef) violation("uninit", "undefined value passed to the linear solver");
    if (conc) {
      std::vector<double> ca((size_t)lda * std::max(1, n)), cb((size_t)ldb), cw(lwork);
      for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) ca[(size_t)j * lda + i] = A[i][j].d;
      for (int i = 0; i < nb; ++i) cb[i] = B[i].d;
      int one = 1; dgels_(&tr, &m, &n, &one, ca.data(), &lda, cb.data(), &ldb, cw.data(), &lwork, &info);
      for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) store(pa + 8 * (j * (uint64_t)lda + i), 8, Val::D(ca[(size_t)j * lda + i]));
      for (int i = 0; i < nb; ++i) store(pb + 8 * i, 8, Val::D(cb[i]));
      store(a[10].i, 4, Val::I(zext((uint64_t)info, 32)));
      return;
    }
    for (auto &r : A) for (auto &v : r) if (v.k == Val::DBL && !std::isfinite(v.d)) limit("linear solve with non-finite data");
    for (auto &v : B) if (v.k == Val::DBL && !std::isfinite(v.d)) limit("linear solve with non-finite data");
    std::vector<std::vector<Rat>> M(rows, std::vector<Rat>(cols)); std::vector<Rat> rhs(rows);
    for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) M[i][j] = toRat((tr == 'N' || tr == 'n') ? A[i][j] : A[j][i]); rhs[i] = toRat(B[i]); }
    std::vector<std::vector<Rat>> S; std::vector<Rat> r2; int k = std::min(rows, cols);
    if (rows == cols) { S = M; r2 = rhs; }
    else if (rows > cols) { // least squares
      S.assign(k, std::vector<Rat>(k)); r2.assign(k, rconst(0.0));
      for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) { Rat s = rconst(0.0); for (int q = 0; q < rows; ++q) s = radd(s, rmul(M[q][i], M[q][j]), 1); S[i][j] = s; } for (int q = 0; q < rows; ++q) r2[i] = radd(r2[i], rmul(M[q][i], rhs[q]), 1); }
    } else { // minimum norm
      S.assign(k, std::vector<Rat>(k)); r2 = rhs;
      for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { Rat s = rconst(0.0); for (int q = 0; q < cols; ++q) s = radd(s, rmul(M[i][q], M[j][q]), 1); S[i][j] = s; }
    }
    Rat D = det(S);
    bool sing = D.n.isZero() || (!rIsConst(D) && decide(mkAtom(D.n, 2)));
    std::vector<Val> X;
    if (sing) {
      info = 1;
      Val fr; fr.k = Val::FRESH;
      // rounding can hide the singularity: any solution of the equations, or a huge one, may come back
      int adv = gParams.count("dgels_adv") && gParams["dgels_adv"] ? (int)chooseN(0, 2) : 0;
      if (!adv) for (int i = 0; i < cols; ++i) X.push_back(fr);
      else {
        info = 0; std::vector<Rat> xs;
        for (int i = 0; i < cols; ++i) { X.push_back(varVal(newVar("aux", true, Q(-1e12), true, Q(1e12), false, Q(12345 + 17 * i)))); xs.push_back(toRat(X.back())); }
        if (adv == 1) for (int i = 0; i < rows; ++i) { Rat s2 = rneg(rhs[i]); for (int j = 0; j < cols; ++j) s2 = radd(s2, rmul(M[i][j], xs[j]), 1); doAssume(mkBool(mkRatSign(s2, 2))); }
        else { Rat q = rconst(0.0); for (auto &x : xs) q = radd(q, rmul(x, x), 1); doAssume(mkBool(mkRatSign(radd(q, rconst(1e12), -1), 6))); }
        st->w.exact = false;
      }
    } else {
      std::vector<Rat> y(k);
      for (int i = 0; i < k; ++i) { auto T = S; for (int q = 0; q < k; ++q) T[q][i] = r2[q]; y[i] = rdiv(det(T), D); }
      if (rows >= cols) for (int i = 0; i < cols; ++i) X.push_back(mkReal(y[i]));
      else for (int j = 0; j < cols; ++j) { Rat s = rconst(0.0); for (int i = 0; i < k; ++i) s = radd(s, rmul(M[i][j], y[i]), 1); X.push_back(mkReal(s)); }
    }
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) store(pa + 8 * (j * (uint64_t)lda + i), 8, Val());
    for (int i = 0; i < nb; ++i) store(pb + 8 * i, 8, i < cols ? X[i] : Val());
    store(a[10].i, 4, Val::I(zext((uint64_t)info, 32)));
  }
#include "exec.inc"
};

#include "load.inc"

bool Exec::isStubNameS(const std::string &n) { return isStubName(n); }
static void worker() {
  Exec ex;
  while (true) {
    {
      std::unique_lock<std::mutex> lk(gMx);
      while (gQueue.empty() && gActive > 0 && !gStop) gCv.wait(lk);
      if (gQueue.empty() || gStop) { gCv.notify_all(); break; }
      ex.st = std::move(gQueue.back()); gQueue.pop_back(); gActive++;
    }
    ex.run();
    {
      std::lock_guard<std::mutex> lk(gMx); gActive--;
      if (elapsed() > gTimeBudget || nCompleted + nKilled + nViolPaths + nLimit > gMaxPaths) gStop = true;
      gCv.notify_all();
    }
  }
  std::lock_guard<std::mutex> lk(gMx);
  for (int f : ex.usedFns) P.used.insert(P.fns[f].name);
}
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void jmodel(FILE *f, const ModelOut &m) { fprintf(f, "{"); for (size_t i = 0; i < m.kv.size(); ++i) fprintf(f, "%s\"%s\":\"%s\"", i ? "," : "", jesc(m.kv[i].first).c_str(), m.kv[i].second.c_str()); fprintf(f, "}"); }

int main(int argc, char **argv) {
  std::string bc, entry = "sg_main", out, model; bool dump = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--time") gTimeBudget = std::stod(nx());
    else if (a == "--threads") gThreads = std::stoi(nx());
    else if (a == "--branch-timeout") gBranchTimeout = std::stoi(nx());
    else if (a == "--assert-timeout") gAssertTimeout = std::stoi(nx());
    else if (a == "--max-paths") gMaxPaths = std::stol(nx());
    else if (a == "--max-instr") gMaxInstr = std::stoull(nx());
    else if (a == "--samples") gMaxSamples = std::stoul(nx());
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); gParams[p.substr(0, e)] = std::stol(p.substr(e + 1)); }
    else if (a == "-v") gVerbose = true;
    else if (a == "--dump") dump = true;
    else if (a == "--no-nlsat") gNlsatFirst = false;
    else bc = a;
  }
  gStart = std::chrono::steady_clock::now();
  LLVMContext C; SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(bc, err, C);
  if (!M) { err.print("sgsym", errs()); return 2; }
  prepareModule(*M);
  if (dump) { M->print(outs(), nullptr); return 0; }
  decodeModule(*M);
  double tPrep = elapsed();
  {
    SP s(new State());
    Exec ex; ex.st = std::move(s);
    initGlobals(*M, ex);
    int e = -1; for (size_t i = 0; i < P.fns.size(); ++i) if (P.fns[i].name == entry) e = (int)i;
    if (e < 0 || !P.fns[e].defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    ex.enter(e, {}, -1);
    // static constructors run first (pushed above the entry frame)
    pushCtors(*M, ex);
    gQueue.push_back(std::move(ex.st));
  }
  auto writeOut = [&]() {
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"complete\":%s,\"pending\":%zu,\"wall_s\":%.3f,\"prep_s\":%.3f,\n", entry.c_str(), gQueue.empty() && nLimit == 0 && nAssertUnknown == 0 ? "true" : "false", gQueue.size(), elapsed(), tPrep);
  fprintf(f, "\"paths\":{\"completed\":%ld,\"assumed_away\":%ld,\"violating\":%ld,\"limit\":%ld},\n", nCompleted.load(), nKilled.load(), nViolPaths.load(), nLimit.load());
  fprintf(f, "\"forks\":%ld,\"decisions\":%ld,\"forced_by_solver\":%ld,\"unknown_branches\":%ld,\"instructions\":%lu,\"div_by_zero\":%ld,\n", nForks.load(), nDecisions.load(), nSolverForced.load(), nUnknownBranch.load(), (unsigned long)nInstr.load(), nDivZero.load());
  fprintf(f, "\"asserts\":{\"checked\":%ld,\"proved\":%ld,\"concrete\":%ld,\"unknown\":%ld},\n", nAsserts.load(), nAssertProved.load(), nConcrAssert.load(), nAssertUnknown.load());
  fprintf(f, "\"solver\":{\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"linear\":%lu,\"nonlinear\":%lu,\"bitvector\":%lu,\"seconds\":%.3f,\"max_ms\":%.1f},\n", (unsigned long)gStats.queries, (unsigned long)gStats.sat, (unsigned long)gStats.unsat, (unsigned long)gStats.unknown, (unsigned long)gStats.lin, (unsigned long)gStats.nonlin, (unsigned long)gStats.bv, gStats.micros / 1e6, gStats.maxMicros / 1e3);
  auto jmap = [&](const char *n, const std::map<std::string, long> &m) { fprintf(f, "\"%s\":{", n); bool c = false; for (auto &x : m) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", jesc(x.first).c_str(), x.second); c = true; } fprintf(f, "},\n"); };
  jmap("reach", gReach); jmap("assert_sites", gAssertMsgs); jmap("limits", gLimits);
  fprintf(f, "\"violations\":[");
  for (size_t i = 0; i < gViol.size(); ++i) {
    fprintf(f, "%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"models\":[", i ? "," : "", jesc(gViol[i].kind).c_str(), jesc(gViol[i].msg).c_str(), jesc(gViol[i].where).c_str());
    for (size_t j = 0; j < gViol[i].models.size(); ++j) { if (j) fprintf(f, ","); jmodel(f, gViol[i].models[j]); }
    fprintf(f, "]}");
  }
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < gSamples.size(); ++i) {
    fprintf(f, "%s\n{\"model\":", i ? "," : ""); jmodel(f, gSamples[i].m); fprintf(f, ",\"outs\":[");
    for (size_t j = 0; j < gSamples[i].outs.size(); ++j) fprintf(f, "%s[\"%s\",\"%.17g\"]", j ? "," : "", gSamples[i].outs[j].first.c_str(), gSamples[i].outs[j].second);
    fprintf(f, "]}");
  }
  fprintf(f, "],\n\"functions\":[");
  { bool c = false; for (auto &n : P.used) { std::string d = llvm::demangle(n); fprintf(f, "%s\"%s\"", c ? "," : "", jesc(d).c_str()); c = true; } }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
  };
  std::thread([&]() {
    double soft = gTimeBudget * 1.1 + 2, hard = gTimeBudget * 1.3 + 10;
    while (true) {
      std::this_thread::sleep_for(std::chrono::milliseconds(200));
      if (elapsed() > soft) { gStop = true; gHardStop = true; gCv.notify_all(); }
      if (elapsed() > hard) { gMx.lock(); gLimits["hard stop at the time budget"]++; nLimit++; writeOut(); fflush(nullptr); _exit(0); }
    }
  }).detach();
  std::vector<std::thread> th;
  for (int i = 0; i < gThreads; ++i) th.emplace_back(worker);
  for (auto &t : th) t.join();
  gMx.lock(); writeOut();
  fflush(nullptr);
  _exit(0);
}
