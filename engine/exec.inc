// interpreter loop and library contracts (inside struct Exec)
void enter(int f, const std::vector<Val> &args, int retDst) {
  Frame fr; fr.fn = f; fr.blk = 0; fr.pc = 0; fr.retDst = retDst; fr.stackMark = st->stack.size(); fr.r.resize(P.fns[f].nregs);
  for (size_t i = 0; i < args.size() && (int)i < P.fns[f].nargs; ++i) fr.r[i] = args[i];
  usedFns.insert(f);
  if (st->fr.size() > 3000) limit("recursion depth");
  st->fr.push_back(std::move(fr));
}
void jump(int to) {
  Frame &f = st->fr.back(); int from = f.blk; Block &b = P.fns[f.fn].blocks[to];
  if (!b.phis.empty()) {
    int pi = b.predIdx[from]; 
    if (b.phis.size() == 1) { Val v = op(b.phis[0].second[pi]); f.r[b.phis[0].first] = v; }
    else { std::vector<Val> vs; vs.reserve(b.phis.size()); for (auto &p : b.phis) vs.push_back(op(p.second[pi])); for (size_t i = 0; i < vs.size(); ++i) f.r[b.phis[i].first] = vs[i]; }
  }
  f.blk = to; f.pc = 0;
}
// continue with the handler (or cleanup) of exception e that is nearest
int landingOf(const Frame &f, uint64_t e, bool cleanups, uint64_t &sel) {
  if (f.blk < 0) return -1;
  const Block &b = P.fns[f.fn].blocks[f.blk]; if (f.pc >= (int)b.ins.size()) return -1;
  const Ins &in = b.ins[f.pc]; if (in.op != Instruction::Invoke || !in.I) return -1;
  auto *lp = cast<InvokeInst>(in.I)->getLandingPadInst(); sel = 0;
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    if (!lp->isCatch(i)) continue;
    bool ok = true; uint64_t h = constAddr(lp->getClause(i), ok);
    if (ok && typeMatches(st->excs[e].ti, h)) { sel = h ? h : 1; return (int)in.s[1]; }
  }
  return cleanups && lp->isCleanup() ? (int)in.s[1] : -1;
}
void unwind(uint64_t e, size_t top) { // top: frames above it have been left
  uint64_t sel; bool found = false;
  for (size_t i = top; i-- > 0 && !found;) found = st->fr[i].retDst != -3 && landingOf(st->fr[i], e, false, sel) >= 0;
  if (!found) { auto it = gAddrGlob.find(st->excs[e].ti); violation("exception", "exception thrown and not handled" + (it == gAddrGlob.end() ? std::string() : ": " + it->second->getName().str())); }
  while (st->fr.size() > top) dropFrame();
  while (true) {
    int to = landingOf(st->fr.back(), e, true, sel);
    if (to >= 0) { st->landing = e; st->landingSel = sel; jump(to); return; }
    dropFrame();
  }
}
void dropFrame() {
  Frame &f = st->fr.back();
  while (st->stack.size() > f.stackMark) st->stack.pop_back();
  if (!st->stack.empty()) st->stackTop = st->stack.back().base + ((st->stack.back().size + 15) & ~15ULL) + 64; else st->stackTop = STACK_BASE;
  st->fr.pop_back();
}
// the functions of the C++ ABI that do not just return; false: another function
bool ehCall(const std::string &n, const std::vector<Val> &a, const Ins &in) {
  if (n.compare(0, 6, "__cxa_")) return false;
  if (n == "__cxa_throw") { uint64_t e = concInt(a[0], 64, "an exception"); Exc x; x.ti = concInt(a[1], 64, "a type"); x.dtor = concInt(a[2], 64, "a destructor"); st->excs[e] = x; unwind(e, st->fr.size()); return true; }
  if (n == "__cxa_rethrow") { if (st->caught.empty()) violation("exception", "throw without an exception being handled"); uint64_t e = st->caught.back(); st->excs[e].again = true; unwind(e, st->fr.size()); return true; }
  if (n == "__cxa_end_catch") {
    uint64_t e = st->caught.back(); st->caught.pop_back(); Exc &x = st->excs[e]; x.handlers--;
    if (in.op == Instruction::Invoke) jump((int)in.s[0]); else st->fr.back().pc++;
    if (x.handlers <= 0) {
      if (x.again) x.again = false;
      else {
        uint64_t d = x.dtor; st->excs.erase(e);
        if (d >= FN_BASE && (d - FN_BASE) / 16 < P.fns.size() && P.fns[(d - FN_BASE) / 16].defined) { st->dying.push_back(e); enter((int)((d - FN_BASE) / 16), {Val::I(e)}, -3); }
        else freeHeap(e, 2);
      }
    }
    return true;
  }
  return false;
}
void ret(const Val &v) {
  Frame &f = st->fr.back(); int dst = f.retDst;
  while (st->stack.size() > f.stackMark) st->stack.pop_back();
  if (!st->stack.empty()) st->stackTop = st->stack.back().base + ((st->stack.back().size + 15) & ~15ULL) + 64; else st->stackTop = STACK_BASE;
  st->fr.pop_back();
  if (st->fr.empty()) throw PathEnd{0, "done"};
  Frame &c = st->fr.back();
  if (dst == -3) { freeHeap(st->dying.back(), 2); st->dying.pop_back(); return; } // the destructor of an exception
  if (dst == -2) { if (st->fr.size() == 1) st->liveHeap = 0; return; } // a static constructor: the entry function has not begun
  if (c.blk < 0) return;
  if (dst >= 0) c.r[dst] = v;
  const Ins &in = P.fns[c.fn].blocks[c.blk].ins[c.pc]; // the call: the result is set before the phis of the next block read it
  if (in.op == Instruction::Invoke) jump((int)in.s[0]); else c.pc++;
}
// after a call instruction has been executed the caller continues here
void run() {
  try {
    while (true) step();
  } catch (PathEnd &e) {
    finish(e);
  } catch (EngineLimit &e) {
    finish(PathEnd{3, e.what});
  }
  nInstr += st->ninstr;
  st.reset();
}
void finish(const PathEnd &e) {
  if (gVerbose && e.why == 3) fprintf(stderr, "LIMIT %s @ %s\n", e.msg.c_str(), where().c_str());
  switch (e.why) {
  case 0: {
    nCompleted++;
    if (st->hasW) {
      bool need; { std::lock_guard<std::mutex> g(gMx); need = gSamples.size() < gMaxSamples || (nCompleted % 97 == 0 && gSamples.size() < 4 * gMaxSamples); }
      if (need) {
        Model m = st->w; roundModel(m, cT()); PathSample s; s.m = modelOut(m); bool ok = true;
        for (auto &o : st->outs) {
          double d = 0;
          if (o.second.k == Val::DBL) d = o.second.d;
          else if (o.second.k == Val::SREAL) { Q dd = evalPoly(o.second.rat().d, m.r); if (dd == 0) { ok = false; break; } d = Q(evalPoly(o.second.rat().n, m.r) / dd).get_d(); }
          else { ok = false; break; }
          s.outs.push_back({o.first, d});
        }
        if (ok) { std::lock_guard<std::mutex> g(gMx); gSamples.push_back(s); }
      }
    }
    break;
  }
  case 1: nKilled++; break;
  case 2: nViolPaths++; break;
  default: { nLimit++; std::lock_guard<std::mutex> g(gMx); gLimits[gVerbose && st ? e.msg + " @ " + where() : e.msg]++; }
  }
}
void step() {
  Frame &f = st->fr.back(); const Ins &in = P.fns[f.fn].blocks[f.blk].ins[f.pc];
  if (++st->ninstr > gMaxInstr) limit("instruction limit");
  if ((st->ninstr & 0xffff) == 0 && elapsed() > gTimeBudget * 1.15 + 5) limit("time budget");
  logPos = 0;
  if (st->log.empty() && !st->newPins.empty()) mergePins();
  size_t depth = st->fr.size();
  exec1(in);
  st->log.clear();
  (void)depth;
}
void setr(const Ins &in, const Val &v) { if (in.dst >= 0) reg(in.dst) = v; }
void exec1(const Ins &in) {
  switch (in.op) {
  case Instruction::Ret: { Val v; if (!in.o.empty()) v = op(in.o[0]); ret(v); return; }
  case Instruction::Br: {
    if (in.o.empty()) { jump((int)in.s[0]); return; }
    const Val &c = op(in.o[0]);
    bool b = c.k == Val::INT ? (c.i & 1) : decide(boolOf(c));
    jump((int)(b ? in.s[0] : in.s[1])); return;
  }
  case Instruction::Switch: {
    const Val &c = op(in.o[0]);
    if (c.k == Val::SINT) {
      BP b = c.bv();
      for (size_t i = 1; i + 1 < in.s.size(); i += 2) if (decide(bcmp(C_EQ, b, bconst(in.s[i], b->w), false))) { jump((int)in.s[i + 1]); return; }
      jump((int)in.s[0]); return;
    }
    uint64_t v = concInt(c, in.w, "a switch condition");
    for (size_t i = 1; i + 1 < in.s.size(); i += 2) if ((uint64_t)in.s[i] == v) { jump((int)in.s[i + 1]); return; }
    jump((int)in.s[0]); return;
  }
  case Instruction::Unreachable: violation("unreachable", "execution reached code the compiler proved unreachable (undefined behaviour)");
  case Instruction::Alloca: { uint64_t n = concInt(op(in.o[0]), 64, "alloca size"); setr(in, Val::I(allocStack(n * in.k))); break; }
  case Instruction::Load: { uint64_t a = concInt(op(in.o[0]), 64, "an address"); Val v = load(a, (int)in.k, in.w, in.dbl); setr(in, v); break; }
  case Instruction::Store: { uint64_t a = concInt(op(in.o[1]), 64, "an address"); Val v = op(in.o[0]); store(a, (int)in.k, v); break; }
  case OP_AGGLOAD: {
    uint64_t a = concInt(op(in.o[0]), 64, "an address"); auto g = std::make_shared<Agg>();
    for (size_t i = 0; i + 3 < in.s.size(); i += 4) g->v.push_back(load(a + in.s[i], (int)in.s[i + 1], (uint16_t)in.s[i + 2], in.s[i + 3] != 0));
    Val r; r.k = Val::AGG; r.p = g; setr(in, r); break;
  }
  case OP_AGGSTORE: {
    uint64_t a = concInt(op(in.o[1]), 64, "an address"); Val v = op(in.o[0]); if (v.k != Val::AGG) break; const Agg &g = *(const Agg *)v.p.get();
    for (size_t i = 0, e = 0; i + 3 < in.s.size(); i += 4, ++e) store(a + in.s[i], (int)in.s[i + 1], e < g.v.size() ? g.v[e] : Val());
    break;
  }
  case Instruction::Fence: break;
  case Instruction::LandingPad: { auto g = std::make_shared<Agg>(); g->v = {Val::I(st->landing), Val::I(st->landingSel)}; Val r; r.k = Val::AGG; r.p = g; setr(in, r); break; }
  case Instruction::Resume: { Val x = op(in.o[0]); if (x.k != Val::AGG || ((const Agg *)x.p.get())->v[0].k != Val::INT) limit("resume"); uint64_t e = ((const Agg *)x.p.get())->v[0].i; dropFrame(); unwind(e, st->fr.size()); return; }
  case Instruction::AtomicCmpXchg: {
    auto *X = cast<AtomicCmpXchgInst>(in.I); uint64_t a = concInt(op(in.o[0]), 64, "an address"); int w = widthOf(X->getCompareOperand()->getType()), sz = (w + 7) / 8;
    Val old = load(a, sz, w, false), c = icmp(CmpInst::ICMP_EQ, w, old, op(in.o[1])); bool eq = decide(boolOf(c)); if (eq) store(a, sz, op(in.o[2]));
    auto g = std::make_shared<Agg>(); g->v = {old, Val::I(eq)}; Val r; r.k = Val::AGG; r.p = g; setr(in, r); break;
  }
  case Instruction::AtomicRMW: {
    auto *R = cast<AtomicRMWInst>(in.I); uint64_t a = concInt(op(in.o[0]), 64, "an address"); int w = in.w, sz = (w + 7) / 8; Val old = load(a, sz, in.w, false), x = op(in.o[1]), v;
    switch (R->getOperation()) {
    case AtomicRMWInst::Xchg: v = x; break;
    case AtomicRMWInst::Add: v = iop(Instruction::Add, w, old, x); break;
    case AtomicRMWInst::Sub: v = iop(Instruction::Sub, w, old, x); break;
    case AtomicRMWInst::And: v = iop(Instruction::And, w, old, x); break;
    case AtomicRMWInst::Or: v = iop(Instruction::Or, w, old, x); break;
    default: limit("atomic operation");
    }
    store(a, sz, v); setr(in, old); break;
  }
  case OP_GEP: { // an undefined operand makes the result undefined; only its use to access memory is an error
    bool und = false; for (int o : in.o) if (op(o).k == Val::UNDEF) und = true;
    if (und) { setr(in, Val()); break; }
    uint64_t a = concInt(op(in.o[0]), 64, "an address") + in.k;
    for (size_t i = 1; i < in.o.size(); ++i) { int w = (int)in.s[2 * (i - 1) + 1]; uint64_t x = concInt(op(in.o[i]), w, "an index"); a += (uint64_t)(sext(x, w) * in.s[2 * (i - 1)]); }
    setr(in, Val::I(a)); break;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val v = fop(in.op, op(in.o[0]), op(in.o[1])); setr(in, v); break; }
  case Instruction::FNeg: { Val a = op(in.o[0]); if (a.k == Val::DBL) setr(in, Val::D(-a.d)); else if (a.k == Val::SREAL) setr(in, mkReal(rneg(a.rat()))); else setr(in, Val()); break; }
  case Instruction::FCmp: { Val v = fcmp(in.pred, op(in.o[0]), op(in.o[1])); setr(in, v); break; }
  case Instruction::ICmp: { Val v = icmp(in.pred, in.w2, op(in.o[0]), op(in.o[1])); setr(in, v); break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { Val v = iop(in.op, in.w, op(in.o[0]), op(in.o[1])); setr(in, v); break; }
  case Instruction::Select: {
    const Val &c = op(in.o[0]); Val a = op(in.o[1]), b = op(in.o[2]);
    if (c.k == Val::INT) { setr(in, (c.i & 1) ? a : b); break; }
    if (c.k == Val::UNDEF) { setr(in, a.k == Val::INT && b.k == Val::INT && a.i == b.i ? a : Val()); break; }
    CP cc = boolOf(c, "select condition");
    auto isB = [&](const Val &v) { return v.k == Val::SBOOL || (v.k == Val::INT && v.i <= 1); };
    if (isB(a) && isB(b)) { CP x = boolOf(a), y = boolOf(b); setr(in, mkBool(cOr(cAnd(cc, x), cAnd(cNot(cc), y)))); break; }
    setr(in, decide(cc) ? a : b); break;
  }
  case Instruction::ZExt: { Val a = unpack(op(in.o[0])); if (a.k == Val::SINT) a = mkInt(bmk(B_ZEXT, in.w, a.bv(), nullptr)); setr(in, a); break; }
  case Instruction::SExt: {
    Val a = unpack(op(in.o[0]));
    if (a.k == Val::INT) a = Val::I(zext((uint64_t)sext(a.i, in.w2), in.w));
    else if (a.k == Val::SBOOL) { if (in.w2 == 1) a = decide(a.cond()) ? Val::I(zext(~0ULL, in.w)) : Val::I(0); }
    else if (a.k == Val::SINT) { auto n = std::make_shared<BVN>(*a.bv()); if (n->exact || n->op == B_VAR) { n->w = in.w; a = mkInt(n); } else a = Val::I(zext((uint64_t)sext((uint64_t)concretise(a.bv()), in.w2), in.w)); }
    setr(in, a); break;
  }
  case Instruction::Trunc: {
    Val a = unpack(op(in.o[0]));
    if (a.k == Val::INT) a = Val::I(zext(a.i, in.w));
    else if (a.k == Val::SINT) { if (in.w == 1) a = mkBool(cNot(bcmp(C_EQ, bmk(B_AND, a.bv()->w, a.bv(), bconst(1, a.bv()->w)), bconst(0, a.bv()->w), false))); else a = mkInt(bmk(B_TRUNC, in.w, a.bv(), nullptr)); }
    else if (a.k == Val::SREAL) limit("truncation of the bits of a symbolic double");
    setr(in, a); break;
  }
  case Instruction::SIToFP: case Instruction::UIToFP: {
    Val a = op(in.o[0]); if (a.k == Val::UNDEF) { setr(in, a); break; }
    uint64_t x = concInt(a, in.w2, "an integer conversion");
    setr(in, Val::D(in.op == Instruction::SIToFP ? (double)sext(x, in.w2) : (double)zext(x, in.w2))); break;
  }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    Val a = op(in.o[0]); if (a.k == Val::UNDEF) { setr(in, a); break; }
    if (a.k == Val::DBL) { int64_t r; if (std::isnan(a.d) || a.d >= 9.3e18 || a.d <= -9.3e18) r = INT64_MIN; else r = in.op == Instruction::FPToUI && a.d >= 9.2e18 ? (int64_t)(uint64_t)a.d : (int64_t)a.d; if (in.w == 32 && (r > INT32_MAX || r < INT32_MIN)) r = INT32_MIN; setr(in, Val::I(zext((uint64_t)r, in.w))); break; }
    Q q; if (decide(mkRatSign(a.rat(), 6))) q = floorOf(a.rat()); else q = -floorOf(rneg(a.rat()));
    setr(in, Val::I(zext((uint64_t)(int64_t)q.get_num().get_si(), in.w))); break;
  }
  case Instruction::BitCast: {
    Val a = op(in.o[0]);
    if (in.dbl && a.k == Val::INT) { double d; memcpy(&d, &a.i, 8); a = Val::D(d); }
    else if (!in.dbl && a.k == Val::DBL) { uint64_t x; memcpy(&x, &a.d, 8); a = Val::I(x); }
    setr(in, a); break;
  }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: { Val a = op(in.o[0]); if (in.op == Instruction::Freeze && a.k == Val::UNDEF) a = in.dbl ? Val::D(0) : Val::I(0); setr(in, a); break; }
  case Instruction::ExtractValue: { Val a = op(in.o[0]); for (auto x : in.s) { if (a.k != Val::AGG) { a = Val(); break; } Val t = ((const Agg *)a.p.get())->v[x]; a = t; } setr(in, a); break; }
  case Instruction::InsertValue: {
    Val a = op(in.o[0]); if (in.s.size() != 1) limit("nested insertvalue");
    auto g = std::make_shared<Agg>(); if (a.k == Val::AGG) *g = *(const Agg *)a.p.get(); if ((int64_t)g->v.size() <= in.s[0]) g->v.resize(in.s[0] + 1);
    g->v[in.s[0]] = op(in.o[1]); Val r; r.k = Val::AGG; r.p = g; setr(in, r); break;
  }
  case Instruction::Call: case Instruction::Invoke: call(in); return;
  default: limit(std::string("unsupported instruction ") + (in.I ? in.I->getOpcodeName() : "?"));
  }
  st->fr.back().pc++;
}
void call(const Ins &in) {
  int fn = in.fn; std::vector<Val> a; size_t na = in.o.size() - (fn < 0 ? 1 : 0);
  for (size_t i = 0; i < na; ++i) a.push_back(op(in.o[i]));
  if (fn < 0) { uint64_t t = concInt(op(in.o.back()), 64, "a call target"); if (t < FN_BASE || (t - FN_BASE) % 16 || (t - FN_BASE) / 16 >= P.fns.size()) violation("memory", "call through an invalid function pointer"); fn = (int)((t - FN_BASE) / 16); }
  const FuncInfo &fi = P.fns[fn];
  if (fi.defined) {
    enter(fn, a, in.dst);
    for (size_t i = 0; i + 1 < in.bv.size(); i += 2) { Val &p = st->fr.back().r[in.bv[i]]; if (p.k != Val::INT) limit("undefined or symbolic address of an argument"); uint64_t src = p.i, d = allocStack(in.bv[i + 1]); copyMem(d, src, in.bv[i + 1]); p = Val::I(d); }
    return;
  }
  if (ehCall(fi.name, a, in)) return;
  Val r = builtin(fi.name, a, in);
  setr(in, r);
  if (in.op == Instruction::Invoke) jump((int)in.s[0]); else st->fr.back().pc++;
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
Val builtin(const std::string &n, const std::vector<Val> &a, const Ins &in) {
  auto U = [&](size_t i) { return concInt(a[i], 64, "a library call argument"); };
  if (starts(n, "sg_")) return intrinsic(n, a);
  if (starts(n, "llvm.")) {
    if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) { copyMem(U(0), U(1), U(2)); return Val(); }
    if (starts(n, "llvm.memset")) { uint64_t d = U(0), v = U(1), c = U(2); for (uint64_t i = 0; i < c; ++i) store(d + i, 1, Val::I(v & 255)); return Val(); }
    if (starts(n, "llvm.lifetime") || starts(n, "llvm.dbg") || starts(n, "llvm.assume") || starts(n, "llvm.experimental.noalias") || starts(n, "llvm.invariant") || starts(n, "llvm.donothing") || starts(n, "llvm.stackrestore")) return Val();
    if (starts(n, "llvm.stacksave")) return Val::I(0);
    if (starts(n, "llvm.threadlocal.address")) return a[0];
    if (starts(n, "llvm.expect")) return a[0];
    if (starts(n, "llvm.eh.typeid.for")) return Val::I(U(0) ? U(0) : 1);
    if (starts(n, "llvm.is.constant")) return Val::I(0);
    if (starts(n, "llvm.objectsize")) return Val::I(~0ULL);
    if (starts(n, "llvm.trap") || starts(n, "llvm.ubsantrap")) violation("trap", "trap instruction reached");
    if (starts(n, "llvm.umax") || starts(n, "llvm.umin") || starts(n, "llvm.smax") || starts(n, "llvm.smin")) {
      bool mx = n[6] == 'a' || n.substr(6, 2) == "ax"; mx = n.find("max") != std::string::npos; bool s = n[5] == 's'; int w = in.w;
      Val c = icmp(s ? CmpInst::ICMP_SGT : CmpInst::ICMP_UGT, w, a[0], a[1]); if (c.k == Val::UNDEF) return Val();
      bool gt = decide(boolOf(c)); return (gt == mx) ? a[0] : a[1];
    }
    if (starts(n, "llvm.abs")) { Val c = icmp(CmpInst::ICMP_SLT, in.w, a[0], Val::I(0)); if (c.k == Val::UNDEF) return Val(); return decide(boolOf(c)) ? iop(Instruction::Sub, in.w, Val::I(0), a[0]) : a[0]; }
    if (starts(n, "llvm.ctlz")) { uint64_t x = concInt(a[0], in.w, "ctlz"); int c = 0; for (int b = in.w - 1; b >= 0 && !((x >> b) & 1); --b) c++; return Val::I(c); }
    if (starts(n, "llvm.cttz")) { uint64_t x = concInt(a[0], in.w, "cttz"); int c = 0; for (int b = 0; b < in.w && !((x >> b) & 1); ++b) c++; return Val::I(c); }
    if (starts(n, "llvm.ctpop")) { uint64_t x = concInt(a[0], in.w, "ctpop"); return Val::I(__builtin_popcountll(x)); }
    if (starts(n, "llvm.usub.sat")) { Val c = icmp(CmpInst::ICMP_UGT, in.w, a[0], a[1]); if (c.k == Val::UNDEF) return Val(); return decide(boolOf(c)) ? iop(Instruction::Sub, in.w, a[0], a[1]) : Val::I(0); }
    if (starts(n, "llvm.umul.with.overflow")) { uint64_t x = U(0), y = U(1); auto g = std::make_shared<Agg>(); unsigned __int128 p = (unsigned __int128)x * y; g->v = {Val::I((uint64_t)p), Val::I(p >> 64 ? 1 : 0)}; Val r; r.k = Val::AGG; r.p = g; return r; }
    if (starts(n, "llvm.fmuladd") || starts(n, "llvm.fma.")) return fop(Instruction::FAdd, fop(Instruction::FMul, a[0], a[1]), a[2]);
    if (starts(n, "llvm.fshl")) { uint64_t x = U(0), y = U(1), s = U(2) % in.w; if (!s) return Val::I(x); return Val::I(zext((x << s) | (zext(y, in.w) >> (in.w - s)), in.w)); }
    static const char *mf[] = {"sqrt", "fabs", "floor", "ceil", "round", "trunc", "sin", "cos", "tan", "exp2", "exp10", "exp", "log2", "log10", "log", "pow", "copysign", "nearbyint", "rint", "ldexp", "roundeven"};
    for (auto m : mf) if (starts(n, (std::string("llvm.") + m + ".").c_str())) return mathFn(m, a);
    if (starts(n, "llvm.minnum")) return mathFn("fmin", a);
    if (starts(n, "llvm.maxnum")) return mathFn("fmax", a);
    if (starts(n, "llvm.is.fpclass")) { if (a[0].k == Val::SREAL) { uint64_t m = U(1); return Val::I((m & 0x3) && !(m & ~0x3ULL) ? 0 : (m & 0x207) && !(m & ~0x207ULL) ? 0 : 1); } double d = a[0].d; uint64_t m = U(1); bool r = ((m & 3) && std::isnan(d)) || ((m & 4) && std::isinf(d) && d < 0) || ((m & 0x200) && std::isinf(d) && d > 0) || ((m & 0x1f8) && std::isfinite(d)); return Val::I(r); }
    limit("intrinsic " + n);
  }
  if (n == "_Znwm") return Val::I(allocHeap(U(0), 2));
  if (n == "_Znam") return Val::I(allocHeap(U(0), 3));
  if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") return Val::I(allocHeap(U(0), 2));
  if (n == "_ZnamRKSt9nothrow_t" || n == "_ZnamSt11align_val_t") return Val::I(allocHeap(U(0), 3));
  if (n == "_ZdlPvRKSt9nothrow_t" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") { freeHeap(U(0), 2); return Val(); }
  if (n == "_ZdaPvRKSt9nothrow_t" || n == "_ZdaPvSt11align_val_t") { freeHeap(U(0), 3); return Val(); }
  if (n == "realloc") { uint64_t p = U(0), s = U(1), q = allocHeap(s, 4); if (p) { Obj *o = find(p); if (!o || o->base != p) violation("memory", "realloc of a pointer that is not allocated"); uint64_t c = o->size < s ? o->size : s; copyMem(q, p, c); freeHeap(p, 4); } return Val::I(q); }
  if (n == "malloc") return Val::I(allocHeap(U(0), 4));
  if (n == "calloc") { uint64_t s = U(0) * U(1); uint64_t p = allocHeap(s, 4); for (uint64_t i = 0; i < s; ++i) store(p + i, 1, Val::I(0)); return Val::I(p); }
  if (n == "_ZdlPv" || n == "_ZdlPvm") { freeHeap(U(0), 2); return Val(); }
  if (n == "_ZdaPv" || n == "_ZdaPvm") { freeHeap(U(0), 3); return Val(); }
  if (n == "free") { freeHeap(U(0), 4); return Val(); }
  if (n == "memcpy" || n == "memmove") { uint64_t d = U(0); copyMem(d, U(1), U(2)); return Val::I(d); }
  if (n == "memset") { uint64_t d = U(0), v = U(1), c = U(2); for (uint64_t i = 0; i < c; ++i) store(d + i, 1, Val::I(v & 255)); return Val::I(d); }
  static const std::set<std::string> mf = {"sqrt", "fabs", "floor", "ceil", "round", "trunc", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "fmod", "fmin", "fmax", "hypot", "exp2", "exp10", "log2", "log10", "cbrt", "nearbyint", "rint", "remainder", "copysign", "fdim", "sinh", "cosh", "tanh", "ldexp", "scalbn", "scalbln", "fma"};
  if (mf.count(n)) return mathFn(n, a);
  if (n == "dgels_") { dgels(a); return Val(); }
  if (n == "__cxa_atexit" || n == "atexit") return Val::I(0);
  if (n == "__cxa_guard_acquire") { Val v = load(U(0), 1, 8, false); bool done = v.k == Val::INT && v.i; if (!done) st->guards.push_back(st->liveHeap); return Val::I(done ? 0 : 1); }
  if (n == "__cxa_guard_release") { store(U(0), 1, Val::I(1)); if (!st->guards.empty()) { st->liveHeap = st->guards.back(); st->guards.pop_back(); } return Val(); } // what a static variable holds is not a leak
  if (starts(n, "_ZSt17__throw_") || starts(n, "_ZSt20__throw_") || starts(n, "_ZSt19__throw_") || starts(n, "_ZSt24__throw_") || starts(n, "_ZSt28__throw_") || starts(n, "_ZSt16__throw_") || n == "_ZSt9terminatev" || n == "__cxa_throw_bad_array_new_length" || n.find("__throw_") != std::string::npos)
    violation("exception", "exception thrown: " + n);
  if (n == "__assert_fail" || n == "abort" || n == "exit" || n == "_exit") violation("abort", "process abort: " + n);
  if (n == "__cxa_allocate_exception") return Val::I(allocHeap(U(0) + 128, 2));
  if (n == "__cxa_free_exception") { freeHeap(U(0), 2); return Val(); }
  if (n == "__cxa_get_exception_ptr") return a[0];
  if (n == "__dynamic_cast") { // single inheritance
    uint64_t o = U(0), vp = concInt(load(o, 8, 64, false), 64, "a virtual table"), ti = concInt(load(vp - 8, 8, 64, false), 64, "a type"); int64_t top = (int64_t)concInt(load(vp - 16, 8, 64, false), 64, "an offset");
    return Val::I(typeMatches(ti, U(2)) ? o + top : 0);
  }
  if (n == "__cxa_begin_catch") {
    uint64_t e = U(0); Exc &x = st->excs[e]; x.handlers++; st->caught.push_back(e);
    auto it = gAddrGlob.find(x.ti); if (it != gAddrGlob.end() && it->second->getName().starts_with("_ZTIP")) return load(e, 8, 64, false);
    return a[0];
  }
  if (n == "puts" || n == "printf" || n == "fprintf" || n == "putchar" || n == "fflush" || n == "fwrite" || n == "fputs" || n == "fputc") return Val::I(0);
  if (isStubNameS(n)) { if (!a.empty() && in.I && in.I->getType()->isPointerTy()) return a[0]; return in.dst >= 0 && in.w ? Val::I(0) : Val(); }
  limit("external function " + n);
}
static bool isStubNameS(const std::string &n);
std::string uniq(const std::string &n) { int c = st->nameCount[n]++; return c ? n + "#" + std::to_string(c) : n; }
double dblArg(const Val &v) { if (v.k == Val::DBL) return v.d; if (v.k == Val::INT) { double d; memcpy(&d, &v.i, 8); return d; } limit("bound of an input must be concrete"); }
Val intrinsic(const std::string &n, const std::vector<Val> &a) {
  if (n == "sg_real") {
    std::string nm = uniq(cstr(a[0].i)); double lo = dblArg(a[1]), hi = dblArg(a[2]);
    int i = (int)st->vars.size(); long fr = (37L * i * i + 23 * i + 21) % 61 + 2;
    Q L(lo), H(hi); Q wv = L + (H - L) * Q(fr, 64); wv.canonicalize();
    return varVal(newVar(nm, true, L, true, H, true, wv));
  }
  if (n == "sg_int") {
    std::string nm = uniq(cstr(a[0].i)); int64_t lo = (int64_t)a[1].i, hi = (int64_t)a[2].i;
    if (lo == hi) { st->choices.push_back({nm, lo}); return Val::I((uint64_t)lo); }
    int id = (int)st->ivars.size(); if (id >= 120) limit("too many symbolic integers");
    st->ivars.push_back({nm, 64, lo, hi}); st->w.i.push_back(lo + (hi - lo) / 2);
    return mkInt(bvar(id, 64, lo, hi));
  }
  if (n == "sg_choose") {
    int64_t lo = (int64_t)a[1].i, hi = (int64_t)a[2].i; int64_t v = chooseN(lo, hi);
    std::string nm = uniq(cstr(a[0].i)); st->choices.push_back({nm, v}); return Val::I((uint64_t)v);
  }
  if (n == "sg_param") { std::string nm = cstr(a[0].i); auto it = gParams.find(nm); return Val::I(it == gParams.end() ? a[1].i : (uint64_t)it->second); }
  if (n == "sg_assume") { doAssume(a[0]); return Val(); }
  if (n == "sg_assert") { doAssert(a[0], cstr(a[1].i)); return Val(); }
  if (n == "sg_split") { boolOf(a[0]); return Val::I(decide(boolOf(a[0]))); }
  if (n == "sg_concrete_int") { return Val::I(concInt(a[0], 64, "a concretised value")); }
  if (n == "sg_out") { st->outs.push_back({cstr(a[0].i), a[1]}); if (a[1].k == Val::UNDEF) violation("uninit", "undefined output " + cstr(a[0].i)); return Val(); }
  if (n == "sg_reach") { std::string s = cstr(a[0].i); std::lock_guard<std::mutex> g(gMx); gReach[s]++; return Val(); }
  if (n == "sg_heap_live") return Val::I((uint64_t)st->liveHeap);
  if (n == "sg_is_symbolic") return Val::I(1);
  if (n == "sg_check_init") { // every byte of [p, p+n) has been written
    uint64_t p = a[0].i, c = concInt(a[1], 64, "a size"); if (!c) return Val(); Obj &o = access(p, c, "checked range"); for (uint64_t i = 0; i < c; ++i) if (!o.d->st[p - o.base + i]) violation("uninit", cstr(a[2].i)); return Val();
  }
  limit("intrinsic " + n);
}
