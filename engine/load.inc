// module preparation and decoding
static bool isStubName(StringRef n) {
  static const char *pats[] = {"basic_ostream", "_ZNSo", "_ZStls", "_ZNSi", "ios_base", "basic_ios", "basic_stringbuf", "basic_streambuf", "basic_filebuf", "ostringstream", "stringstream", "_ZSt4endl", "_ZSt5flush", "__ostream_insert", "_ZNSt6locale", "ostream"};
  for (auto p : pats) if (n.contains(p)) return true;
  return false;
}
static void prepareModule(Module &M) {
  if (!M.getNamedGlobal("sg_streams"))
  for (Function &F : M) if (!F.isDeclaration() && isStubName(F.getName())) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
  for (Function &F : M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    if (F.getName().starts_with("sg_")) F.addFnAttr(Attribute::NoInline); }
  PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopInterleaving = false; PTO.LoopUnrolling = false;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
  MPM.run(M, MAM);
}
static std::map<const GlobalVariable *, uint64_t> gGlobAddr;
static const DataLayout *DLp;
static uint64_t constAddr(const Constant *C, bool &ok);
static Val constVal(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) return Val(); return Val::I(ci->getZExtValue()); }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { if (cf->getType()->isDoubleTy()) return Val::D(cf->getValueAPF().convertToDouble()); if (cf->getType()->isFloatTy()) return Val::D(cf->getValueAPF().convertToFloat()); return Val(); }
  if (isa<ConstantPointerNull>(C)) return Val::I(0);
  if (isa<UndefValue>(C)) {
    if (C->getType()->isStructTy() || C->getType()->isArrayTy()) { auto a = std::make_shared<Agg>(); unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements(); a->v.resize(n); Val v; v.k = Val::AGG; v.p = a; return v; }
    return Val();
  }
  if (C->getType()->isStructTy() || C->getType()->isArrayTy()) {
    auto a = std::make_shared<Agg>(); unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) a->v.push_back(constVal(C->getAggregateElement(i)));
    Val v; v.k = Val::AGG; v.p = a; return v;
  }
  bool ok = true; uint64_t a = constAddr(C, ok);
  if (ok) return Val::I(a);
  return Val();
}
static uint64_t constAddr(const Constant *C, bool &ok) {
  if (auto *g = dyn_cast<GlobalVariable>(C)) return gGlobAddr[g];
  if (auto *f = dyn_cast<Function>(C)) return FN_BASE + 16 * P.fnIdx[f];
  if (auto *al = dyn_cast<GlobalAlias>(C)) return constAddr(al->getAliasee(), ok);
  if (auto *ci = dyn_cast<ConstantInt>(C)) return ci->getZExtValue();
  if (isa<ConstantPointerNull>(C)) return 0;
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DLp, off)) { ok = false; return 0; }
      return constAddr(cast<Constant>(ce->getOperand(0)), ok) + off.getSExtValue();
    }
    if (ce->isCast()) return constAddr(cast<Constant>(ce->getOperand(0)), ok);
    if (ce->getOpcode() == Instruction::Sub) return constAddr(cast<Constant>(ce->getOperand(0)), ok) - constAddr(cast<Constant>(ce->getOperand(1)), ok);
    if (ce->getOpcode() == Instruction::Add) return constAddr(cast<Constant>(ce->getOperand(0)), ok) + constAddr(cast<Constant>(ce->getOperand(1)), ok);
  }
  ok = false; return 0;
}
// does a handler for type h accept an exception of type t?
static bool typeMatches(uint64_t t, uint64_t h) {
  if (!h || t == h) return true;
  auto it = gAddrGlob.find(t), jt = gAddrGlob.find(h); if (it == gAddrGlob.end()) return false;
  if (jt != gAddrGlob.end() && it->second->getName() == jt->second->getName()) return true;
  if (jt != gAddrGlob.end() && it->second->getName() == "_ZTIPc" && jt->second->getName() == "_ZTIPKc") return true;
  if (!it->second->hasInitializer()) return false;
  if (auto *cs = dyn_cast<ConstantStruct>(it->second->getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); ++i) if (cs->getOperand(i)->getType()->isPointerTy()) { bool ok = true; uint64_t b = constAddr(cs->getOperand(i), ok); if (ok && b && typeMatches(b, h)) return true; }
  return false;
}
struct Dec {
  std::map<const Value *, int> slot; int n = 0;
  int get(const Value *v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) { P.consts.push_back(constVal(c)); int r = ~(int)(P.consts.size() - 1); slot[v] = r; return r; }
    if (isa<MetadataAsValue>(v)) { P.consts.push_back(Val()); int r = ~(int)(P.consts.size() - 1); slot[v] = r; return r; }
    slot[v] = n; return n++;
  }
};
static uint16_t widthOf(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
// loads and stores of small structs: per element offset, store size, width, double?
static void aggLayout(Type *t, Ins &in) {
  const DataLayout &DL = *DLp; unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
  for (unsigned i = 0; i < n; ++i) {
    Type *e = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); uint64_t sz = DL.getTypeStoreSize(e);
    if (e->isAggregateType() || !widthOf(e) || sz > 8) { in.op = -1; return; }
    in.s.push_back(t->isStructTy() ? (int64_t)DL.getStructLayout(cast<StructType>(t))->getElementOffset(i) : (int64_t)(i * DL.getTypeAllocSize(e)));
    in.s.push_back((int64_t)sz); in.s.push_back(widthOf(e)); in.s.push_back(e->isDoubleTy());
  }
  in.op = in.op == Instruction::Load ? OP_AGGLOAD : OP_AGGSTORE;
}
static void decodeModule(Module &M) {
  const DataLayout &DL = M.getDataLayout(); DLp = &DL;
  uint64_t ga = GLOB_BASE;
  for (GlobalVariable &g : M.globals()) { uint64_t sz = DL.getTypeAllocSize(g.getValueType()); uint64_t al = 64; ga = (ga + al - 1) & ~(al - 1); gGlobAddr[&g] = ga; gAddrGlob[ga] = &g; ga += sz + 64; }
  int idx = 0;
  for (Function &F : M) { FuncInfo fi; fi.name = F.getName().str(); fi.F = &F; fi.defined = !F.isDeclaration(); P.fns.push_back(fi); P.fnIdx[&F] = idx++; }
  for (size_t f = 0; f < P.fns.size(); ++f) {
    FuncInfo &fi = P.fns[f]; if (!fi.defined) continue;
    Function &F = *const_cast<Function *>(fi.F); Dec D;
    for (Argument &a : F.args()) D.get(&a);
    fi.nargs = F.arg_size();
    std::map<const BasicBlock *, int> bi; int b = 0; for (BasicBlock &B : F) bi[&B] = b++;
    fi.blocks.resize(b);
    for (BasicBlock &B : F) {
      Block &bl = fi.blocks[bi[&B]];
      int pi = 0; std::vector<const BasicBlock *> preds;
      for (const BasicBlock *p : predecessors(&B)) if (!bl.predIdx.count(bi[p])) { bl.predIdx[bi[p]] = pi++; preds.push_back(p); }
      for (Instruction &I : B) {
        if (auto *ph = dyn_cast<PHINode>(&I)) {
          std::vector<int> o; for (auto *p : preds) o.push_back(D.get(ph->getIncomingValueForBlock(p)));
          bl.phis.push_back({D.get(ph), o}); continue;
        }
        if (I.isDebugOrPseudoInst()) continue;
        Ins in; in.I = &I; in.op = I.getOpcode(); in.w = widthOf(I.getType()); in.dbl = I.getType()->isDoubleTy();
        if (!I.getType()->isVoidTy()) in.dst = D.get(&I);
        if (I.getType()->isVectorTy()) { in.op = -1; bl.ins.push_back(in); continue; }
        switch (I.getOpcode()) {
        case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); in.k = DL.getTypeAllocSize(A.getAllocatedType()); in.o.push_back(D.get(A.getArraySize())); break; }
        case Instruction::Load: in.o.push_back(D.get(I.getOperand(0))); in.k = DL.getTypeStoreSize(I.getType()); if (I.getType()->isAggregateType()) aggLayout(I.getType(), in); else if (in.w == 0 || in.k > 8) in.op = -1; break;
        case Instruction::Store: { Type *t = I.getOperand(0)->getType(); in.o = {D.get(I.getOperand(0)), D.get(I.getOperand(1))}; in.k = DL.getTypeStoreSize(t); if (t->isAggregateType()) aggLayout(t, in); else if (t->isVectorTy() || in.k > 8) in.op = -1; in.w = widthOf(t); break; }
        case Instruction::GetElementPtr: {
          auto &G = cast<GetElementPtrInst>(I); in.o.push_back(D.get(G.getPointerOperand())); in.op = OP_GEP;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            Value *ix = gi.getOperand();
            if (StructType *ST = gi.getStructTypeOrNull()) { in.k += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            int64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) in.k += ci->getSExtValue() * sz;
            else { in.o.push_back(D.get(ix)); in.s.push_back(sz); in.s.push_back(widthOf(ix->getType())); }
          }
          break;
        }
        case Instruction::Br: { auto &Br = cast<BranchInst>(I); if (Br.isConditional()) { in.o.push_back(D.get(Br.getCondition())); in.s = {bi[Br.getSuccessor(0)], bi[Br.getSuccessor(1)]}; } else in.s = {bi[Br.getSuccessor(0)]}; break; }
        case Instruction::Switch: { auto &S = cast<SwitchInst>(I); in.o.push_back(D.get(S.getCondition())); in.w = widthOf(S.getCondition()->getType()); in.s.push_back(bi[S.getDefaultDest()]); for (auto &c : S.cases()) { in.s.push_back((int64_t)c.getCaseValue()->getZExtValue()); in.s.push_back(bi[c.getCaseSuccessor()]); } break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto &CB = cast<CallBase>(I);
          for (auto &a : CB.args()) in.o.push_back(D.get(a.get()));
          if (auto *callee = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts())) in.fn = P.fnIdx[callee];
          else in.o.push_back(D.get(CB.getCalledOperand()));
          if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.s.push_back(bi[iv->getNormalDest()]); in.s.push_back(bi[iv->getUnwindDest()]); }
          for (unsigned i = 0; i < CB.arg_size(); ++i) if (CB.isByValArgument(i)) { in.bv.push_back(i); in.bv.push_back((int64_t)DL.getTypeAllocSize(CB.getParamByValType(i))); }
          break;
        }
        case Instruction::LandingPad: break;
        case Instruction::ExtractValue: in.o.push_back(D.get(I.getOperand(0))); for (unsigned x : cast<ExtractValueInst>(I).indices()) in.s.push_back(x); break;
        case Instruction::InsertValue: in.o = {D.get(I.getOperand(0)), D.get(I.getOperand(1))}; for (unsigned x : cast<InsertValueInst>(I).indices()) in.s.push_back(x); break;
        case Instruction::ICmp: case Instruction::FCmp: in.pred = cast<CmpInst>(I).getPredicate(); [[fallthrough]];
        default: for (auto &o : I.operands()) in.o.push_back(D.get(o.get())); if (I.getNumOperands()) in.w2 = widthOf(I.getOperand(0)->getType()); break;
        }
        bl.ins.push_back(in);
      }
    }
    fi.nregs = D.n;
  }
}
static void initConst(Exec &ex, uint64_t addr, const Constant *C) {
  const DataLayout &DL = *DLp; Type *t = C->getType(); uint64_t sz = DL.getTypeStoreSize(t);
  if (isa<UndefValue>(C)) return;
  if (C->isNullValue()) { for (uint64_t i = 0; i < sz; ++i) ex.store(addr + i, 1, Val::I(0)); return; }
  if (auto *cds = dyn_cast<ConstantDataSequential>(C)) { uint64_t es = DL.getTypeAllocSize(cds->getElementType()); for (unsigned i = 0; i < cds->getNumElements(); ++i) initConst(ex, addr + i * es, cds->getElementAsConstant(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(ex, addr + i * es, ca->getOperand(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { auto *sl = DL.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initConst(ex, addr + sl->getElementOffset(i), cs->getOperand(i)); return; }
  Val v = constVal(C);
  if (sz <= 8 && v.k != Val::UNDEF) ex.store(addr, (int)sz, v);
}
static void initGlobals(Module &M, Exec &ex) {
  for (GlobalVariable &g : M.globals()) {
    Obj o; o.base = gGlobAddr[&g]; o.size = DLp->getTypeAllocSize(g.getValueType()); o.kind = 0; o.d = std::make_shared<Data>(); o.d->b.resize(o.size); o.d->st.resize(o.size, g.hasInitializer() ? 0 : 1);
    ex.st->glob.push_back(o);
  }
  for (GlobalVariable &g : M.globals()) if (g.hasInitializer()) initConst(ex, gGlobAddr[&g], g.getInitializer());
}
static void pushCtors(Module &M, Exec &ex) {
  if (auto *g = M.getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) {
    auto *ca = dyn_cast<ConstantArray>(g->getInitializer()); if (!ca) return;
    for (int i = (int)ca->getNumOperands() - 1; i >= 0; --i) {
      auto *f = dyn_cast<Function>(ca->getOperand(i)->getAggregateElement(1u)->stripPointerCasts());
      if (f && !f->isDeclaration()) ex.enter(P.fnIdx[f], {}, -2);
    }
  }
}
