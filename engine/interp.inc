// ------------------------------------------------------------------ types and constants
static unsigned widthOf(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 64; /* long double is modelled as double */ return 0; }
static bool leavesOf(Type* t, u64 off, std::vector<Leaf>& out) {
  if (t->isVoidTy()) return true;
  if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!leavesOf(st->getElementType(i), off + L->getElementOffset(i), out)) return false; return true; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) if (!leavesOf(at->getElementType(), off + i * sz, out)) return false; return true; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) if (!leavesOf(vt->getElementType(), off + i * sz, out)) return false; return true; }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { unsigned w = t->getIntegerBitWidth(); for (unsigned i = 0; i < w; i += 64) out.push_back({(u32)(off + i / 8), (u8)std::min(64u, w - i)}); return true; }
  unsigned w = widthOf(t); if (!w) { out.push_back({(u32)off, 64}); return false; }
  out.push_back({(u32)off, (u8)w}); return true;
}
static int nLeaves(Type* t) { std::vector<Leaf> l; leavesOf(t, 0, l); return (int)l.size(); }
static bool isWide(Type* t) { return t->isIntegerTy() && t->getIntegerBitWidth() > 64; }
static Fn* getFn(const Function* F);
static u64 globalAddr(const GlobalValue* g) {
  if (auto* f = dyn_cast<Function>(g)) return getFn(f)->addr;
  if (auto* a = dyn_cast<GlobalAlias>(g)) { if (auto* b = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts())) return globalAddr(b); die("alias"); }
  auto it = gaddr.find(g); if (it == gaddr.end()) die("unknown global " + g->getName().str()); return it->second;
}
static u64 constU64(const Constant* c);
static u64 gepConst(const GEPOperator* g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) die("gep const"); return constU64(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
static u64 constU64(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) return i->getValue().getZExtValue();
  if (auto* f = dyn_cast<ConstantFP>(c); f && f->getType()->isX86_FP80Ty()) { APFloat v = f->getValueAPF(); bool li; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return v.bitcastToAPInt().getZExtValue(); }
  if (auto* f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    unsigned w = widthOf(e->getType()); u64 m = maskw(w ? w : 64);
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(e));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: return constU64(e->getOperand(0)) & m;
      case Instruction::Add: return (constU64(e->getOperand(0)) + constU64(e->getOperand(1))) & m;
      case Instruction::Sub: return (constU64(e->getOperand(0)) - constU64(e->getOperand(1))) & m;
      case Instruction::ICmp: { u64 a = constU64(e->getOperand(0)), b = constU64(e->getOperand(1)); return e->getPredicate() == CmpInst::ICMP_EQ ? a == b : e->getPredicate() == CmpInst::ICMP_NE ? a != b : a < b; }
      default: die(std::string("constexpr ") + e->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); die("const " + os.str()); return 0;
}
static void constLeaves(const Constant* c, std::vector<SV>& out) {
  Type* t = c->getType();
  if (isWide(t)) { unsigned w = t->getIntegerBitWidth(); if (auto* i = dyn_cast<ConstantInt>(c)) for (unsigned k = 0; k < w; k += 64) out.push_back(V(i->getValue().extractBitsAsZExtValue(std::min(64u, w - k), k))); else for (unsigned k = 0; k < w; k += 64) out.push_back(V(0)); return; }
  if (t->isAggregateType() || t->isVectorTy()) {
    int n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (int i = 0; i < n; i++) { Constant* x = c->getAggregateElement(i); if (!x) die("aggregate const"); constLeaves(x, out); } return; }
  out.push_back(V(constU64(c)));
}
static void initGlobal(State& s, u64 base, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
  Type* t = c->getType();
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) writeRaw(s, base, (base & 0xffffffff) - OFF0 + i, V((u8)r[i]), 8); return; }
  if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(s, base + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); u64 sz = DL->getTypeAllocSize(et); u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (u64 i = 0; i < n; i++) initGlobal(s, base + i * sz, c->getAggregateElement(i)); return; }
  if (isWide(t)) { std::vector<SV> l; constLeaves(c, l); for (size_t i = 0; i < l.size(); i++) writeRaw(s, base, (base & 0xffffffff) - OFF0 + 8 * i, l[i], 64); return; }
  writeRaw(s, base, (base & 0xffffffff) - OFF0, V(constU64(c)), DL->getTypeStoreSize(t) * 8);
}

// ------------------------------------------------------------------ compile a function to flat code
static Handler findHandler(const std::string& n);
static Fn* getFn(const Function* F) { auto& f = fns[F]; if (!f) { f = new Fn; f->F = const_cast<Function*>(F); f->name = F->getName().str(); f->defined = !F->isDeclaration(); f->addr = FNBASE + fnByIdx.size() * 16; fnByIdx.push_back(f); } return f; }
static void compile(Fn* fn) {
  fn->compiled = true; Function& F = *fn->F;
  std::unordered_map<const llvm::Value*, int> slot; std::unordered_map<const llvm::Value*, int> cidx; int ns = 0;
  for (auto& A : F.args()) { slot[&A] = ns; ns += std::max(1, nLeaves(A.getType())); }
  fn->nargs = ns;
  for (auto& B : F) for (auto& I : B) { int n = nLeaves(I.getType()); if (n) { slot[&I] = ns; ns += n; } }
  fn->nslots = ns;
  auto opn = [&](const llvm::Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) { auto it = cidx.find(v); if (it != cidx.end()) return ~it->second; int k = fn->consts.size(); cidx[v] = k; std::vector<SV> l; constLeaves(c, l); for (auto& x : l) fn->consts.push_back(x); return ~k; }
    auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0; die("operand in " + fn->name); } return it->second; };
  auto off = [](int o, int k) { return o >= 0 ? o + k : ~(~o + k); };
  std::unordered_map<const BasicBlock*, int> bpc; std::vector<std::tuple<int, int, const BasicBlock*, const BasicBlock*>> fix;
  for (auto& B : F) {
    bool first = true;
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (first) { bpc[&B] = fn->code.size(); first = false; }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Ins x; x.I = &I; x.op = I_UNSUP; x.sub = 0; x.w = widthOf(I.getType()); x.w2 = 0; x.n = std::max(1, nLeaves(I.getType())); auto si = slot.find(&I); x.dst = si == slot.end() ? -1 : si->second;
      auto edge = [&](const BasicBlock* to) { Edge e; e.pc = -1; e.inter = false; x.edges.push_back(e); fix.push_back({(int)fn->code.size(), (int)x.edges.size() - 1, &B, to}); };
      Type* T = I.getType(); Type* ET = T->isVectorTy() ? cast<VectorType>(T)->getElementType() : T;
      switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          static const std::map<unsigned, Op> mp = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
          x.op = I_BIN; x.sub = mp.at(I.getOpcode()); x.w = widthOf(ET); x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1));
          if (isWide(ET)) { x.op = I_BIN; x.w = 128; x.w2 = ET->getIntegerBitWidth() == 128 ? 1 : 2; }
          break; }
        case Instruction::ICmp: { x.op = I_ICMP; Type* ot = I.getOperand(0)->getType(); if (ot->isVectorTy()) ot = cast<VectorType>(ot)->getElementType(); x.w = isWide(ot) ? 128 : widthOf(ot); x.sub = cast<ICmpInst>(I).getPredicate(); x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1)); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: x.op = I_FBIN; x.sub = I.getOpcode() - Instruction::FAdd; if (I.getOpcode() == Instruction::FAdd) x.sub = 0; else if (I.getOpcode() == Instruction::FSub) x.sub = 1; else if (I.getOpcode() == Instruction::FMul) x.sub = 2; else if (I.getOpcode() == Instruction::FDiv) x.sub = 3; else x.sub = 4; x.w = widthOf(ET); x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1)); if (!ET->isFloatingPointTy() || !widthOf(ET)) x.op = I_UNSUP; break;
        case Instruction::FNeg: x.op = I_FNEG; x.w = widthOf(ET); x.a = opn(I.getOperand(0)); break;
        case Instruction::FCmp: { x.op = I_FCMP; Type* ot = I.getOperand(0)->getType(); if (ot->isVectorTy()) ot = cast<VectorType>(ot)->getElementType(); x.w = widthOf(ot); x.sub = cast<FCmpInst>(I).getPredicate(); x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1)); if (!ot->isFloatingPointTy() || !widthOf(ot)) x.op = I_UNSUP; break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
          Type* ot = I.getOperand(0)->getType(); if (ot->isVectorTy()) ot = cast<VectorType>(ot)->getElementType();
          x.op = I_CAST; x.sub = I.getOpcode(); x.w = isWide(ET) ? 128 : widthOf(ET); x.w2 = isWide(ot) ? 128 : widthOf(ot); x.fp32 = ET->isFloatTy(); x.a = opn(I.getOperand(0));
          if (I.getOpcode() == Instruction::BitCast && nLeaves(T) != nLeaves(I.getOperand(0)->getType())) x.op = I_UNSUP;
          break; }
        case Instruction::Load: x.op = I_LOAD; x.a = opn(I.getOperand(0)); if (!leavesOf(T, 0, x.leaves)) x.op = I_UNSUP; break;
        case Instruction::Store: x.op = I_STORE; x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1)); if (!leavesOf(I.getOperand(0)->getType(), 0, x.leaves)) x.op = I_UNSUP; break;
        case Instruction::GetElementPtr: { x.op = I_GEP; x.a = opn(I.getOperand(0)); u64 c = 0; if (T->isVectorTy()) { x.op = I_UNSUP; break; }
          for (auto it = gep_type_begin(&I), e = gep_type_end(&I); it != e; ++it) { llvm::Value* ix = it.getOperand();
            if (auto* st = it.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else { u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) c += sz * (u64)ci->getSExtValue(); else { x.gep.push_back({opn(ix), sz}); x.gepw.push_back(widthOf(ix->getType())); } } }
          x.imm = c; break; }
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.a = opn(A.getArraySize()); x.w2 = widthOf(A.getArraySize()->getType()); break; }
        case Instruction::Ret: x.op = I_RET; if (I.getNumOperands()) { x.a = opn(I.getOperand(0)); x.n = nLeaves(I.getOperand(0)->getType()); } else x.n = 0; break;
        case Instruction::Br: { auto& Br = cast<BranchInst>(I); if (Br.isConditional()) { x.op = I_CONDBR; x.a = opn(Br.getCondition()); edge(Br.getSuccessor(0)); edge(Br.getSuccessor(1)); } else { x.op = I_BR; edge(Br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto& Sw = cast<SwitchInst>(I); x.op = I_SWITCH; x.a = opn(Sw.getCondition()); x.w = widthOf(Sw.getCondition()->getType()); edge(Sw.getDefaultDest()); for (auto& c : Sw.cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); edge(c.getCaseSuccessor()); } break; }
        case Instruction::Select: { x.op = I_SELECT; x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1)); x.c = opn(I.getOperand(2)); std::vector<Leaf> l; leavesOf(T, 0, l); for (auto& k : l) x.ws.push_back(k.w); x.sub = I.getOperand(0)->getType()->isVectorTy(); break; }
        case Instruction::ExtractValue: { x.op = I_COPY; auto& E = cast<ExtractValueInst>(I); Type* t = E.getAggregateOperand()->getType(); int o = 0; for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; k++) o += nLeaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } int src = opn(E.getAggregateOperand()); for (int k = 0; k < nLeaves(T); k++) x.copies.push_back({x.dst + k, off(src, o + k)}); break; }
        case Instruction::InsertValue: { x.op = I_COPY; auto& E = cast<InsertValueInst>(I); Type* t = T; int o = 0; for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; k++) o += nLeaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } int ag = opn(E.getAggregateOperand()), in = opn(E.getInsertedValueOperand()); int nl = nLeaves(T), ni = nLeaves(t); for (int k = 0; k < nl; k++) x.copies.push_back({x.dst + k, k >= o && k < o + ni ? off(in, k - o) : off(ag, k)}); break; }
        case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { x.op = I_EXTDYN; x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1)); x.n = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); x.w2 = widthOf(I.getOperand(1)->getType()); break; } x.op = I_COPY; x.copies.push_back({x.dst, off(opn(I.getOperand(0)), ci->getZExtValue())}); break; }
        case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); int ve = opn(I.getOperand(0)), in = opn(I.getOperand(1)); int n = cast<FixedVectorType>(T)->getNumElements(); if (!ci) { x.op = I_UNSUP; break; } x.op = I_COPY; for (int k = 0; k < n; k++) x.copies.push_back({x.dst + k, (u64)k == ci->getZExtValue() ? in : off(ve, k)}); break; }
        case Instruction::ShuffleVector: { auto& Sv = cast<ShuffleVectorInst>(I); x.op = I_COPY; int n0 = cast<FixedVectorType>(Sv.getOperand(0)->getType())->getNumElements(); int a = opn(Sv.getOperand(0)), b = opn(Sv.getOperand(1)); int k = 0; for (int m : Sv.getShuffleMask()) { x.copies.push_back({x.dst + k, m < 0 ? a : m < n0 ? off(a, m) : off(b, m - n0)}); k++; } break; }
        case Instruction::Freeze: { x.op = I_COPY; int src = opn(I.getOperand(0)); for (int k = 0; k < nLeaves(T); k++) x.copies.push_back({x.dst + k, off(src, k)}); break; }
        case Instruction::Unreachable: x.op = I_UNREACH; break;
        case Instruction::Fence: x.op = I_NOP; break;
        case Instruction::LandingPad: { auto& L = cast<LandingPadInst>(I); x.op = I_LPAD; x.cleanup = L.isCleanup(); for (unsigned k = 0; k < L.getNumClauses(); k++) if (L.isCatch(k)) x.lpad.push_back(constU64(L.getClause(k))); else x.sub = 1; break; }
        case Instruction::Resume: x.op = I_RESUME; x.a = opn(I.getOperand(0)); break;
        case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); x.op = I_RMW; x.sub = A.getOperation(); x.a = opn(A.getPointerOperand()); x.b = opn(A.getValOperand()); x.w = widthOf(T); break; }
        case Instruction::AtomicCmpXchg: { x.op = I_CMPXCHG; x.a = opn(I.getOperand(0)); x.b = opn(I.getOperand(1)); x.c = opn(I.getOperand(2)); x.w = widthOf(I.getOperand(1)->getType()); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto& CB = cast<CallBase>(I); x.op = I_CALL; x.retn = nLeaves(T); x.invoke = isa<InvokeInst>(I);
          if (CB.isInlineAsm()) { x.op = I_NOP; if (x.dst >= 0) x.op = I_UNSUP; break; }
          auto* cf = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
          if (cf && cf->isIntrinsic()) { x.intr = cf->getIntrinsicID();
            switch (x.intr) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: x.op = I_NOP; break; default: break; } }
          if (x.op == I_NOP) { break; }
          for (unsigned k = 0; k < CB.arg_size(); k++) { llvm::Value* a = CB.getArgOperand(k); if (a->getType()->isMetadataTy()) continue; int o = opn(a); int n = nLeaves(a->getType()); for (int j = 0; j < n; j++) x.args.push_back(off(o, j)); x.argn.push_back(n); x.ws.push_back(widthOf(a->getType())); if (CB.isByValArgument(k)) { x.cases.push_back(x.args.size() - 1); x.cases.push_back(DL->getTypeAllocSize(CB.getParamByValType(k))); } }
          if (cf) { if (!cf->isIntrinsic()) x.callee = getFn(cf); } else x.a = opn(CB.getCalledOperand());
          if (x.invoke) { auto& IV = cast<InvokeInst>(I); edge(IV.getNormalDest()); edge(IV.getUnwindDest()); }
          break; }
        default: break;
      }
      if (x.op != I_NOP || x.invoke || I.isTerminator()) fn->code.push_back(std::move(x)); else if (I.isTerminator()) die("nop terminator");
    }
    if (first) bpc[&B] = fn->code.size();
  }
  for (auto& t : fix) { Edge& e = fn->code[std::get<0>(t)].edges[std::get<1>(t)]; const BasicBlock* from = std::get<2>(t); const BasicBlock* to = std::get<3>(t); e.pc = bpc[to];
    for (auto& ph : to->phis()) { int d = slot[&ph]; int sidx = opn(ph.getIncomingValueForBlock(from)); for (int k = 0; k < nLeaves(ph.getType()); k++) e.cp.push_back({d + k, off(sidx, k)}); }
    for (size_t i = 0; i < e.cp.size(); i++) for (size_t j = i + 1; j < e.cp.size(); j++) if (e.cp[j].src == e.cp[i].dst) e.inter = true; }
}

// ------------------------------------------------------------------ control helpers
static void takeEdge(State& s, const Edge& e) {
  Frame* f = s.top(); const SV* C = f->fn->consts.data(); SV* R = f->r;
  if (e.inter) { SV tmp[256]; std::vector<SV> big; SV* t = tmp; size_t n = e.cp.size(); if (n > 256) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = e.cp[i].src >= 0 ? R[e.cp[i].src] : C[~e.cp[i].src]; for (size_t i = 0; i < n; i++) R[e.cp[i].dst] = t[i]; }
  else for (auto& c : e.cp) R[c.dst] = c.src >= 0 ? R[c.src] : C[~c.src];
  f->pc = e.pc;
}
static void popFrame(State& s) { Frame* f = s.st.back(); s.stk.popTo(f->stkBase); f->drop(); s.st.pop_back(); }
// ---- RTTI
static const std::map<std::string, std::string> stdBase = {
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
static bool derives(u64 t, u64 base, int d = 0) {
  if (t == base) return true; if (d > 16) return false;
  auto it = globName.find(t); if (it == globName.end()) return false;
  auto sb = stdBase.find(it->second);
  if (sb != stdBase.end()) { if (auto* g = M->getNamedGlobal(sb->second)) return derives(globalAddr(g), base, d + 1); return false; }
  auto* g = M->getNamedGlobal(it->second); if (!g || !g->hasInitializer()) return false;
  auto* st = dyn_cast<ConstantStruct>(g->getInitializer()); if (!st) return false;
  for (unsigned i = 2; i < st->getNumOperands(); i++) { auto* op = st->getOperand(i); if (op->getType()->isPointerTy() && !op->isNullValue()) if (derives(constU64(op), base, d + 1)) return true; }
  return false;
}
static u64 typeId(u64 t) { auto& i = typeIds[t]; if (!i) { i = typeById.size(); typeById.push_back(t); } return i; }
static void unwind(State& s, u64 obj, u64 type) {
  std::string where = trace(s);
  // phase 1: is there a handler at all? (uncaught exceptions terminate without unwinding)
  for (;;) {
    Frame* f = s.st.back(); Ins& c = f->fn->code[f->pc];
    if (c.op == I_CALL && c.invoke) {
      Ins& lp = f->fn->code[c.edges[1].pc]; u64 sel = 0; bool hit = false;
      if (lp.op != I_LPAD) { unsup(s, "landing pad"); }
      for (u64 t : lp.lpad) if (!t || derives(type, t)) { sel = typeId(t); hit = true; break; }
      if (hit || lp.cleanup) { takeEdge(s, c.edges[1]); Frame* g = s.top(); g->r[lp.dst] = V(obj); g->r[lp.dst + 1] = V(sel); g->pc = c.edges[1].pc + 1; return; }
    }
    if (s.st.size() == 1) { auto it = globName.find(type); error(s, "uncaught-exception", "uncaught exception of type " + (it == globName.end() ? std::string("?") : it->second) + "\n" + where); throw PathEnd{E_ERR}; }
    popFrame(s);
  }
}
static void pushCall(State& s, Fn* fn, const std::vector<SV>& args, Ins& in) {
  if (!fn->compiled) compile(fn);
  fn->used = true; fn->calls++;
  if (s.st.size() > optMaxDepth) { error(s, "stack-overflow", "call depth exceeded in " + fn->name); throw PathEnd{E_ERR}; }
  Frame* f = Frame::make(fn); f->stkBase = s.stk.n;
  size_t n = std::min<size_t>(args.size(), fn->nargs); for (size_t i = 0; i < n; i++) f->r[i] = args[i];
  for (size_t i = n; (int)i < fn->nargs; i++) f->r[i] = V(0);
  s.st.push_back(f);
  for (size_t k = 0; k + 1 < in.cases.size(); k += 2) { u64 p = allocStk(s, in.cases[k + 1]); u64 src = concretize(s, args[in.cases[k]], 64); copyMem(s, p, src, in.cases[k + 1]); s.top()->r[in.cases[k]] = V(p); }
}
static double bitsD(u64 v) { double d; memcpy(&d, &v, 8); return d; } static u64 dBits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float bitsF(u64 v) { float d; u32 x = v; memcpy(&d, &x, 4); return d; } static u64 fBits(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static void finishCall(State& s, Ins& in, const SV* ret, int n) { Frame* f = s.top(); for (int i = 0; i < n && in.dst >= 0 && i < in.retn; i++) f->r[in.dst + i] = ret[i]; if (in.invoke) takeEdge(s, in.edges[0]); else f->pc++; }
#include "handlers.inc"

static void intrinsic(State& s, Ins& in, std::vector<SV>& a) {
  SV ret = V(0); SV rets[2]; int n = in.retn ? 1 : 0; unsigned w = in.ws.empty() ? 64 : in.ws[0];
  auto bothK = [&]() { return !a[0].e && !a[1].e; };
  switch (in.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 len = concretize(s, a[2], in.ws[2]); if (!len) break; u64 d = concretize(s, a[0], 64), sr = concretize(s, a[1], 64); copyMem(s, d, sr, len); break; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 len = concretize(s, a[2], in.ws[2]); if (!len) break; u64 d = concretize(s, a[0], 64); setMem(s, d, a[1], len); break; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: ret = a[0]; break;
    case Intrinsic::objectsize: ret = V(~0ull & maskw(in.w)); break;
    case Intrinsic::is_constant: ret = V(0); break;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      bool sg = in.intr == Intrinsic::smax || in.intr == Intrinsic::smin, mx = in.intr == Intrinsic::umax || in.intr == Intrinsic::smax;
      Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr* lt = mk(sg ? SLT : ULT, x, y); ret = VE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)); break; }
    case Intrinsic::abs: { Expr* x = toE(a[0], w); ret = VE(mkIte(mk(SLT, x, K(0, w)), mk(SUB, K(0, w), x), x)); break; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      n = 2; 
      if (bothK()) { u64 x = a[0].v, y = a[1].v; __int128 r; bool sg = in.intr == Intrinsic::sadd_with_overflow || in.intr == Intrinsic::ssub_with_overflow || in.intr == Intrinsic::smul_with_overflow;
        __int128 X = sg ? (__int128)sx(x, w) : (__int128)x, Y = sg ? (__int128)sx(y, w) : (__int128)y;
        if (in.intr == Intrinsic::uadd_with_overflow || in.intr == Intrinsic::sadd_with_overflow) r = X + Y; else if (in.intr == Intrinsic::usub_with_overflow || in.intr == Intrinsic::ssub_with_overflow) r = X - Y; else r = X * Y;
        u64 lo = (u64)r & maskw(w); bool ov = sg ? r != (__int128)sx(lo, w) : (in.intr == Intrinsic::umul_with_overflow ? (unsigned __int128)X * (unsigned __int128)Y > (unsigned __int128)maskw(w) : r != (__int128)lo); rets[0] = V(lo); rets[1] = V(ov); }
      else { Expr *x = toE(a[0], w), *y = toE(a[1], w);
        switch (in.intr) {
          case Intrinsic::uadd_with_overflow: { Expr* r = mk(ADD, x, y); rets[0] = VE(r); rets[1] = VE(mk(ULT, r, x)); break; }
          case Intrinsic::usub_with_overflow: rets[0] = VE(mk(SUB, x, y)); rets[1] = VE(mk(ULT, x, y)); break;
          default: if (w <= 32) { bool sg = in.intr != Intrinsic::umul_with_overflow; Expr *X = sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), *Y = sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w);
              Expr* r = mk(in.intr == Intrinsic::sadd_with_overflow ? ADD : in.intr == Intrinsic::ssub_with_overflow ? SUB : MUL, X, Y); Expr* l = mkExtract(r, 0, w); rets[0] = VE(l); rets[1] = VE(mkNot(mkEq(r, sg ? mkSext(l, 2 * w) : mkZext(l, 2 * w)))); }
            else if (isK(y) && in.intr == Intrinsic::umul_with_overflow) { rets[0] = VE(mk(MUL, x, y)); rets[1] = VE(y->val ? mk(ULT, K(~0ull / y->val, 64), x) : K(0, 1)); }
            else if (in.intr == Intrinsic::sadd_with_overflow || in.intr == Intrinsic::ssub_with_overflow) { bool add = in.intr == Intrinsic::sadd_with_overflow; Expr* r = mk(add ? ADD : SUB, x, y); Expr* z = K(0, w); Expr *xs = mk(SLT, x, z), *ys = mk(SLT, y, z), *rs = mk(SLT, r, z); rets[0] = VE(r); rets[1] = VE(mk(AND, add ? mkEq(xs, ys) : mkNot(mkEq(xs, ys)), mkNot(mkEq(xs, rs)))); }
            else if (isK(y) && in.intr == Intrinsic::smul_with_overflow && (i64)y->val > 0) { rets[0] = VE(mk(MUL, x, y)); i64 k = (i64)y->val; rets[1] = VE(mk(OR, mk(SLT, K((u64)(INT64_MAX / k), 64), x), mk(SLT, x, K((u64)(INT64_MIN / k), 64)))); }
            else unsup(s, "wide overflow intrinsic"); } }
      finishCall(s, in, rets, 2); return; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { Expr *x = toE(a[0], w), *y = toE(a[1], w); if (in.intr == Intrinsic::usub_sat) ret = VE(mkIte(mk(ULT, x, y), K(0, w), mk(SUB, x, y))); else { Expr* r = mk(ADD, x, y); ret = VE(mkIte(mk(ULT, r, x), K(maskw(w), w), r)); } break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 k = concretize(s, a[2], w) % w; bool l = in.intr == Intrinsic::fshl; Expr *x = toE(a[0], w), *y = toE(a[1], w); if (!k) ret = l ? a[0] : a[1]; else ret = VE(l ? mk(OR, mk(SHL, x, K(k, w)), mk(LSHR, y, K(w - k, w))) : mk(OR, mk(SHL, x, K(w - k, w)), mk(LSHR, y, K(k, w)))); break; }
    case Intrinsic::ctpop: { if (!a[0].e) ret = V(__builtin_popcountll(a[0].v)); else { Expr* r = K(0, w); for (unsigned i = 0; i < w; i++) r = mk(ADD, r, mkZext(mkExtract(a[0].e, i, 1), w)); ret = VE(r); } break; }
    case Intrinsic::ctlz: { u64 v = concretize(s, a[0], w); ret = V(v ? __builtin_clzll(v) - (64 - w) : w); break; }
    case Intrinsic::cttz: { u64 v = concretize(s, a[0], w); ret = V(v ? __builtin_ctzll(v) : w); break; }
    case Intrinsic::bswap: { Expr* x = toE(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret = VE(r); break; }
    case Intrinsic::eh_typeid_for: ret = V(typeId(a[0].v)); break;
    case Intrinsic::stacksave: case Intrinsic::stackrestore: break;
    case Intrinsic::trap: error(s, "trap", "trap reached"); throw PathEnd{E_ERR};
    case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::pow: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::fmuladd: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::log2: case Intrinsic::exp2: case Intrinsic::copysign: case Intrinsic::powi: case Intrinsic::log10: {
      bool f32 = w == 32; double v[3]; for (size_t i = 0; i < a.size() && i < 3; i++) { u64 b = concretize(s, a[i], in.ws[i]); v[i] = in.ws[i] == 32 && !(in.intr == Intrinsic::powi && i == 1) ? bitsF(b) : (in.intr == Intrinsic::powi && i == 1) ? (double)(int)b : bitsD(b); }
      double r = 0; switch (in.intr) { case Intrinsic::fabs: r = fabs(v[0]); break; case Intrinsic::sqrt: r = f32 ? sqrtf(v[0]) : sqrt(v[0]); break; case Intrinsic::floor: r = floor(v[0]); break; case Intrinsic::ceil: r = ceil(v[0]); break; case Intrinsic::pow: case Intrinsic::powi: r = pow(v[0], v[1]); break; case Intrinsic::log: r = log(v[0]); break; case Intrinsic::log2: r = log2(v[0]); break; case Intrinsic::log10: r = log10(v[0]); break; case Intrinsic::exp: r = exp(v[0]); break; case Intrinsic::exp2: r = exp2(v[0]); break; case Intrinsic::trunc: r = trunc(v[0]); break; case Intrinsic::rint: r = rint(v[0]); break; case Intrinsic::round: r = round(v[0]); break; case Intrinsic::fmuladd: r = f32 ? (float)((float)(v[0]) * (float)v[1]) + (float)v[2] : v[0] * v[1] + v[2]; break; case Intrinsic::maxnum: r = fmax(v[0], v[1]); break; case Intrinsic::minnum: r = fmin(v[0], v[1]); break; case Intrinsic::copysign: r = copysign(v[0], v[1]); break; }
      ret = V(f32 ? fBits((float)r) : dBits(r)); break; }
    default: unsup(s, "intrinsic " + Intrinsic::getBaseName(in.intr).str());
  }
  finishCall(s, in, &ret, n);
}
static Expr* icmpE(unsigned p, Expr* a, Expr* b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mk(ULT, a, b); case CmpInst::ICMP_ULE: return mk(ULE, a, b); case CmpInst::ICMP_UGT: return mk(ULT, b, a); case CmpInst::ICMP_UGE: return mk(ULE, b, a); case CmpInst::ICMP_SLT: return mk(SLT, a, b); case CmpInst::ICMP_SLE: return mk(SLE, a, b); case CmpInst::ICMP_SGT: return mk(SLT, b, a); case CmpInst::ICMP_SGE: return mk(SLE, b, a); default: abort(); }
}
static bool icmpK(unsigned p, u64 a, u64 b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w); case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w); default: abort(); }
}
static bool fcmpK(unsigned p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) { case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true; case CmpInst::FCMP_OEQ: return !un && a == b; case CmpInst::FCMP_OGT: return !un && a > b; case CmpInst::FCMP_OGE: return !un && a >= b; case CmpInst::FCMP_OLT: return !un && a < b; case CmpInst::FCMP_OLE: return !un && a <= b; case CmpInst::FCMP_ONE: return !un && a != b; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b; case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return un || a != b; default: abort(); }
}
static volatile sig_atomic_t tick; static void onAlarm(int) { tick = 1; }
static void maybeSplit();
static double nextSplit;

static State** ctorSink = nullptr; // static constructors: receives the final state
// Executes s until its path ends (returns) ; forks go to `work`.
static void runState(State* sp) {
  State& s = *sp; End how = E_OK;
  try {
    for (;;) {
      Frame* f = s.top(); Fn* fn = f->fn; SV* R = f->r; const SV* C = fn->consts.data(); Ins* code = fn->code.data();
#define OPV(i) ((i) >= 0 ? R[i] : C[~(i)])
      // fast inner loop for the current frame; leaves on calls, returns and symbolic operations
      for (;;) {
        Ins& in = code[f->pc];
        if (++s.steps > optMaxSteps) { error(s, "step-limit", "path exceeded " + std::to_string(optMaxSteps) + " instructions"); throw PathEnd{E_LIMIT}; }
        if ((s.steps & 0xffff) == 0 || tick) { tick = 0; if (sh->stop || now() > sh->deadline) { __sync_add_and_fetch(&sh->timeouts, 1); throw PathEnd{E_SILENT}; } if (!inInit) maybeSplit(); if (f->rc > 1) break; }
        switch (in.op) {
          case I_BIN: {
            if (in.w == 128) { // two-limb integers
              SV al = OPV(in.a), ah = OPV(in.a >= 0 ? in.a + 1 : in.a - 1), bl = OPV(in.b), bh = OPV(in.b >= 0 ? in.b + 1 : in.b - 1);
              if (in.sub == AND || in.sub == OR || in.sub == XOR) { R[in.dst] = VE(mk((Op)in.sub, toE(al, 64), toE(bl, 64))); R[in.dst + 1] = VE(mk((Op)in.sub, toE(ah, 64), toE(bh, 64))); }
              else { if (al.e || ah.e || bl.e || bh.e || in.w2 != 1) { if (!bl.e && bl.v == 64 && in.w2 == 1 && (in.sub == SHL || in.sub == LSHR)) { if (in.sub == SHL) { R[in.dst] = V(0); R[in.dst + 1] = al; } else { R[in.dst] = ah; R[in.dst + 1] = V(0); } f->pc++; continue; } unsup(s, "symbolic 128-bit arithmetic"); }
                unsigned __int128 x = ((unsigned __int128)ah.v << 64) | al.v, y = ((unsigned __int128)bh.v << 64) | bl.v, r = 0;
                switch (in.sub) { case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case UDIV: if (!y) unsup(s, "div0"); r = x / y; break; case UREM: if (!y) unsup(s, "div0"); r = x % y; break; case SHL: r = x << (unsigned)y; break; case LSHR: r = x >> (unsigned)y; break; case ASHR: r = (unsigned __int128)((__int128)x >> (unsigned)y); break; default: unsup(s, "128-bit op " + std::to_string(in.sub) + " n" + std::to_string(in.n) + " w2 " + std::to_string(in.w2)); }
                R[in.dst] = V((u64)r); R[in.dst + 1] = V((u64)(r >> 64)); }
              f->pc++; continue; }
            bool again = false;
            for (int k = 0; k < in.n; k++) {
              const SV& a = OPV(in.a >= 0 ? in.a + k : in.a - k); const SV& b = OPV(in.b >= 0 ? in.b + k : in.b - k);
              if (in.sub >= UDIV && in.sub <= SREM) {
                Expr* z = simp(s, mkEq(toE(b, in.w), K(0, in.w)));
                if (isK(z, 1)) { error(s, "div-by-zero", "division by zero"); throw PathEnd{E_ERR}; }
                if (!isK(z)) { bool t = branchOn(s, z, nullptr); if (t) { error(s, "div-by-zero", "division by zero"); throw PathEnd{E_ERR}; } again = true; break; }
              }
              if (!a.e && !b.e) R[in.dst + k] = V(foldop((Op)in.sub, a.v, b.v, in.w)); else R[in.dst + k] = VE(mk((Op)in.sub, toE(a, in.w), toE(b, in.w)));
            }
            if (again) break;
            f->pc++; continue; }
          case I_ICMP: {
            if (in.w == 128) { SV al = OPV(in.a), ah = OPV(in.a >= 0 ? in.a + 1 : in.a - 1), bl = OPV(in.b), bh = OPV(in.b >= 0 ? in.b + 1 : in.b - 1); Expr* e = mk(AND, mkEq(toE(al, 64), toE(bl, 64)), mkEq(toE(ah, 64), toE(bh, 64))); if (in.sub == CmpInst::ICMP_EQ) R[in.dst] = VE(e); else if (in.sub == CmpInst::ICMP_NE) R[in.dst] = VE(mkNot(e)); else { if (al.e || ah.e || bl.e || bh.e) unsup(s, "128-bit compare"); unsigned __int128 x = ((unsigned __int128)ah.v << 64) | al.v, y = ((unsigned __int128)bh.v << 64) | bl.v; bool r; switch (in.sub) { case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; default: unsup(s, "128-bit signed compare"); r = false; } R[in.dst] = V(r); } f->pc++; continue; }
            for (int k = 0; k < in.n; k++) { const SV& a = OPV(in.a >= 0 ? in.a + k : in.a - k); const SV& b = OPV(in.b >= 0 ? in.b + k : in.b - k);
              if (!a.e && !b.e) R[in.dst + k] = V(icmpK(in.sub, a.v, b.v, in.w)); else R[in.dst + k] = VE(icmpE(in.sub, toE(a, in.w), toE(b, in.w))); }
            f->pc++; continue; }
          case I_FBIN: case I_FCMP: {
            bool sym = false; for (int k = 0; k < in.n; k++) { const SV& a = OPV(in.a >= 0 ? in.a + k : in.a - k); const SV& b = OPV(in.b >= 0 ? in.b + k : in.b - k); if (a.e || b.e) { sym = true; } }
            std::vector<u64> av(in.n), bv(in.n);
            for (int k = 0; k < in.n; k++) { SV a = OPV(in.a >= 0 ? in.a + k : in.a - k), b = OPV(in.b >= 0 ? in.b + k : in.b - k); av[k] = sym ? concretize(s, a, in.w) : a.v; bv[k] = sym ? concretize(s, b, in.w) : b.v; }
            if (sym) { f = s.top(); R = f->r; }
            for (int k = 0; k < in.n; k++) {
              if (in.op == I_FCMP) { R[in.dst + k] = V(in.w == 64 ? fcmpK(in.sub, bitsD(av[k]), bitsD(bv[k])) : fcmpK(in.sub, bitsF(av[k]), bitsF(bv[k]))); continue; }
              if (in.w == 64) { double x = bitsD(av[k]), y = bitsD(bv[k]), r; switch (in.sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; default: r = fmod(x, y); } R[in.dst + k] = V(dBits(r)); }
              else { float x = bitsF(av[k]), y = bitsF(bv[k]), r; switch (in.sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; default: r = fmodf(x, y); } R[in.dst + k] = V(fBits(r)); } }
            f->pc++; continue; }
          case I_FNEG: { for (int k = 0; k < in.n; k++) { const SV& a = OPV(in.a >= 0 ? in.a + k : in.a - k); R[in.dst + k] = VE(mk(XOR, toE(a, in.w), K(1ull << (in.w - 1), in.w))); } f->pc++; continue; }
          case I_CAST: {
            if (in.w == 128 || in.w2 == 128) {
              SV a = OPV(in.a); if (in.w == 128 && in.w2 != 128) { Expr* e = toE(a, in.w2); if (in.sub == Instruction::SExt) { Expr* l = mkSext(e, 64); R[in.dst] = VE(l); R[in.dst + 1] = VE(mk(ASHR, l, K(63, 64))); } else { R[in.dst] = VE(mkZext(e, 64)); R[in.dst + 1] = V(0); } }
              else if (in.w2 == 128 && in.w != 128) { R[in.dst] = VE(mkExtract(toE(a, 64), 0, in.w)); } else unsup(s, "wide cast");
              f->pc++; continue; }
            bool brk = false;
            for (int k = 0; k < in.n; k++) {
              SV a = OPV(in.a >= 0 ? in.a + k : in.a - k); SV r;
              switch (in.sub) {
                case Instruction::Trunc: r = a.e ? VE(mkExtract(a.e, 0, in.w)) : V(a.v & maskw(in.w)); break;
                case Instruction::ZExt: r = a.e ? VE(mkZext(a.e, in.w)) : a; break;
                case Instruction::SExt: r = a.e ? VE(mkSext(a.e, in.w)) : V((u64)sx(a.v, in.w2) & maskw(in.w)); break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: { r = a; if (in.w < in.w2) r = a.e ? VE(mkExtract(a.e, 0, in.w)) : V(a.v & maskw(in.w)); else if (in.w > in.w2 && a.e) r = VE(mkZext(a.e, in.w)); break; }
                case Instruction::BitCast: r = a; break;
                default: {
                  u64 v = a.v; if (a.e) { v = concretize(s, a, in.w2); f = s.top(); R = f->r; brk = true; }
                  switch (in.sub) {
                    case Instruction::FPToSI: r = V((u64)(i64)(in.w2 == 64 ? bitsD(v) : bitsF(v)) & maskw(in.w)); break;
                    case Instruction::FPToUI: r = V((u64)(in.w2 == 64 ? bitsD(v) : bitsF(v)) & maskw(in.w)); break;
                    case Instruction::SIToFP: r = V(in.w == 64 ? dBits((double)sx(v, in.w2)) : fBits((float)sx(v, in.w2))); break;
                    case Instruction::UIToFP: r = V(in.w == 64 ? dBits((double)v) : fBits((float)v)); break;
                    case Instruction::FPTrunc: r = in.w == 64 ? V(v) : V(fBits((float)bitsD(v))); break;
                    case Instruction::FPExt: r = in.w2 == 64 ? V(v) : V(dBits((double)bitsF(v))); break;
                    default: unsup(s, "cast"); } } }
              R[in.dst + k] = r; }
            f->pc++; if (brk) break; continue; }
          case I_LOAD: {
            SV a = OPV(in.a);
            if (!a.e) { if (in.leaves.size() == 1) R[in.dst] = loadC(s, a.v, in.leaves[0].w); else for (size_t k = 0; k < in.leaves.size(); k++) R[in.dst + k] = loadC(s, a.v + in.leaves[k].off, in.leaves[k].w); f->pc++; continue; }
            if (in.leaves.size() == 1) { SV v = loadV(s, a, in.leaves[0].w); f = s.top(); f->r[in.dst] = v; }
            else { u64 p = concretize(s, a, 64); f = s.top(); for (size_t k = 0; k < in.leaves.size(); k++) f->r[in.dst + k] = loadC(s, p + in.leaves[k].off, in.leaves[k].w); }
            f->pc++; break; }
          case I_STORE: {
            SV p = OPV(in.b);
            if (!p.e) { for (size_t k = 0; k < in.leaves.size(); k++) storeC(s, p.v + in.leaves[k].off, OPV(in.a >= 0 ? in.a + (int)k : in.a - (int)k), in.leaves[k].w); f->pc++; continue; }
            if (in.leaves.size() == 1) { SV v = OPV(in.a); storeV(s, p, v, in.leaves[0].w); f = s.top(); }
            else { u64 q = concretize(s, p, 64); f = s.top(); R = f->r; for (size_t k = 0; k < in.leaves.size(); k++) storeC(s, q + in.leaves[k].off, OPV(in.a >= 0 ? in.a + (int)k : in.a - (int)k), in.leaves[k].w); }
            f->pc++; break; }
          case I_GEP: {
            SV p = OPV(in.a);
            if (!p.e) p.v += in.imm; else if (in.imm) p = VE(mk(ADD, p.e, K(in.imm, 64)));
            for (size_t k = 0; k < in.gep.size(); k++) { const SV& ix = OPV(in.gep[k].first); u64 sc = in.gep[k].second; unsigned w = in.gepw[k];
              if (!ix.e && !p.e) p.v += sc * (u64)sx(ix.v, w); else { Expr* e = mkSext(toE(ix, w), 64); if (sc != 1) e = mk(MUL, e, K(sc, 64)); p = VE(mk(ADD, toE(p, 64), e)); } }
            R[in.dst] = p; f->pc++; continue; }
          case I_ALLOCA: { SV n = OPV(in.a); u64 c = concretize(s, n, in.w2); u64 p = allocStk(s, in.imm * c); f = s.top(); f->r[in.dst] = V(p); f->pc++; if (n.e) break; continue; }
          case I_BR: { const Edge& e = in.edges[0]; if (e.inter) { takeEdge(s, e); } else { for (auto& c : e.cp) R[c.dst] = c.src >= 0 ? R[c.src] : C[~c.src]; f->pc = e.pc; } continue; }
          case I_CONDBR: {
            const SV& c = OPV(in.a);
            if (!c.e) { const Edge& e = in.edges[c.v ? 0 : 1]; if (e.inter) takeEdge(s, e); else { for (auto& x : e.cp) R[x.dst] = x.src >= 0 ? R[x.src] : C[~x.src]; f->pc = e.pc; } continue; }
            Ins* ip = &in; Expr* ce = c.e; bool mine = branchOn(s, ce, [ip](State& n, bool v) { takeEdge(n, ip->edges[v ? 0 : 1]); });
            takeEdge(s, ip->edges[mine ? 0 : 1]); break; }
          case I_SWITCH: {
            SV c = OPV(in.a);
            if (c.e) { Expr* e = simp(s, c.e); if (isK(e)) c = V(e->val); else { auto it = s.known.find(e); if (it != s.known.end()) c = V(it->second); } }
            if (!c.e) { size_t k = 0; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.v) { k = i + 1; break; } takeEdge(s, in.edges[k]); f = s.top(); continue; }
            // symbolic: test each case in turn
            bool done = false; Ins* ip = &in;
            for (size_t i = 0; i < ip->cases.size() && !done; i++) { Expr* eq = mkEq(c.e, K(ip->cases[i], ip->w)); bool t = branchOn(s, eq, nullptr); if (t) { takeEdge(s, ip->edges[i + 1]); done = true; } }
            if (!done) takeEdge(s, ip->edges[0]);
            break; }
          case I_SELECT: {
            const SV c0 = OPV(in.a);
            for (int k = 0; k < in.n; k++) { const SV c = in.sub ? OPV(in.a >= 0 ? in.a + k : in.a - k) : c0; const SV& x = OPV(in.b >= 0 ? in.b + k : in.b - k); const SV& y = OPV(in.c >= 0 ? in.c + k : in.c - k);
              if (!c.e) R[in.dst + k] = c.v ? x : y; else { Expr* ce = simp(s, c.e); if (isK(ce)) R[in.dst + k] = ce->val ? x : y; else R[in.dst + k] = VE(mkIte(ce, toE(x, in.ws[k]), toE(y, in.ws[k]))); } }
            f->pc++; continue; }
          case I_COPY: { if (in.copies.size() == 1) { auto& c = in.copies[0]; R[c.dst] = OPV(c.src); } else { std::vector<SV> t; for (auto& c : in.copies) t.push_back(OPV(c.src)); for (size_t i = 0; i < t.size(); i++) R[in.copies[i].dst] = t[i]; } f->pc++; continue; }
          case I_EXTDYN: { u64 k = concretize(s, OPV(in.b), in.w2); f = s.top(); R = f->r; if (k >= (u64)in.n) k = 0; R[in.dst] = OPV(in.a >= 0 ? in.a + (int)k : in.a - (int)k); f->pc++; break; }
          case I_RMW: {
            SV p = OPV(in.a), b = OPV(in.b); u64 q = concretize(s, p, 64); SV old = loadC(s, q, in.w); Expr *x = toE(old, in.w), *y = toE(b, in.w); SV nv;
            switch (in.sub) { case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = VE(mk(ADD, x, y)); break; case AtomicRMWInst::Sub: nv = VE(mk(SUB, x, y)); break; case AtomicRMWInst::And: nv = VE(mk(AND, x, y)); break; case AtomicRMWInst::Or: nv = VE(mk(OR, x, y)); break; default: unsup(s, "atomicrmw"); }
            storeC(s, q, nv, in.w); f = s.top(); f->r[in.dst] = old; f->pc++; break; }
          case I_CMPXCHG: { SV p = OPV(in.a), b = OPV(in.b), c = OPV(in.c); u64 q = concretize(s, p, 64); SV old = loadC(s, q, in.w); Expr* eq = mkEq(toE(old, in.w), toE(b, in.w)); storeC(s, q, VE(mkIte(eq, toE(c, in.w), toE(old, in.w))), in.w); f = s.top(); f->r[in.dst] = old; f->r[in.dst + 1] = VE(eq); f->pc++; break; }
          case I_RET: {
            SV rv[64]; int n = in.n; if (n > 64) unsup(s, "large return"); for (int k = 0; k < n; k++) rv[k] = OPV(in.a >= 0 ? in.a + k : in.a - k);
            popFrame(s);
            if (s.st.empty()) throw PathEnd{E_OK};
            Frame* g = s.top(); finishCall(s, g->fn->code[g->pc], rv, n); break; }
          case I_CALL: {
            std::vector<SV> args; args.reserve(in.args.size()); for (int o : in.args) args.push_back(OPV(o));
            if (in.intr) { intrinsic(s, in, args); break; }
            Fn* cf = in.callee;
            if (!cf) { u64 fp = concretize(s, OPV(in.a), 64); u64 ix = (fp - FNBASE) / 16; if (fp < FNBASE || ix >= fnByIdx.size() || (fp & 15)) { error(s, "memory", fp < 0x1000 ? "call through null pointer" : "call through invalid function pointer"); throw PathEnd{E_ERR}; } cf = fnByIdx[ix]; }
            if (!cf->hInit) { cf->hInit = true; cf->h = findHandler(cf->name); }
            if (cf->h) { SV ret = V(0); if (cf->h(s, in, args, ret)) finishCall(s, in, &ret, in.retn ? 1 : 0); break; }
            if (!cf->defined) unsup(s, "external function " + cf->name);
            pushCall(s, cf, args, in); break; }
          case I_UNREACH: { error(s, "unreachable", "undefined behaviour: control reached a point the compiler marked unreachable (e.g. no return value)"); throw PathEnd{E_ERR}; }
          case I_LPAD: unsup(s, "landingpad fallthrough");
          case I_RESUME: { u64 o = OPV(in.a).v; u64 t = 0; for (auto& e : s.exc) if (e.obj == o) t = e.type; unwind(s, o, t); break; }
          case I_NOP: f->pc++; continue;
          default: { std::string d; raw_string_ostream os(d); in.I->print(os); unsup(s, "instruction " + os.str()); }
        }
        break;
      }
    }
  } catch (PathEnd& e) { how = e.e; }
  if (ctorSink) { if (how == E_OK) { *ctorSink = sp; return; } delete sp; return; }
  endPath(sp, how); delete sp;
}
static void flushStats() {
  __sync_add_and_fetch(&sh->steps, lSteps); lSteps = 0; __sync_add_and_fetch(&sh->forks, lForks); lForks = 0; __sync_add_and_fetch(&sh->queries, S.queries); S.queries = 0; __sync_add_and_fetch(&sh->qsat, S.nsat); S.nsat = 0; __sync_add_and_fetch(&sh->qunsat, S.nunsat); S.nunsat = 0; __sync_add_and_fetch(&sh->obligations, lObl); lObl = 0;
  union { double d; u64 u; } o, n; volatile u64* p = (volatile u64*)&sh->stime; do { o.u = *p; n.d = o.d + S.time; } while (!__sync_bool_compare_and_swap(p, o.u, n.u)); S.time = 0;
}
static std::vector<pid_t> kids;
static void emitFns(); static void markFns();
static bool isChild = false;
static void maybeSplit() {
  if (work.size() < 2) return; 
  double t = now(); if (t < nextSplit) return; nextSplit = t + 0.05;
  int a = sh->active; if (a >= (int)optJobs) return;
  if (!__sync_bool_compare_and_swap(&sh->active, a, a + 1)) return;
  pid_t p = fork();
  if (p < 0) { __sync_sub_and_fetch(&sh->active, 1); return; }
  __sync_add_and_fetch(&sh->splits, 1);
  // the oldest states are nearest the root: split alternately so both halves hold large subtrees
  std::vector<State*> keep, give; for (size_t i = 0; i < work.size(); i++) (i % 2 ? keep : give).push_back(work[i]);
  if (p == 0) { isChild = true; kids.clear(); lSteps = lForks = lObl = 0; lPaths = 0; S.queries = S.nsat = S.nunsat = 0; S.time = 0; errSeen.clear(); work = give; 
    struct itimerval; throw Retry{}; }
  kids.push_back(p); work = keep;
}
static void explore() {
  for (;;) {
    try {
      while (!work.empty()) {
        if (sh->stop || now() > sh->deadline) { __sync_add_and_fetch(&sh->pending_lost, work.size()); work.clear(); break; }
        maybeSplit();
        State* s = work.back(); work.pop_back(); runState(s);
      }
      break;
    } catch (Retry&) { /* child of a split: continue with its share; the in-progress state belongs to the parent */ }
  }
}
static void prep(const char* in, const char* out, const std::vector<std::string>& keep);
int main(int argc, char** argv) {
  std::string bc; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto val = [&](const char* k) -> const char* { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? argv[i] + n : nullptr; };
    if (auto v = val("--entry=")) optEntry = v; else if (auto v = val("--param=")) { const char* q = strchr(v, '='); if (q) params[std::string(v, q - v)] = q + 1; } else if (auto v = val("--out=")) optOut = v; else if (auto v = val("--time=")) optTime = atof(v); else if (auto v = val("--steps=")) optMaxSteps = strtoull(v, 0, 10); else if (auto v = val("--jobs=")) optJobs = atoi(v); else if (auto v = val("--maxerr=")) optMaxErr = atoi(v); else if (auto v = val("--enum=")) optEnum = atoi(v); else if (auto v = val("--samples=")) optSamples = atoi(v); else if (a == "--no-ite-loads") optIteLoads = false; else if (a == "--ite-stores") optIteStores = true; else if (a == "--verbose") optVerbose = true; else if (a == "--profile") optProfile = true; else if (auto v = val("--depth=")) optMaxDepth = atoi(v); else pos.push_back(a); }
  if (pos.size() >= 3 && pos[0] == "prep") { prep(pos[1].c_str(), pos[2].c_str(), std::vector<std::string>(pos.begin() + 3, pos.end())); return 0; }
  if (pos.empty()) { fprintf(stderr, "usage: symex [opts] module.bc | symex prep in.bc out.bc entry...\n"); return 3; }
  double t0 = now();
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 1u << 30; rl.rlim_cur = 512u << 20; setrlimit(RLIMIT_STACK, &rl);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof(Shared)); sh->active = 1;
  outfd = open(optOut.c_str(), O_WRONLY | O_CREAT | O_APPEND | (optOut == "/dev/stdout" ? 0 : O_TRUNC), 0644);
  SMDiagnostic err; M = parseIRFile(pos[0], err, LC); if (!M) { err.print("symex", errs()); return 3; } DL = &M->getDataLayout();
  S.init();
  init0 = new State; init0->heap.push(nullptr); { Model* m = new Model; m->id = ~0ull >> 1; m->rc = 0; init0->setModel(m); }
  inInit = true;
  for (auto& F : *M) if (!F.isIntrinsic()) getFn(&F);
  for (auto& G : M->globals()) { Type* t = G.getValueType(); u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 0; bool ext = G.isDeclaration(); if (ext) sz = std::max<u64>(sz, 4096); u64 a = allocHeap(*init0, sz ? sz : 1, OF_ZERO | OF_GLOBAL | (ext ? OF_OPAQUE : 0)); gaddr[&G] = a; globName[a] = G.getName().str(); }
  for (auto& G : M->globals()) if (G.hasInitializer()) initGlobal(*init0, gaddr[&G], G.getInitializer());
  for (auto& G : M->globals()) if (G.isConstant() && !G.isDeclaration()) init0->heap.wr(idOf(gaddr[&G]))->flags |= OF_CONST;
  // iostream objects: their virtual base lies right behind the vtable pointer (headers set flags and widths inline)
  for (auto n : {"_ZSt4cout", "_ZSt4cerr"}) if (auto* g = M->getNamedGlobal(n)) { u64 vt = allocHeap(*init0, 64, OF_ZERO | OF_GLOBAL); storeC(*init0, vt, V(8), 64); storeC(*init0, gaddr[g], V(vt + 24), 64); }
  sh->deadline = now() + optTime;
  // static constructors
  for (auto n : {"stdin", "stdout", "stderr"}) if (auto* g = M->getNamedGlobal(n)) if (g->isDeclaration()) storeC(*init0, gaddr[g], V(allocHeap(*init0, 256, OF_ZERO | OF_GLOBAL)), 64);
  if (auto* GC = M->getNamedGlobal("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer())) for (auto& op : CA->operands()) { auto* cs = cast<ConstantStruct>(op); auto* cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (!cf) continue;
    Fn* f = getFn(cf); if (!f->compiled) compile(f); f->used = true; State* s = new State(*init0); Frame* fr = Frame::make(f); fr->stkBase = s->stk.n; s->st.push_back(fr); s->steps = 0;
    State* fin = nullptr; ctorSink = &fin; runState(s); ctorSink = nullptr; if (!fin || !work.empty()) die("static constructor did not finish: " + f->name); delete init0; init0 = fin; }
  inInit = false;
  Function* E = M->getFunction(optEntry); if (!E || E->isDeclaration()) die("no entry " + optEntry);
  Fn* ef = getFn(E); compile(ef); ef->used = true; State* s0 = new State(*init0); Frame* fr = Frame::make(ef); fr->stkBase = s0->stk.n; s0->st.push_back(fr); s0->steps = 0; work.push_back(s0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sigaction(SIGALRM, &sa, nullptr);
  sh->deadline = now() + optTime;
  explore();
  flushStats(); markFns();
  __sync_sub_and_fetch(&sh->active, 1);
  for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { emit("{\"type\":\"crash\",\"status\":" + std::to_string(st) + "}"); if (WIFSIGNALED(st)) __sync_sub_and_fetch(&sh->active, 1); } }
  if (isChild) _exit(0);
  std::string rs; for (size_t i = 0; i < 256 && sh->rname[i][0]; i++) rs += (i ? "," : "") + jstr((char*)sh->rname[i]) + ":" + std::to_string(sh->reach[i]);
  emitFns();
  static char b[20000]; snprintf(b, sizeof b, "{\"type\":\"done\",\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"assume_cut\":%llu,\"limited\":%llu,\"unsupported\":%llu,\"errors\":%llu,\"timeout_paths\":%llu,\"pending\":%llu,\"splits\":%llu,\"obligations\":%llu,\"undef_branches\":%llu,\"stopped\":%d,\"reach\":{%s}}",
    (unsigned long long)sh->paths, (unsigned long long)sh->forks, (unsigned long long)sh->steps, (unsigned long long)sh->queries, (unsigned long long)sh->qsat, (unsigned long long)sh->qunsat, (unsigned long long)sh->qunk, sh->stime, now() - t0, (unsigned long long)sh->assumes, (unsigned long long)sh->limited, (unsigned long long)sh->unsup, (unsigned long long)sh->nerr, (unsigned long long)sh->timeouts, (unsigned long long)sh->pending_lost, (unsigned long long)sh->splits, (unsigned long long)sh->obligations, (unsigned long long)sh->undefbr, sh->stop, rs.c_str());
  emit(b);
  _exit(0);
}
static void markFns() { for (size_t i = 0; i < fnByIdx.size() && i < 32768; i++) if (fnByIdx[i]->used) sh->fnUsed[i] = 1; if (optProfile) for (auto* f : fnByIdx) if (f->forks > 20) fprintf(stderr, "forks %llu %s\n", (unsigned long long)f->forks, f->name.c_str()); if (optProfile) for (auto& k : forkLocs) if (k.second > 20) fprintf(stderr, "forkloc %llu %s\n", (unsigned long long)k.second, k.first.c_str()); }
static void emitFns() { std::string l = "{\"type\":\"functions\",\"names\":["; bool first = true; for (size_t i = 0; i < fnByIdx.size() && i < 32768; i++) if (sh->fnUsed[i]) { if (!first) l += ","; first = false; l += jstr(fnByIdx[i]->name); } emit(l + "]}"); }
static void prep(const char* in, const char* out, const std::vector<std::string>& keep) {
  SMDiagnostic err; M = parseIRFile(in, err, LC); if (!M) { err.print("symex", errs()); _exit(3); } DL = &M->getDataLayout();
  for (auto& F : *M) { if (!F.isDeclaration() && isStubbed(F.getName().str())) { F.deleteBody(); F.setComdat(nullptr); } }
  for (auto& A : make_early_inc_range(M->aliases())) { if (auto* f = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) if (f->isDeclaration()) { A.replaceAllUsesWith(f); A.eraseFromParent(); } }
  // make compiler-inserted unreachable points (missing returns) observable
  auto* ut = FunctionType::get(Type::getVoidTy(LC), false); auto uf = M->getOrInsertFunction("sym_unreachable", ut);
  for (auto& F : *M) for (auto& B : F) if (auto* U = dyn_cast<UnreachableInst>(B.getTerminator())) { Instruction* p = U->getPrevNonDebugInstruction(); if (auto* c = dyn_cast_or_null<CallBase>(p)) if (c->doesNotReturn()) continue; CallInst* ci = CallInst::Create(uf, "", U); ci->setDebugLoc(U->getDebugLoc()); }
  // one definition of every function so that linkage does not get in the way of optimisation
  for (auto& F : *M) { if (F.isDeclaration()) continue; bool k = F.getName().startswith("h_"); for (auto& n : keep) if (F.getName() == n) k = true; if (k) { F.setLinkage(GlobalValue::ExternalLinkage); continue; } F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); }
  for (auto& G : M->globals()) if (!G.isDeclaration() && !G.getName().startswith("llvm.")) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); }
  { // drop everything the entry points cannot reach before optimising
    LoopAnalysisManager L; FunctionAnalysisManager F; CGSCCAnalysisManager C; ModuleAnalysisManager A; PassBuilder B; B.registerModuleAnalyses(A); B.registerCGSCCAnalyses(C); B.registerFunctionAnalyses(F); B.registerLoopAnalyses(L); B.crossRegisterProxies(L, F, C, A);
    ModulePassManager P0; P0.addPass(GlobalDCEPass()); P0.run(*M, A); }
  PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.MergeFunctions = false;
  PassBuilder PB(nullptr, pto); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  FAM.registerPass([&] { TargetLibraryInfoImpl t(Triple(M->getTargetTriple())); t.disableAllFunctions(); return TargetLibraryAnalysis(t); });
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2); MPM.addPass(GlobalDCEPass());
  MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream os(out, ec); extern void writeBC(Module&, raw_ostream&); writeBC(*M, os);
}
#include <llvm/Bitcode/BitcodeWriter.h>
void writeBC(Module& m, raw_ostream& os) { WriteBitcodeToFile(m, os); }
