#include <cstring>
#include "module.hpp"
#include <llvm/Support/raw_ostream.h>
// console output has no effect on the checked behaviour: stream operations are no-ops even where the library header defines them
static bool isStreamFn(const std::string &n) {
  for (const char *p : {"_ZNSo", "_ZStlsI", "_ZSt4endlI", "_ZSt5flushI", "_ZSt16__ostream_insert", "_ZNSt9basic_iosI", "_ZNKSt9basic_iosI", "_ZNKSt5ctypeI", "_ZNSt13basic_ostreamI", "_ZSt4endsI", "_ZStlsIwS", "_ZNSt14basic_ofstreamI", "_ZNSt7__cxx1119basic_ostringstreamI", "_ZNKSt7__cxx1119basic_ostringstreamI"}) if (!n.compare(0, strlen(p), p)) return true;
  return false;
}
using namespace llvm;

void Mod::load(const char *path) {
  SMDiagnostic err; M = parseIRFile(path, err, ctx);
  if (!M) { err.print("symex", errs()); exit(2); }
  DL = &M->getDataLayout();
  u64 id = firstGlobal;
  for (auto &G : M->globals()) { gid[&G] = id++; globals.push_back(&G); }
  nextObj = id;
  for (auto &F : *M) funcIndex(&F);
}
int Mod::funcIndex(Function *F) {
  auto it = fidx.find(F); if (it != fidx.end()) return it->second;
  Func *f = new Func(); f->F = F; f->name = F->getName().str(); f->pretty = demangle(f->name); f->defined = !F->isDeclaration() && !isStreamFn(f->name);
  int i = (int)funcs.size(); funcs.push_back(f); fidx[F] = i; fbyname[f->name] = i; return i;
}
void Mod::flatten(Type *T, std::vector<Type*> &out) {
  if (T->isVoidTy()) return;
  if (auto *S = dyn_cast<StructType>(T)) { for (auto *E : S->elements()) flatten(E, out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { for (u64 i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), out); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { for (u64 i = 0; i < V->getNumElements(); i++) flatten(V->getElementType(), out); return; }
  out.push_back(T);
}
u64 Mod::constScalar(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) return CI->getValue().getLoBits(64).getZExtValue(); return CI->getZExtValue(); }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    if (CF->getType()->isX86_FP80Ty()) { bool li; APFloat f = CF->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return f.bitcastToAPInt().getZExtValue(); }
    return CF->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto *G = dyn_cast<GlobalVariable>(C)) return objAddr(gid.at(G));
  if (auto *F = dyn_cast<Function>(C)) return objAddr(funcObjId) + 16 * (u64)funcIndex(const_cast<Function*>(F));
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constScalar(A->getAliasee());
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); auto *GO = cast<GEPOperator>(CE);
      if (!GO->accumulateConstantOffset(*DL, off)) break;
      return constScalar(cast<Constant>(GO->getPointerOperand())) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return constScalar(CE->getOperand(0));
    case Instruction::Trunc: return constScalar(CE->getOperand(0)) & maskw(widthOf(CE->getType()));
    case Instruction::Sub: return (constScalar(CE->getOperand(0)) - constScalar(CE->getOperand(1))) & maskw(widthOf(CE->getType()));
    case Instruction::Add: return (constScalar(CE->getOperand(0)) + constScalar(CE->getOperand(1))) & maskw(widthOf(CE->getType()));
    default: break;
    }
  }
  errs() << "unsupported constant: " << *C << "\n"; return 0;
}
void Mod::constFlat(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    u64 n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (u64 i = 0; i < n; i++) { Constant *E = C->getAggregateElement((unsigned)i); constFlat(E, out); }
    return;
  }
  out.push_back(VC(constScalar(C)));
}

namespace {
struct Tr {
  Mod &m; Func &f; std::unordered_map<const llvm::Value*, int> slot; std::unordered_map<const BasicBlock*, i32> bbpc;
  std::map<u64, i32> constCache;
  Tr(Mod &m, Func &f) : m(m), f(f) {}
  i32 cst(u64 v) { auto it = constCache.find(v); if (it != constCache.end()) return it->second; f.consts.push_back(VC(v)); i32 r = ~(i32)(f.consts.size() - 1); constCache[v] = r; return r; }
  std::vector<i32> flat(const llvm::Value *V) {
    std::vector<i32> r;
    if (auto *C = dyn_cast<Constant>(V)) { std::vector<Val> o; m.constFlat(C, o); for (auto &x : o) r.push_back(cst(x.v)); return r; }
    int s = slot.at(V), n = m.nscal(V->getType()); for (int i = 0; i < n; i++) r.push_back(s + i); return r;
  }
  i32 op(const llvm::Value *V) { if (auto *C = dyn_cast<Constant>(V)) return cst(m.constScalar(C)); return slot.at(V); }
  int aggIndex(Type *T, ArrayRef<unsigned> idx) {
    int off = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) off += m.nscal(S->getElementType(k)); T = S->getElementType(i); }
      else { auto *A = cast<ArrayType>(T); off += (int)i * m.nscal(A->getElementType()); T = A->getElementType(); }
    }
    return off;
  }
  int mkEdge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = -1;
    for (auto &P : to->phis()) {
      auto *in = P.getIncomingValueForBlock(from); auto src = flat(in); int d = slot.at(&P);
      for (size_t i = 0; i < src.size(); i++) e.copies.push_back({src[i], d + (int)i});
    }
    f.edges.push_back(e); fix.push_back({(int)f.edges.size() - 1, to}); return (int)f.edges.size() - 1;
  }
  std::vector<std::pair<int, const BasicBlock*>> fix;
  Inst &emit(u8 o, const Instruction *I) { f.code.push_back(Inst()); Inst &n = f.code.back(); memset(&n, 0, sizeof n); n.op = o; n.I = I; n.dst = -1; return n; }
  void run();
};
}

static void scalOffsets(Mod &m, Type *T, u64 base, std::vector<std::pair<Type*, u64>> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = m.DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) scalOffsets(m, S->getElementType(i), base + L->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = m.DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) scalOffsets(m, A->getElementType(), base + i * es, out); return; }
  if (auto *A = dyn_cast<FixedVectorType>(T)) { u64 es = m.DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) scalOffsets(m, A->getElementType(), base + i * es, out); return; }
  out.push_back({T, base});
}

void Tr::run() {
  Function &F = *f.F; int ns = 0;
  for (auto &A : F.args()) { slot[&A] = ns; ns += m.nscal(A.getType()); }
  f.nargsSlots = ns;
  { std::vector<Type*> v; m.flatten(F.getReturnType(), v); for (auto *t : v) f.retW.push_back(m.widthOf(t)); }
  for (auto &B : F) for (auto &I : B) { int n = I.getType()->isVoidTy() ? 0 : m.nscal(I.getType()); if (n) { slot[&I] = ns; ns += n; } }
  int tmp = ns; // scratch slot for GEP on store etc.
  ns += 1;
  for (auto &B : F) {
    bbpc[&B] = (i32)f.code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
        auto id = II->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::var_annotation) continue;
      }
      int d = slot.count(&I) ? slot[&I] : -1;
      switch (I.getOpcode()) {
#define BIN(L, O) case Instruction::L: { \
        if (I.getType()->isVectorTy()) { auto A_ = flat(I.getOperand(0)), B_ = flat(I.getOperand(1)); int w_ = m.widthOf(I.getType()->getScalarType()); for (size_t q = 0; q < A_.size(); q++) { auto &n = emit(O, &I); n.dst = d + (int)q; n.a = A_[q]; n.b = B_[q]; n.w = w_; } break; } \
        auto &n = emit(O, &I); n.dst = d; n.w = m.widthOf(I.getType()); i32 a_ = op(I.getOperand(0)), b_ = op(I.getOperand(1)); n.a = a_; n.b = b_; break; }
      BIN(Add, O_ADD) BIN(Sub, O_SUB) BIN(Mul, O_MUL) BIN(UDiv, O_UDIV) BIN(SDiv, O_SDIV) BIN(URem, O_UREM) BIN(SRem, O_SREM)
      BIN(And, O_AND) BIN(Or, O_OR) BIN(Xor, O_XOR) BIN(Shl, O_SHL) BIN(LShr, O_LSHR) BIN(AShr, O_ASHR)
      BIN(FAdd, O_FADD) BIN(FSub, O_FSUB) BIN(FMul, O_FMUL) BIN(FDiv, O_FDIV) BIN(FRem, O_FREM)
      case Instruction::FNeg: { auto &n = emit(O_FNEG, &I); n.dst = d; n.w = m.widthOf(I.getType()); n.a = op(I.getOperand(0)); break; }
      case Instruction::ICmp: case Instruction::FCmp: { auto *C = cast<CmpInst>(&I); auto &n = emit(I.getOpcode() == Instruction::ICmp ? O_ICMP : O_FCMP, &I); n.dst = d; n.w = m.widthOf(C->getOperand(0)->getType()); n.pred = C->getPredicate(); n.a = op(C->getOperand(0)); n.b = op(C->getOperand(1)); break; }
      case Instruction::Select: { auto A_ = flat(I.getOperand(1)), B_ = flat(I.getOperand(2)); i32 c_ = op(I.getOperand(0)); std::vector<Type*> ts; m.flatten(I.getType(), ts);
        for (size_t q = 0; q < A_.size(); q++) { auto &n = emit(O_SELECT, &I); n.dst = d + (int)q; n.w = m.widthOf(ts[q]); n.a = A_[q]; n.b = B_[q]; n.c = c_; } break; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { auto &n = emit(I.getOpcode() == Instruction::Trunc ? O_ITRUNC : I.getOpcode() == Instruction::ZExt ? O_ZEXT : O_SEXT, &I); n.dst = d; n.w = m.widthOf(I.getType()); n.w2 = m.widthOf(I.getOperand(0)->getType()); n.a = op(I.getOperand(0)); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { int w2 = m.widthOf(I.getOperand(0)->getType()), w = m.widthOf(I.getType()); auto &n = emit(w == w2 ? O_MOV : w < w2 ? O_ITRUNC : O_ZEXT, &I); n.dst = d; n.w = w; n.w2 = w2; n.a = op(I.getOperand(0)); break; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { auto s = flat(I.getOperand(0)); for (size_t q = 0; q < s.size(); q++) { auto &n = emit(O_MOV, &I); n.dst = d + (int)q; n.a = s[q]; n.w = 64; } break; }
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
        u8 o = I.getOpcode() == Instruction::SIToFP ? O_SITOFP : I.getOpcode() == Instruction::UIToFP ? O_UITOFP : I.getOpcode() == Instruction::FPToSI ? O_FPTOSI : I.getOpcode() == Instruction::FPToUI ? O_FPTOUI : I.getOpcode() == Instruction::FPExt ? O_FPEXT : O_FPTRUNC;
        auto &n = emit(o, &I); n.dst = d; n.w = m.widthOf(I.getType()); n.w2 = m.widthOf(I.getOperand(0)->getType()); n.a = op(I.getOperand(0)); break; }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I); std::vector<GepTerm> terms; i64 off = 0;
        for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          llvm::Value *ix = it.getOperand();
          if (StructType *S = it.getStructTypeOrNull()) { off += m.DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sz = (i64)m.DL->getTypeAllocSize(it.getIndexedType());
          if (auto *CI = dyn_cast<ConstantInt>(ix)) { off += CI->getSExtValue() * sz; continue; }
          terms.push_back({op(ix), sz, m.widthOf(ix->getType())});
        }
        i32 base = op(G.getPointerOperand()); auto &n = emit(O_GEP, &I); n.dst = d; n.a = base; n.imm = off; n.x = -1; n.w = 64;
        if (!terms.empty()) { f.geps.push_back(terms); n.x = (i32)f.geps.size() - 1; }
        break; }
      case Instruction::Load: {
        std::vector<std::pair<Type*, u64>> sc; scalOffsets(m, I.getType(), 0, sc); i32 p = op(I.getOperand(0));
        for (size_t q = 0; q < sc.size(); q++) { auto &n = emit(O_LOAD, &I); n.dst = d + (int)q; n.a = p; n.imm = sc[q].second; n.w = m.widthOf(sc[q].first); n.x = (i32)m.DL->getTypeStoreSize(sc[q].first); n.pred = cast<LoadInst>(I).isAtomic(); }
        break; }
      case Instruction::Store: {
        std::vector<std::pair<Type*, u64>> sc; scalOffsets(m, I.getOperand(0)->getType(), 0, sc); auto v = flat(I.getOperand(0)); i32 p = op(I.getOperand(1));
        for (size_t q = 0; q < sc.size(); q++) { auto &n = emit(O_STORE, &I); n.a = p; n.b = v[q]; n.imm = sc[q].second; n.w = m.widthOf(sc[q].first); n.x = (i32)m.DL->getTypeStoreSize(sc[q].first); n.pred = cast<StoreInst>(I).isAtomic(); }
        break; }
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); auto &n = emit(O_ALLOCA, &I); n.dst = d; n.imm = (i64)m.DL->getTypeAllocSize(A.getAllocatedType()); n.a = op(A.getArraySize()); break; }
      case Instruction::Br: { auto &B2 = cast<BranchInst>(I); if (B2.isUnconditional()) { int e = mkEdge(&B, B2.getSuccessor(0)); auto &n = emit(O_BR, &I); n.x = e; }
        else { i32 c = op(B2.getCondition()); int e1 = mkEdge(&B, B2.getSuccessor(0)), e2 = mkEdge(&B, B2.getSuccessor(1)); auto &n = emit(O_CONDBR, &I); n.a = c; n.x = e1; n.b = e2; } break; }
      case Instruction::Switch: { auto &S = cast<SwitchInst>(I); std::vector<std::pair<u64, i32>> cs; for (auto &c : S.cases()) cs.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&B, c.getCaseSuccessor())}); int def = mkEdge(&B, S.getDefaultDest());
        i32 c = op(S.getCondition()); f.switches.push_back(cs); auto &n = emit(O_SWITCH, &I); n.a = c; n.w = m.widthOf(S.getCondition()->getType()); n.x = (i32)f.switches.size() - 1; n.b = def; break; }
      case Instruction::Ret: { auto &R = cast<ReturnInst>(I); std::vector<i32> v; if (R.getReturnValue()) v = flat(R.getReturnValue()); CallInfo ci; ci.callee = 0; ci.fn = ci.ext = -1; ci.args = v; ci.edge = -1; f.calls.push_back(ci); auto &n = emit(O_RET, &I); n.x = (i32)f.calls.size() - 1; break; }
      case Instruction::Unreachable: emit(O_UNREACHABLE, &I); break;
      case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); auto s = flat(E.getAggregateOperand()); int o = aggIndex(E.getAggregateOperand()->getType(), E.getIndices()); int n2 = m.nscal(I.getType()); for (int q = 0; q < n2; q++) { auto &n = emit(O_MOV, &I); n.dst = d + q; n.a = s[o + q]; } break; }
      case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); auto s = flat(E.getAggregateOperand()), v = flat(E.getInsertedValueOperand()); int o = aggIndex(E.getAggregateOperand()->getType(), E.getIndices());
        for (size_t q = 0; q < s.size(); q++) { auto &n = emit(O_MOV, &I); n.dst = d + (int)q; n.a = ((int)q >= o && (int)q < o + (int)v.size()) ? v[q - o] : s[q]; } break; }
      case Instruction::ExtractElement: { auto s = flat(I.getOperand(0)); u64 ix = cast<ConstantInt>(I.getOperand(1))->getZExtValue(); auto &n = emit(O_MOV, &I); n.dst = d; n.a = s[ix]; break; }
      case Instruction::InsertElement: { auto s = flat(I.getOperand(0)); i32 v = op(I.getOperand(1)); u64 ix = cast<ConstantInt>(I.getOperand(2))->getZExtValue(); for (size_t q = 0; q < s.size(); q++) { auto &n = emit(O_MOV, &I); n.dst = d + (int)q; n.a = q == ix ? v : s[q]; } break; }
      case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); auto a = flat(I.getOperand(0)), b = flat(I.getOperand(1)); int q = 0; for (int mi : S.getShuffleMask()) { auto &n = emit(O_MOV, &I); n.dst = d + q++; n.a = mi < 0 ? a[0] : mi < (int)a.size() ? a[mi] : b[mi - a.size()]; } break; }
      case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); auto &n = emit(O_ATOMICRMW, &I); n.dst = d; n.a = op(A.getPointerOperand()); n.b = op(A.getValOperand()); n.pred = A.getOperation(); n.w = m.widthOf(I.getType()); n.x = (i32)m.DL->getTypeStoreSize(I.getType()); break; }
      case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); auto &n = emit(O_CMPXCHG, &I); n.dst = d; n.a = op(A.getPointerOperand()); n.b = op(A.getCompareOperand()); n.c = op(A.getNewValOperand()); n.w = m.widthOf(A.getCompareOperand()->getType()); n.x = (i32)m.DL->getTypeStoreSize(A.getCompareOperand()->getType()); break; }
      case Instruction::Fence: break;
      case Instruction::LandingPad: case Instruction::Resume: { emit(O_UNREACHABLE, &I); break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto &C = cast<CallBase>(I); CallInfo ci; ci.edge = -1; ci.fn = ci.ext = -1; ci.callee = 0;
        for (unsigned q = 0; q < C.arg_size(); q++) {
          auto *av = C.getArgOperand(q);
          if (av->getType()->isMetadataTy()) continue;
          auto v = flat(av); std::vector<Type*> ts; m.flatten(av->getType(), ts);
          for (size_t z = 0; z < v.size(); z++) { ci.args.push_back(v[z]); ci.argW.push_back(m.widthOf(ts[z])); ci.argIsFP.push_back(ts[z]->isFloatingPointTy()); ci.byval.push_back(C.isByValArgument(q) ? (u64)m.DL->getTypeAllocSize(C.getParamByValType(q)) : 0); }
        }
        llvm::Value *cv = C.getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = const_cast<Constant*>(GA->getAliasee()->stripPointerCasts());
        if (auto *CF = dyn_cast<Function>(cv)) { if (!CF->isDeclaration() && !isStreamFn(CF->getName().str())) ci.fn = m.funcIndex(CF); else ci.ext = m.extId(CF->getName().str()); }
        else if (isa<InlineAsm>(cv)) ci.ext = m.extId("__inline_asm");
        else ci.callee = op(cv);
        ci.retVoid = I.getType()->isVoidTy(); ci.retN = ci.retVoid ? 0 : m.nscal(I.getType());
        if (auto *IV = dyn_cast<InvokeInst>(&I)) ci.edge = mkEdge(&B, IV->getNormalDest());
        f.calls.push_back(ci); auto &n = emit(O_CALL, &I); n.dst = d; n.x = (i32)f.calls.size() - 1; n.w = ci.retVoid ? 0 : (ci.retN == 1 ? m.widthOf(I.getType()->isAggregateType() ? [&]{ std::vector<Type*> t; m.flatten(I.getType(), t); return t[0]; }() : I.getType()) : 64);
        break; }
      default: errs() << "unsupported instruction " << I << "\n"; emit(O_UNREACHABLE, &I); break;
      }
    }
  }
  for (auto &p : fix) f.edges[p.first].target = bbpc.at(p.second);
  f.nslots = ns; (void)tmp;
}

void Mod::translate(int fi) { Func &f = *funcs[fi]; if (f.translated) return; f.translated = true; Tr t(*this, f); t.run(); }
