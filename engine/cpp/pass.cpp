// vpsym LLVM-18 pass: give every scalar SSA value of the compiled code a shadow SMT expression.
// Shadows are `ptr` values (null = concrete).  Pointers are always concrete: symbolic indices are
// concretised (enumerated completely) by the runtime at the address computation.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "ops.h"
using namespace llvm;
namespace {
constexpr unsigned kMaxLeaves = 64;
using Shadow = SmallVector<Value *, 2>;

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *PtrT, *I64, *I32, *VoidT; Constant *Null;
  GlobalVariable *Args, *ArgTag, *Ret, *RetTag;
  FunctionCallee OpFn, LoadFn, StoreFn, ClearFn, CopyFn, BranchFn, ConcFn, LostFn, PostCallFn, ConcatFn, ExtractFn, ReadsFn;
  DenseMap<Value *, Shadow> Sh;
  Inst(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    PtrT = PointerType::get(C, 0); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); VoidT = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(PtrT));
    auto gv = [&](const char *n, Type *T) { auto *g = cast<GlobalVariable>(M.getOrInsertGlobal(n, T)); return g; };
    Args = gv("__vp_args", ArrayType::get(PtrT, kMaxLeaves)); ArgTag = gv("__vp_arg_tag", PtrT);
    Ret = gv("__vp_ret", ArrayType::get(PtrT, kMaxLeaves)); RetTag = gv("__vp_ret_tag", PtrT);
    OpFn = M.getOrInsertFunction("__vp_op", PtrT, I32, I32, I32, PtrT, PtrT, PtrT, I64, I64, I64, I64);
    LoadFn = M.getOrInsertFunction("__vp_load", PtrT, PtrT, I32, I32);
    StoreFn = M.getOrInsertFunction("__vp_store", VoidT, PtrT, I32, PtrT);
    ClearFn = M.getOrInsertFunction("__vp_clear", VoidT, PtrT, I64);
    CopyFn = M.getOrInsertFunction("__vp_copy", VoidT, PtrT, PtrT, I64);
    BranchFn = M.getOrInsertFunction("__vp_branch", VoidT, PtrT, I32, I32);
    ConcFn = M.getOrInsertFunction("__vp_conc", VoidT, PtrT, I64, I32);
    LostFn = M.getOrInsertFunction("__vp_lost", VoidT, PtrT, PtrT);
    PostCallFn = M.getOrInsertFunction("__vp_postcall", VoidT, PtrT, I32, PtrT);
    ConcatFn = M.getOrInsertFunction("__vp_concat", PtrT, PtrT, I64, I32, PtrT, I64, I32);
    ExtractFn = M.getOrInsertFunction("__vp_extract", PtrT, PtrT, I64, I32, I32);
    ReadsFn = M.getOrInsertFunction("__vp_reads", VoidT, PtrT, I64);
  }
  DenseMap<Type *, unsigned> LC;
  unsigned leaves(Type *T) {
    if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return 0;
    if (auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for (Type *E : S->elements()) n += leaves(E); return n; }
    if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * leaves(A->getElementType());
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements();
    return 1;
  }
  struct Leaf { uint64_t off; Type *T; };
  void leafList(Type *T, uint64_t off, SmallVectorImpl<Leaf> &out) {
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) leafList(S->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t sz = DL.getTypeAllocSize(A->getElementType());
      for (unsigned i = 0; i < A->getNumElements(); i++) leafList(A->getElementType(), off + i * sz, out); return; }
    if (auto *V = dyn_cast<FixedVectorType>(T)) { uint64_t sz = (DL.getTypeSizeInBits(V->getElementType()) + 7) / 8;
      for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back({off + i * sz, V->getElementType()}); return; }
    if (T->isVoidTy()) return;
    out.push_back({off, T});
  }
  static unsigned tyCode(Type *T) {
    if (T->isFloatTy()) return TY_F32; if (T->isDoubleTy()) return TY_F64;
    if (T->isIntegerTy()) { unsigned b = T->getIntegerBitWidth(); return b <= 64 ? b : TY_BAD; }
    if (T->isPointerTy()) return TY_PTR;
    return TY_BAD;
  }
  Value *toU64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(V, I64);
    return ConstantInt::get(I64, 0);
  }
  bool isNull(Value *S) { return isa<ConstantPointerNull>(S); }
  Shadow get(Value *V) {
    auto it = Sh.find(V); if (it != Sh.end()) return it->second;
    Shadow r; for (unsigned i = 0, n = leaves(V->getType()); i < n; i++) r.push_back(Null); return r;
  }
  Value *i32(uint64_t v) { return ConstantInt::get(I32, v); }
  Value *i64(uint64_t v) { return ConstantInt::get(I64, v); }
  Value *op(IRBuilder<> &B, unsigned code, Type *RT, Type *OT, ArrayRef<Value *> sh, ArrayRef<Value *> cv, Value *res) {
    bool any = false; for (Value *s : sh) any |= !isNull(s);
    if (!any) return Null;
    unsigned rt = tyCode(RT), ot = tyCode(OT);
    if (ot == TY_PTR && rt != TY_PTR) ot = 64;
    Value *s[3] = {Null, Null, Null}, *c[3] = {i64(0), i64(0), i64(0)};
    for (unsigned i = 0; i < sh.size(); i++) { s[i] = sh[i]; c[i] = toU64(B, cv[i]); }
    return B.CreateCall(OpFn, {i32(code), i32(rt), i32(ot), s[0], s[1], s[2], c[0], c[1], c[2], toU64(B, res)});
  }
  Value *leafVal(IRBuilder<> &B, Value *V, unsigned i) {
    if (V->getType()->isVectorTy()) return B.CreateExtractElement(V, i);
    return V;
  }
  Constant *str(StringRef s) {
    Constant *d = ConstantDataArray::getString(C, s);
    auto *g = new GlobalVariable(M, d->getType(), true, GlobalValue::PrivateLinkage, d, "vps"); g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global);
    return g;
  }
  void elementwise(Instruction *I, unsigned code, ArrayRef<Value *> ops) {
    IRBuilder<> B(I->getNextNode());
    unsigned n = leaves(I->getType()); Shadow out;
    SmallVector<Shadow, 3> os; for (Value *o : ops) os.push_back(get(o));
    for (unsigned i = 0; i < n; i++) {
      SmallVector<Value *, 3> s, c; bool any = false;
      for (unsigned k = 0; k < ops.size(); k++) { s.push_back(os[k][i]); any |= !isNull(s.back()); }
      if (!any) { out.push_back(Null); continue; }
      for (unsigned k = 0; k < ops.size(); k++) c.push_back(leafVal(B, ops[k], i));
      out.push_back(op(B, code, I->getType()->getScalarType(), ops.back()->getType()->getScalarType(), s, c, leafVal(B, I, i)));
    }
    Sh[I] = out;
  }
  void concretizeAll(IRBuilder<> &B, Value *V) {
    Shadow s = get(V);
    for (unsigned i = 0; i < s.size(); i++) if (!isNull(s[i])) {
      Type *T = V->getType()->getScalarType();
      if (V->getType()->isAggregateType()) { B.CreateCall(LostFn, {s[i], str("aggregate")}); continue; }
      B.CreateCall(ConcFn, {s[i], toU64(B, leafVal(B, V, i)), i32(tyCode(T))});
    }
  }
  static unsigned mathByName(StringRef n, unsigned nargs) {
    static const struct { const char *n; unsigned code, na; } T[] = {
      {"sqrt", OP_SQRT, 1}, {"sqrtf", OP_SQRT, 1}, {"fabs", OP_FABS, 1}, {"fabsf", OP_FABS, 1}, {"floor", OP_FLOOR, 1}, {"floorf", OP_FLOOR, 1},
      {"ceil", OP_CEIL, 1}, {"ceilf", OP_CEIL, 1}, {"round", OP_ROUND, 1}, {"roundf", OP_ROUND, 1}, {"trunc", OP_FTRUNC, 1}, {"truncf", OP_FTRUNC, 1},
      {"rint", OP_RINT, 1}, {"rintf", OP_RINT, 1}, {"nearbyint", OP_RINT, 1},
      {"hypot", OP_HYPOT, 2}, {"hypotf", OP_HYPOT, 2}, {"fmod", OP_FMOD, 2}, {"fmodf", OP_FMOD, 2}, {"fmax", OP_FMAX, 2}, {"fmin", OP_FMIN, 2}, {"fmaxf", OP_FMAX, 2}, {"fminf", OP_FMIN, 2},
      {"sin", OP_SIN, 1}, {"cos", OP_COS, 1}, {"tan", OP_TAN, 1}, {"atan2", OP_ATAN2, 2}, {"atan", OP_ATAN, 1}, {"acos", OP_ACOS, 1}, {"asin", OP_ASIN, 1},
      {"sinf", OP_SIN, 1}, {"cosf", OP_COS, 1}, {"atan2f", OP_ATAN2, 2}, {"exp", OP_EXP, 1}, {"log", OP_LOG, 1}, {"pow", OP_POW, 2}, {"expf", OP_EXP, 1},
      {"lround", OP_LROUND, 1}, {"llround", OP_LROUND, 1}, {"lroundf", OP_LROUND, 1}, {"copysign", OP_COPYSIGN, 2}, {"remainder", OP_REMAINDER, 2}, {"log2", OP_LOG2, 1}};
    for (auto &t : T) if (n == t.n && nargs == t.na) return t.code;
    return 0;
  }
  // returns true if handled fully
  bool handleIntrinsic(CallBase *CB, Function *F) {
    IRBuilder<> B(CB); IRBuilder<> A(CB->getNextNode() ? CB->getNextNode() : CB);
    auto a = [&](unsigned i) { return CB->getArgOperand(i); };
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        concretizeAll(B, a(2)); B.CreateCall(CopyFn, {a(0), a(1), B.CreateZExtOrTrunc(a(2), I64)}); return true;
      case Intrinsic::memset: case Intrinsic::memset_inline:
        concretizeAll(B, a(1)); concretizeAll(B, a(2)); B.CreateCall(ClearFn, {a(0), B.CreateZExtOrTrunc(a(2), I64)}); return true;
      case Intrinsic::lifetime_start: {
        auto *sz = cast<ConstantInt>(a(0)); if (sz->getSExtValue() > 0) B.CreateCall(ClearFn, {a(1), i64(sz->getZExtValue())}); return true; }
      case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stacksave: case Intrinsic::stackrestore:
      case Intrinsic::trap: case Intrinsic::eh_typeid_for: case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::prefetch: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        return true;
      case Intrinsic::expect: Sh[CB] = get(a(0)); return true;
      case Intrinsic::fabs: elementwise(CB, OP_FABS, {a(0)}); return true;
      case Intrinsic::sqrt: elementwise(CB, OP_SQRT, {a(0)}); return true;
      case Intrinsic::floor: elementwise(CB, OP_FLOOR, {a(0)}); return true;
      case Intrinsic::ceil: elementwise(CB, OP_CEIL, {a(0)}); return true;
      case Intrinsic::round: elementwise(CB, OP_ROUND, {a(0)}); return true;
      case Intrinsic::trunc: elementwise(CB, OP_FTRUNC, {a(0)}); return true;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: elementwise(CB, OP_RINT, {a(0)}); return true;
      case Intrinsic::minnum: case Intrinsic::minimum: elementwise(CB, OP_FMIN, {a(0), a(1)}); return true;
      case Intrinsic::maxnum: case Intrinsic::maximum: elementwise(CB, OP_FMAX, {a(0), a(1)}); return true;
      case Intrinsic::copysign: elementwise(CB, OP_COPYSIGN, {a(0), a(1)}); return true;
      case Intrinsic::fmuladd: case Intrinsic::fma: elementwise(CB, OP_FMA, {a(0), a(1), a(2)}); return true;
      case Intrinsic::sin: elementwise(CB, OP_SIN, {a(0)}); return true;
      case Intrinsic::cos: elementwise(CB, OP_COS, {a(0)}); return true;
      case Intrinsic::exp: elementwise(CB, OP_EXP, {a(0)}); return true;
      case Intrinsic::log: elementwise(CB, OP_LOG, {a(0)}); return true;
      case Intrinsic::pow: elementwise(CB, OP_POW, {a(0), a(1)}); return true;
      case Intrinsic::lround: case Intrinsic::llround: elementwise(CB, OP_LROUND, {a(0)}); return true;
      case Intrinsic::smax: elementwise(CB, OP_SMAX, {a(0), a(1)}); return true;
      case Intrinsic::smin: elementwise(CB, OP_SMIN, {a(0), a(1)}); return true;
      case Intrinsic::umax: elementwise(CB, OP_UMAX, {a(0), a(1)}); return true;
      case Intrinsic::umin: elementwise(CB, OP_UMIN, {a(0), a(1)}); return true;
      case Intrinsic::abs: elementwise(CB, OP_IABS, {a(0)}); return true;
      case Intrinsic::is_fpclass: { // symbolic FP values are finite reals
        uint64_t m = cast<ConstantInt>(a(1))->getZExtValue();
        if ((m & ~0x207ull) == 0 || (m & 0x1f8ull) == 0x1f8ull) return true;
        concretizeAll(B, a(0)); return true; }
      default:
        for (auto &arg : CB->args()) if (leaves(arg->getType())) concretizeAll(B, arg);
        return true;
    }
  }
  void handleCall(CallBase *CB) {
    if (CB->isInlineAsm()) return;
    Value *Callee = CB->getCalledOperand();
    Function *F = dyn_cast<Function>(Callee->stripPointerCasts());
    if (F && F->isIntrinsic()) { handleIntrinsic(CB, F); return; }
    IRBuilder<> B(CB);
    Instruction *After = nullptr;
    if (auto *II = dyn_cast<InvokeInst>(CB)) After = &*II->getNormalDest()->getFirstInsertionPt();
    else After = CB->getNextNode();
    StringRef nm = F ? F->getName() : "";
    if (nm.starts_with("__vp_")) return;
    if (F && nm.starts_with("_ZSt") && nm.contains("_Rb_tree_")) { for (auto &arg : CB->args()) concretizeAll(B, arg); return; }
    if (F) {
      unsigned mc = CB->arg_size() <= 2 ? mathByName(nm, CB->arg_size()) : 0;
      if (mc && (CB->getType()->isFloatingPointTy() || mc == OP_LROUND)) {
        if (isa<InvokeInst>(CB)) { for (auto &arg : CB->args()) concretizeAll(B, arg); return; }
        SmallVector<Value *, 2> v; for (auto &arg : CB->args()) v.push_back(arg); elementwise(CB, mc, v); return; }
      if ((nm == "memcpy" || nm == "memmove") && CB->arg_size() == 3) { concretizeAll(B, CB->getArgOperand(2)); B.CreateCall(CopyFn, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)}); return; }
      if (nm == "memset" && CB->arg_size() == 3) { B.CreateCall(ClearFn, {CB->getArgOperand(0), CB->getArgOperand(2)}); return; }
      if ((nm == "memcmp" || nm == "bcmp") && CB->arg_size() == 3) {
        B.CreateCall(ReadsFn, {CB->getArgOperand(0), CB->getArgOperand(2)}); B.CreateCall(ReadsFn, {CB->getArgOperand(1), CB->getArgOperand(2)}); return; }
    }
    // generic protocol
    unsigned slot = 0; bool any = false;
    for (auto &arg : CB->args()) {
      Shadow s = get(arg);
      for (Value *v : s) { if (slot < kMaxLeaves) { if (!isNull(v)) any = true; B.CreateStore(v, B.CreateConstInBoundsGEP2_32(Args->getValueType(), Args, 0, slot)); slot++; } }
    }
    bool must = false; if (auto *CI = dyn_cast<CallInst>(CB)) must = CI->isMustTailCall();
    B.CreateStore(Callee, ArgTag);
    if (must) return;
    unsigned rn = leaves(CB->getType());
    if (rn) B.CreateStore(Null, RetTag);
    if (CB->doesNotReturn() && !isa<InvokeInst>(CB)) return;
    IRBuilder<> A(After);
    if (any) A.CreateCall(PostCallFn, {Callee, i32(slot), F ? (Value *)str(nm) : (Value *)Null});
    if (rn && rn <= kMaxLeaves) {
      bool ptrOnly = CB->getType()->isPointerTy();
      if (ptrOnly) return;
      Value *ok = A.CreateICmpEQ(A.CreateLoad(PtrT, RetTag), Callee);
      Shadow out;
      for (unsigned i = 0; i < rn; i++) { Value *l = A.CreateLoad(PtrT, A.CreateConstInBoundsGEP2_32(Ret->getValueType(), Ret, 0, i)); out.push_back(A.CreateSelect(ok, l, Null)); }
      Sh[CB] = out;
    }
  }
  unsigned aggOffset(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) off += leaves(S->getElementType(k)); T = S->getElementType(i); }
      else { auto *A = cast<ArrayType>(T); off += i * leaves(A->getElementType()); T = A->getElementType(); }
    }
    return off;
  }
  unsigned brId = 0; DenseMap<Value *, Value *> Wide;
  void run(Function &F) {
    Sh.clear(); Wide.clear();
    EliminateUnreachableBlocks(F);
    for (auto &BB : F) if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator()))
      if (!II->getNormalDest()->getSinglePredecessor()) SplitEdge(&BB, II->getNormalDest());
    ReversePostOrderTraversal<Function *> RPOT(&F);
    std::vector<Instruction *> Work;
    for (BasicBlock *BB : RPOT) for (Instruction &I : *BB) Work.push_back(&I);
    // entry: argument shadows
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
      unsigned slot = 0; Value *ok = nullptr;
      for (Argument &A : F.args()) {
        unsigned n = leaves(A.getType()); Shadow s;
        for (unsigned i = 0; i < n; i++, slot++) {
          if (slot >= kMaxLeaves || A.getType()->isPointerTy()) { s.push_back(Null); continue; }
          if (!ok) ok = B.CreateICmpEQ(B.CreateLoad(PtrT, ArgTag), &F);
          Value *l = B.CreateLoad(PtrT, B.CreateConstInBoundsGEP2_32(Args->getValueType(), Args, 0, slot));
          s.push_back(B.CreateSelect(ok, l, Null));
        }
        Sh[&A] = s;
      }
      B.CreateStore(Null, ArgTag);
    }
    SmallVector<PHINode *, 16> Phis;
    for (Instruction *I : Work) {
      if (auto *P = dyn_cast<PHINode>(I)) {
        if (P->getType()->isPointerTy()) continue;
        Shadow s; IRBuilder<> B(P);
        for (unsigned i = 0, n = leaves(P->getType()); i < n; i++) s.push_back(B.CreatePHI(PtrT, P->getNumIncomingValues()));
        Sh[P] = s; Phis.push_back(P); continue;
      }
      IRBuilder<> B(I);
      if (auto *BO = dyn_cast<BinaryOperator>(I)) { elementwise(I, OP_BIN + BO->getOpcode(), {BO->getOperand(0), BO->getOperand(1)}); }
      else if (isa<UnaryOperator>(I)) elementwise(I, OP_FNEG, {I->getOperand(0)});
      else if (auto *IC = dyn_cast<ICmpInst>(I)) { if (!IC->getOperand(0)->getType()->isPtrOrPtrVectorTy()) elementwise(I, OP_ICMP + IC->getPredicate(), {IC->getOperand(0), IC->getOperand(1)}); }
      else if (auto *FC = dyn_cast<FCmpInst>(I)) elementwise(I, OP_FCMP + FC->getPredicate(), {FC->getOperand(0), FC->getOperand(1)});
      else if (auto *Ca = dyn_cast<CastInst>(I)) {
        Value *V = Ca->getOperand(0); Type *ST = V->getType(), *DT = Ca->getType();
        if (isa<IntToPtrInst>(Ca)) { concretizeAll(B, V); continue; }
        if (isa<PtrToIntInst>(Ca) || isa<AddrSpaceCastInst>(Ca)) continue;
        if (isa<BitCastInst>(Ca)) {
          if (leaves(ST) == leaves(DT)) { Sh[I] = get(V); continue; }
          IRBuilder<> A(I->getNextNode()); Shadow s = get(V);
          unsigned sn = s.size(), dn = leaves(DT);
          bool any = false; for (auto *x : s) any |= !isNull(x); if (!any) continue;
          unsigned sb = DL.getTypeSizeInBits(ST->getScalarType()) / 8, db = DL.getTypeSizeInBits(DT->getScalarType()) / 8; Shadow out;
          if (dn < sn && sn % dn == 0 && db <= 8 && sb >= 1) { unsigned r = sn / dn;
            for (unsigned d = 0; d < dn; d++) { Value *acc = s[d * r], *av = toU64(A, leafVal(A, V, d * r)); unsigned bytes = sb;
              for (unsigned k = 1; k < r; k++) { Value *nv = toU64(A, leafVal(A, V, d * r + k));
                acc = A.CreateCall(ConcatFn, {acc, av, i32(bytes), s[d * r + k], nv, i32(sb)}); av = A.CreateOr(av, A.CreateShl(nv, bytes * 8)); bytes += sb; }
              out.push_back(acc); } Sh[I] = out; }
          else if (dn > sn && dn % sn == 0 && sb <= 8 && db >= 1) { unsigned r = dn / sn;
            for (unsigned d = 0; d < dn; d++) out.push_back(A.CreateCall(ExtractFn, {s[d / r], toU64(A, leafVal(A, V, d / r)), i32((d % r) * db), i32(db)})); Sh[I] = out; }
          else concretizeAll(B, V);
          continue;
        }
        unsigned st = tyCode(ST->getScalarType()), dt = tyCode(DT->getScalarType());
        if (st == TY_BAD || dt == TY_BAD) { concretizeAll(B, V); continue; }
        elementwise(I, OP_CAST + Ca->getOpcode(), {V});
      }
      else if (auto *S = dyn_cast<SelectInst>(I)) {
        Shadow c = get(S->getCondition()), t = get(S->getTrueValue()), f = get(S->getFalseValue());
        unsigned n = leaves(S->getType());
        if (S->getType()->isPointerTy() || S->getType()->isAggregateType()) {
          if (!isNull(c[0])) B.CreateCall(BranchFn, {c[0], B.CreateZExt(S->getCondition(), I32), i32(++brId)});
          Shadow out; IRBuilder<> A(I->getNextNode());
          if (!S->getType()->isPointerTy()) { for (unsigned i = 0; i < n; i++) out.push_back(isNull(t[i]) && isNull(f[i]) ? (Value *)Null : A.CreateSelect(S->getCondition(), t[i], f[i])); Sh[I] = out; }
        } else {
          IRBuilder<> A(I->getNextNode()); Shadow out; bool vc = S->getCondition()->getType()->isVectorTy();
          for (unsigned i = 0; i < n; i++) {
            Value *cs = c[vc ? i : 0]; Value *cv = vc ? A.CreateExtractElement(S->getCondition(), i) : S->getCondition();
            if (isNull(cs)) { out.push_back(isNull(t[i]) && isNull(f[i]) ? (Value *)Null : A.CreateSelect(cv, t[i], f[i])); continue; }
            out.push_back(op(A, OP_SELECT, S->getType()->getScalarType(), S->getType()->getScalarType(), {cs, t[i], f[i]},
                             {cv, leafVal(A, S->getTrueValue(), i), leafVal(A, S->getFalseValue(), i)}, leafVal(A, S, i)));
          }
          Sh[I] = out;
        }
      }
      else if (auto *L = dyn_cast<LoadInst>(I)) {
        SmallVector<Leaf, 4> ls; leafList(L->getType(), 0, ls);
        IRBuilder<> A(I->getNextNode()); Shadow out;
        if (L->getType()->isIntegerTy() && L->getType()->getIntegerBitWidth() > 64 && L->getType()->getIntegerBitWidth() % 8 == 0 && all_of(L->users(), [&](User *u) { auto *st = dyn_cast<StoreInst>(u); return st && st->getValueOperand() == L; })) {
          IRBuilder<> E(&*F.getEntryBlock().begin()); auto *tmp = E.CreateAlloca(ArrayType::get(Type::getInt8Ty(C), L->getType()->getIntegerBitWidth() / 8));
          A.CreateCall(CopyFn, {tmp, L->getPointerOperand(), i64(L->getType()->getIntegerBitWidth() / 8)}); Wide[L] = tmp; Sh[I] = Shadow{Null}; continue; }
        for (auto &lf : ls) {
          unsigned sz = (DL.getTypeSizeInBits(lf.T) + 7) / 8; unsigned tc = tyCode(lf.T);
          if (lf.T->isPointerTy()) { out.push_back(Null); continue; }
          Value *p = lf.off ? A.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), L->getPointerOperand(), lf.off) : L->getPointerOperand();
          if (tc == TY_BAD || sz > 8) { A.CreateCall(ReadsFn, {p, i64(sz)}); out.push_back(Null); continue; }
          out.push_back(A.CreateCall(LoadFn, {p, i32(sz), i32(tc)}));
        }
        Sh[I] = out;
      }
      else if (auto *S = dyn_cast<StoreInst>(I)) {
        Value *V = S->getValueOperand(); SmallVector<Leaf, 4> ls; leafList(V->getType(), 0, ls); Shadow s = get(V);
        IRBuilder<> A(I->getNextNode());
        if (Wide.count(V)) { A.CreateCall(CopyFn, {S->getPointerOperand(), Wide[V], i64(V->getType()->getIntegerBitWidth() / 8)}); continue; }
        for (unsigned i = 0; i < ls.size(); i++) {
          unsigned sz = (DL.getTypeSizeInBits(ls[i].T) + 7) / 8;
          Value *p = ls[i].off ? A.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), S->getPointerOperand(), ls[i].off) : S->getPointerOperand();
          A.CreateCall(StoreFn, {p, i32(sz), s[i]});
        }
      }
      else if (auto *Al = dyn_cast<AllocaInst>(I)) {
        IRBuilder<> A(I->getNextNode());
        Instruction *ip = I->getNextNode(); while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
        IRBuilder<> A2(ip);
        uint64_t es = DL.getTypeAllocSize(Al->getAllocatedType());
        Value *sz = A2.CreateMul(A2.CreateZExtOrTrunc(Al->getArraySize(), I64), i64(es));
        A2.CreateCall(ClearFn, {Al, sz});
      }
      else if (auto *G = dyn_cast<GetElementPtrInst>(I)) { for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (!isa<Constant>(*it)) concretizeAll(B, *it); }
      else if (auto *CB = dyn_cast<CallBase>(I)) handleCall(CB);
      else if (auto *R = dyn_cast<ReturnInst>(I)) {
        Value *V = R->getReturnValue();
        if (V && !V->getType()->isPointerTy()) {
          if (Instruction *prev = I->getPrevNonDebugInstruction()) if (auto *CI = dyn_cast<CallInst>(prev)) if (CI->isMustTailCall()) continue;
          Shadow s = get(V); unsigned n = s.size();
          if (n && n <= kMaxLeaves) { for (unsigned i = 0; i < n; i++) B.CreateStore(s[i], B.CreateConstInBoundsGEP2_32(Ret->getValueType(), Ret, 0, i)); B.CreateStore(&F, RetTag); }
        }
      }
      else if (auto *Br = dyn_cast<BranchInst>(I)) {
        if (Br->isConditional()) { Shadow c = get(Br->getCondition()); B.CreateCall(BranchFn, {c[0], B.CreateZExt(Br->getCondition(), I32), i32(++brId)}); }
      }
      else if (auto *Sw = dyn_cast<SwitchInst>(I)) concretizeAll(B, Sw->getCondition());
      else if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
        Shadow s = get(EV->getAggregateOperand()); unsigned o = aggOffset(EV->getAggregateOperand()->getType(), EV->getIndices());
        Shadow out; for (unsigned i = 0, n = leaves(EV->getType()); i < n; i++) out.push_back(s[o + i]); Sh[I] = out;
      }
      else if (auto *IV = dyn_cast<InsertValueInst>(I)) {
        Shadow s = get(IV->getAggregateOperand()), v = get(IV->getInsertedValueOperand()); unsigned o = aggOffset(IV->getType(), IV->getIndices());
        for (unsigned i = 0; i < v.size(); i++) s[o + i] = v[i]; Sh[I] = s;
      }
      else if (auto *EE = dyn_cast<ExtractElementInst>(I)) {
        Shadow s = get(EE->getVectorOperand());
        if (auto *ci = dyn_cast<ConstantInt>(EE->getIndexOperand())) { if (ci->getZExtValue() < s.size()) Sh[I] = {s[ci->getZExtValue()]}; }
        else concretizeAll(B, EE->getVectorOperand());
      }
      else if (auto *IE = dyn_cast<InsertElementInst>(I)) {
        Shadow s = get(IE->getOperand(0)), v = get(IE->getOperand(1));
        if (auto *ci = dyn_cast<ConstantInt>(IE->getOperand(2))) { if (ci->getZExtValue() < s.size()) s[ci->getZExtValue()] = v[0]; Sh[I] = s; }
        else { concretizeAll(B, IE->getOperand(0)); concretizeAll(B, IE->getOperand(1)); }
      }
      else if (auto *SV = dyn_cast<ShuffleVectorInst>(I)) {
        Shadow a = get(SV->getOperand(0)), b = get(SV->getOperand(1)), out;
        for (int m : SV->getShuffleMask()) out.push_back(m < 0 ? (Value *)Null : m < (int)a.size() ? a[m] : b[m - a.size()]);
        Sh[I] = out;
      }
      else if (isa<FreezeInst>(I)) Sh[I] = get(I->getOperand(0));
      else if (auto *RMW = dyn_cast<AtomicRMWInst>(I)) { concretizeAll(B, RMW->getValOperand()); B.CreateCall(ClearFn, {RMW->getPointerOperand(), i64(8)}); }
      else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(I)) { concretizeAll(B, CX->getNewValOperand()); B.CreateCall(ReadsFn, {CX->getPointerOperand(), i64(DL.getTypeStoreSize(CX->getNewValOperand()->getType()))}); }
    }
    for (PHINode *P : Phis) {
      Shadow s = Sh[P];
      for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { Shadow in = get(P->getIncomingValue(k)); for (unsigned i = 0; i < s.size(); i++) cast<PHINode>(s[i])->addIncoming(in[i], P->getIncomingBlock(k)); }
    }
    F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::ReadNone); F.removeFnAttr(Attribute::ReadOnly);
    for (auto &BB : F) for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) CB->removeFnAttr(Attribute::Memory);
  }
};
struct VpPass : PassInfoMixin<VpPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    std::vector<Function *> Fs;
    for (Function &F : M) if (!F.isDeclaration() && !F.hasFnAttribute(Attribute::Naked) && !F.getName().starts_with("__vp_") && !F.getName().starts_with("vpn_")) Fs.push_back(&F);
    Inst in(M);
    // stable ids across builds are not needed; make them distinct per module
    in.brId = (unsigned)(hash_value(M.getName()) & 0x7fff) << 16;
    for (Function *F : Fs) in.run(*F);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "vpsym", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      FunctionPassManager FPM; FPM.addPass(LowerSwitchPass()); FPM.addPass(ScalarizerPass());
      MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
      MPM.addPass(VpPass());
    });
  }};
}
static_assert(Instruction::Add == L_Add && Instruction::FAdd == L_FAdd && Instruction::Sub == L_Sub && Instruction::FSub == L_FSub && Instruction::Mul == L_Mul && Instruction::FMul == L_FMul &&
  Instruction::UDiv == L_UDiv && Instruction::SDiv == L_SDiv && Instruction::FDiv == L_FDiv && Instruction::URem == L_URem && Instruction::SRem == L_SRem && Instruction::FRem == L_FRem &&
  Instruction::Shl == L_Shl && Instruction::LShr == L_LShr && Instruction::AShr == L_AShr && Instruction::And == L_And && Instruction::Or == L_Or && Instruction::Xor == L_Xor &&
  Instruction::Trunc == L_Trunc && Instruction::ZExt == L_ZExt && Instruction::SExt == L_SExt && Instruction::FPToUI == L_FPToUI && Instruction::FPToSI == L_FPToSI && Instruction::UIToFP == L_UIToFP &&
  Instruction::SIToFP == L_SIToFP && Instruction::FPTrunc == L_FPTrunc && Instruction::FPExt == L_FPExt, "LLVM opcodes");
static_assert(CmpInst::ICMP_EQ == L_ICMP_EQ && CmpInst::ICMP_SLE == L_ICMP_SLE && CmpInst::ICMP_ULT == L_ICMP_ULT, "LLVM predicates");
