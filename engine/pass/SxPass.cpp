// SxPass: LLVM pass that adds symbolic shadows to every double computed by the program.
//
// Every SSA value of type double (and every i64/ptr that may carry the bits of one) gets a companion i32: the id of an
// expression in the runtime's DAG, 0 meaning "concrete".  Everything else runs natively.  See DESIGN.md.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <vector>

using namespace llvm;

namespace {
constexpr unsigned MAXLEAVES = 16;
constexpr unsigned MAXSLOTS = 64;
using Shadow = SmallVector<Value *, 2>;

enum MathOp {
  M_FABS = 1, M_SQRT, M_FLOOR, M_CEIL, M_TRUNC, M_ROUND, M_RINT, M_SIN, M_COS, M_EXP, M_LOG, M_LOG10, M_TAN, M_EXP2, M_LOG2,
  M_POW = 50, M_MAX, M_MIN, M_COPYSIGN, M_FMOD, M_POWI, M_ATAN2
};

bool scalarTracked(Type *T) { return T->isDoubleTy() || T->isIntegerTy(64) || T->isPointerTy(); }
bool slotTracked(Type *T) { return T->isDoubleTy() || T->isIntegerTy(64); }

bool flatten(Type *T, SmallVectorImpl<Type *> &out) {
  if (out.size() > MAXLEAVES) return false;
  if (auto *S = dyn_cast<StructType>(T)) {
    for (Type *E : S->elements()) if (!flatten(E, out)) return false;
    return true;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    if (A->getNumElements() > MAXLEAVES) return false;
    for (unsigned i = 0; i < A->getNumElements(); ++i) if (!flatten(A->getElementType(), out)) return false;
    return true;
  }
  if (auto *V = dyn_cast<FixedVectorType>(T)) {
    if (V->getNumElements() > MAXLEAVES) return false;
    for (unsigned i = 0; i < V->getNumElements(); ++i) out.push_back(V->getElementType());
    return out.size() <= MAXLEAVES;
  }
  if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return false;
  out.push_back(T);
  return out.size() <= MAXLEAVES;
}
bool leavesOf(Type *T, SmallVectorImpl<Type *> &out) {
  out.clear();
  if (!flatten(T, out)) { out.clear(); return false; }
  for (Type *t : out) if (scalarTracked(t)) return true;
  out.clear();
  return false;
}
unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
  unsigned k = 0;
  for (unsigned i : idx) {
    for (unsigned j = 0; j < i; ++j) {
      SmallVector<Type *, 8> l;
      Type *E = isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType();
      flatten(E, l);
      k += l.size();
    }
    T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(i) : cast<ArrayType>(T)->getElementType();
  }
  return k;
}
void leafOffsets(Type *T, const DataLayout &DL, uint64_t base, SmallVectorImpl<uint64_t> &out) {
  if (auto *S = dyn_cast<StructType>(T)) {
    const StructLayout *SL = DL.getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); ++i)
      leafOffsets(S->getElementType(i), DL, base + SL->getElementOffset(i), out);
  } else if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t sz = DL.getTypeAllocSize(A->getElementType());
    for (unsigned i = 0; i < A->getNumElements(); ++i) leafOffsets(A->getElementType(), DL, base + i * sz, out);
  } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
    uint64_t sz = DL.getTypeAllocSize(V->getElementType());
    for (unsigned i = 0; i < V->getNumElements(); ++i) out.push_back(base + i * sz);
  } else
    out.push_back(base);
}

struct Instrumenter {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I32, *I64, *I1, *D, *P, *V;
  Constant *Z32;
  FunctionCallee fBin, fNeg, fFcmp, fLoad, fStore, fClear, fMemcpy, fMemset, fToInt, fMath1, fMath2, fLost, fFresh, fRealloc,
      fByval, fFpclass, fFma, fEnter;
  Constant *gArgs, *gArgMark, *gRet, *gRetMark, *gBv;
  std::map<std::string, Constant *> strings;

  Instrumenter(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); I1 = Type::getInt1Ty(C); D = Type::getDoubleTy(C);
    P = PointerType::get(C, 0); V = Type::getVoidTy(C);
    Z32 = ConstantInt::get(I32, 0);
    fBin = M.getOrInsertFunction("__sx_bin", I32, I32, D, I32, D, I32, P);
    fNeg = M.getOrInsertFunction("__sx_neg", I32, I32);
    fFcmp = M.getOrInsertFunction("__sx_fcmp", I1, I32, D, I32, D, I32, I1, P);
    fLoad = M.getOrInsertFunction("__sx_load", I32, P, I64);
    fStore = M.getOrInsertFunction("__sx_store", V, P, I64, I32);
    fClear = M.getOrInsertFunction("__sx_clear", V, P);
    fMemcpy = M.getOrInsertFunction("__sx_memcpy", V, P, P, I64);
    fMemset = M.getOrInsertFunction("__sx_memset", V, P, I64);
    fToInt = M.getOrInsertFunction("__sx_fptoint", I64, D, I32, I32, I64, P);
    fMath1 = M.getOrInsertFunction("__sx_math1", I32, I32, D, I32, P);
    fMath2 = M.getOrInsertFunction("__sx_math2", I32, I32, D, I32, D, I32, P);
    fLost = M.getOrInsertFunction("__sx_lost", V, P, I32, P);
    fFresh = M.getOrInsertFunction("__sx_memset", V, P, I64);
    fRealloc = M.getOrInsertFunction("__sx_realloc", P, P, I64);
    fByval = M.getOrInsertFunction("__sx_byval", V, P, P, I64);
    fFpclass = M.getOrInsertFunction("__sx_fpclass", I1, I32, D, I32, I1);
    fFma = M.getOrInsertFunction("__sx_fma", I32, D, I32, D, I32, D, I32, P);
    fEnter = M.getOrInsertFunction("__sx_enter", V, P, P);
    gArgs = ext("__sx_args", ArrayType::get(I32, MAXSLOTS));
    gArgMark = ext("__sx_argmark", P);
    gRet = ext("__sx_ret", ArrayType::get(I32, MAXSLOTS));
    gRetMark = ext("__sx_retmark", P);
    gBv = ext("__sx_bv", ArrayType::get(P, MAXSLOTS));
  }
  Constant *ext(StringRef n, Type *T) { return M.getOrInsertGlobal(n, T); }
  Constant *str(const std::string &s) {
    auto &e = strings[s];
    if (!e) {
      auto *ca = ConstantDataArray::getString(C, s);
      auto *gv = new GlobalVariable(M, ca->getType(), true, GlobalValue::PrivateLinkage, ca, "sxs");
      e = gv;
    }
    return e;
  }
  Constant *loc(Instruction &I) {
    if (const DebugLoc &L = I.getDebugLoc()) {
      const DILocation *dl = L.get();
      std::string s;
      // innermost location plus the outermost inlining site
      StringRef f = dl->getFilename();
      size_t p = f.rfind('/');
      s = (p == StringRef::npos ? f : f.substr(p + 1)).str() + ":" + std::to_string(dl->getLine());
      return str(s);
    }
    return str(I.getFunction()->getName().str());
  }
  static bool isZero(Value *v) { auto *c = dyn_cast<ConstantInt>(v); return c && c->isZero(); }

  // ---- per function
  std::map<Value *, Shadow> sh;
  std::set<Value *> maybe;

  bool hasSlots(FunctionType *FT) {
    for (Type *T : FT->params()) { SmallVector<Type *, 8> l; if (leavesOf(T, l)) for (Type *t : l) if (slotTracked(t)) return true; }
    return false;
  }
  Shadow getShadow(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    SmallVector<Type *, 8> l;
    Shadow s;
    if (!leavesOf(v->getType(), l)) { s.push_back(Z32); return s; }
    s.assign(l.size(), Z32);
    return s;
  }
  Value *s1(Value *v) { return getShadow(v)[0]; }

  bool useful(Value *v) {
    for (User *U : v->users()) {
      if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getValueOperand() == v) return true; continue; }
      if (isa<ReturnInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<InsertValueInst>(U) || isa<BitCastInst>(U) ||
          isa<PtrToIntInst>(U) || isa<IntToPtrInst>(U) || isa<ExtractValueInst>(U) || isa<FreezeInst>(U)) return true;
      if (isa<CallBase>(U) && !v->getType()->isPointerTy()) return true;
    }
    return false;
  }
  bool passThrough(Instruction &I) {
    switch (I.getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: {
      SmallVector<Type *, 8> a, b;
      return leavesOf(I.getType(), a) && leavesOf(I.getOperand(0)->getType(), b) && a.size() == b.size();
    }
    default: return false;
    }
  }
  // optimistic fixpoint: which values may carry a shadow
  void computeMaybe(Function &F) {
    maybe.clear();
    for (Argument &A : F.args()) { SmallVector<Type *, 8> l; if (leavesOf(A.getType(), l)) for (Type *t : l) if (slotTracked(t)) { maybe.insert(&A); break; } }
    bool changed = true;
    while (changed) {
      changed = false;
      for (Instruction &I : instructions(F)) {
        if (maybe.count(&I)) continue;
        SmallVector<Type *, 8> l;
        if (!leavesOf(I.getType(), l)) continue;
        bool m = false;
        if (isa<LoadInst>(I)) {
          bool dbl = false;
          for (Type *t : l) dbl |= t->isDoubleTy();
          m = dbl || useful(&I);
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (auto *II = dyn_cast<IntrinsicInst>(CB)) { (void)II; m = false; for (Value *o : CB->args()) m |= maybe.count(o) > 0; bool d = false; for (Type *t : l) d |= t->isDoubleTy(); m = m && d; }
          else for (Type *t : l) m |= slotTracked(t);
        } else if (isa<PHINode>(I) || isa<InsertValueInst>(I) || isa<ExtractValueInst>(I) || isa<InsertElementInst>(I) ||
                   isa<ExtractElementInst>(I) || isa<ShuffleVectorInst>(I) || passThrough(I)) {
          for (Value *o : I.operands()) m |= maybe.count(o) > 0;
        } else if (auto *S = dyn_cast<SelectInst>(&I)) {
          m = maybe.count(S->getTrueValue()) || maybe.count(S->getFalseValue());
        } else if (I.getOpcode() == Instruction::FAdd || I.getOpcode() == Instruction::FSub || I.getOpcode() == Instruction::FMul ||
                   I.getOpcode() == Instruction::FDiv || I.getOpcode() == Instruction::FNeg || I.getOpcode() == Instruction::FRem) {
          for (Value *o : I.operands()) m |= maybe.count(o) > 0;
        }
        if (m) { maybe.insert(&I); changed = true; }
      }
    }
  }

  Value *bits(IRBuilder<> &B, Value *v) {
    Type *T = v->getType();
    if (T->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (T->isPointerTy()) return B.CreatePtrToInt(v, I64);
    return v;
  }
  // extract flattened leaf k of value v of type T
  Value *leafValue(IRBuilder<> &B, Value *v, unsigned k) {
    Type *T = v->getType();
    if (auto *VT = dyn_cast<FixedVectorType>(T)) { (void)VT; return B.CreateExtractElement(v, k); }
    if (!T->isStructTy() && !T->isArrayTy()) return v;
    unsigned pos = 0;
    unsigned n = T->isStructTy() ? cast<StructType>(T)->getNumElements() : cast<ArrayType>(T)->getNumElements();
    for (unsigned i = 0; i < n; ++i) {
      Type *E = T->isStructTy() ? cast<StructType>(T)->getElementType(i) : cast<ArrayType>(T)->getElementType();
      SmallVector<Type *, 8> l;
      flatten(E, l);
      if (k < pos + l.size()) return leafValue(B, B.CreateExtractValue(v, i), k - pos);
      pos += l.size();
    }
    return nullptr;
  }
  Value *at(IRBuilder<> &B, Value *ptr, uint64_t off) {
    return off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), ptr, off) : ptr;
  }
  Value *slot(IRBuilder<> &B, Constant *g, Type *elem, unsigned k) {
    return B.CreateConstInBoundsGEP2_32(ArrayType::get(elem, MAXSLOTS), g, 0, k);
  }

  int mathOp1(StringRef n) {
    static const std::map<std::string, int> m = {{"fabs", M_FABS}, {"sqrt", M_SQRT}, {"floor", M_FLOOR}, {"ceil", M_CEIL}, {"trunc", M_TRUNC},
      {"round", M_ROUND}, {"rint", M_RINT}, {"nearbyint", M_RINT}, {"sin", M_SIN}, {"cos", M_COS}, {"exp", M_EXP}, {"log", M_LOG}, {"log10", M_LOG10}, {"tan", M_TAN}, {"exp2", M_EXP2}, {"log2", M_LOG2}};
    auto it = m.find(n.str());
    return it == m.end() ? 0 : it->second;
  }
  int mathOp2(StringRef n) {
    static const std::map<std::string, int> m = {{"pow", M_POW}, {"fmax", M_MAX}, {"fmin", M_MIN}, {"copysign", M_COPYSIGN}, {"fmod", M_FMOD}, {"atan2", M_ATAN2}};
    auto it = m.find(n.str());
    return it == m.end() ? 0 : it->second;
  }

  void handleIntrinsic(IntrinsicInst &II) {
    IRBuilder<> A(II.getNextNode() ? II.getNextNode() : &II);
    auto m1 = [&](int op) {
      if (!II.getType()->isDoubleTy()) return;
      Value *s = s1(II.getArgOperand(0));
      if (isZero(s)) return;
      sh[&II] = {A.CreateCall(fMath1, {ConstantInt::get(I32, op), II.getArgOperand(0), s, loc(II)})};
    };
    auto m2 = [&](int op) {
      if (!II.getType()->isDoubleTy()) return;
      Value *s = s1(II.getArgOperand(0)), *t = s1(II.getArgOperand(1));
      if (isZero(s) && isZero(t)) return;
      sh[&II] = {A.CreateCall(fMath2, {ConstantInt::get(I32, op), II.getArgOperand(0), s, II.getArgOperand(1), t, loc(II)})};
    };
    switch (II.getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
      IRBuilder<> B(&II);
      if (auto *c = dyn_cast<ConstantInt>(II.getArgOperand(2))) if (c->getZExtValue() < 8) return;
      B.CreateCall(fMemcpy, {II.getArgOperand(0), II.getArgOperand(1), B.CreateZExtOrTrunc(II.getArgOperand(2), I64)});
      return;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      IRBuilder<> B(&II);
      B.CreateCall(fMemset, {II.getArgOperand(0), B.CreateZExtOrTrunc(II.getArgOperand(2), I64)});
      return;
    }
    case Intrinsic::fabs: {
      // isfinite/isinf: the absolute value of a symbolic (finite) value is only compared with infinity
      bool only = !II.use_empty();
      for (User *U : II.users()) {
        auto *C = dyn_cast<FCmpInst>(U);
        bool inf = false;
        if (C) for (Value *o : C->operands()) if (auto *K = dyn_cast<ConstantFP>(o)) inf |= K->isInfinity();
        only &= inf;
      }
      if (only) return;
      m1(M_FABS); return;
    }
    case Intrinsic::sqrt: m1(M_SQRT); return;
    case Intrinsic::floor: m1(M_FLOOR); return;
    case Intrinsic::ceil: m1(M_CEIL); return;
    case Intrinsic::trunc: m1(M_TRUNC); return;
    case Intrinsic::round: m1(M_ROUND); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: m1(M_RINT); return;
    case Intrinsic::sin: m1(M_SIN); return;
    case Intrinsic::cos: m1(M_COS); return;
    case Intrinsic::exp: m1(M_EXP); return;
    case Intrinsic::exp2: m1(M_EXP2); return;
    case Intrinsic::log: m1(M_LOG); return;
    case Intrinsic::log2: m1(M_LOG2); return;
    case Intrinsic::log10: m1(M_LOG10); return;
    case Intrinsic::pow: m2(M_POW); return;
    case Intrinsic::maxnum: case Intrinsic::maximum: m2(M_MAX); return;
    case Intrinsic::minnum: case Intrinsic::minimum: m2(M_MIN); return;
    case Intrinsic::copysign: m2(M_COPYSIGN); return;
    case Intrinsic::powi: {
      Value *s = s1(II.getArgOperand(0));
      if (!II.getType()->isDoubleTy() || isZero(s)) return;
      sh[&II] = {A.CreateCall(fMath2, {ConstantInt::get(I32, M_POWI), II.getArgOperand(0), s, A.CreateSIToFP(II.getArgOperand(1), D), Z32, loc(II)})};
      return;
    }
    case Intrinsic::fma: case Intrinsic::fmuladd: {
      if (!II.getType()->isDoubleTy()) return;
      Value *a = s1(II.getArgOperand(0)), *b = s1(II.getArgOperand(1)), *c = s1(II.getArgOperand(2));
      if (isZero(a) && isZero(b) && isZero(c)) return;
      sh[&II] = {A.CreateCall(fFma, {II.getArgOperand(0), a, II.getArgOperand(1), b, II.getArgOperand(2), c, loc(II)})};
      return;
    }
    case Intrinsic::is_fpclass: {
      if (!II.getArgOperand(0)->getType()->isDoubleTy()) return;
      Value *s = s1(II.getArgOperand(0));
      if (isZero(s)) return;
      Instruction *n = II.getNextNode();
      CallInst *r = A.CreateCall(fFpclass, {II.getArgOperand(1), II.getArgOperand(0), s, &II});
      (void)n;
      II.replaceUsesWithIf(r, [&](Use &u) { return u.getUser() != r; });
      return;
    }
    default:
      for (Value *o : II.args())
        if (o->getType()->isDoubleTy() && !isZero(s1(o)))
          A.CreateCall(fLost, {str(II.getCalledFunction()->getName().str()), s1(o), loc(II)});
    }
  }

  void handleCall(CallBase &CB) {
    if (auto *II = dyn_cast<IntrinsicInst>(&CB)) { handleIntrinsic(*II); return; }
    if (CB.isInlineAsm()) return;
    Function *callee = CB.getCalledFunction();
    if (!callee) callee = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
    IRBuilder<> B(&CB);
    Instruction *after = nullptr;
    auto getAfter = [&]() -> Instruction * {
      if (after) return after;
      if (auto *IV = dyn_cast<InvokeInst>(&CB)) {
        BasicBlock *N = IV->getNormalDest();
        if (!N->getSinglePredecessor()) {
          N = SplitEdge(IV->getParent(), N);
        }
        after = &*N->getFirstInsertionPt();
      } else
        after = CB.getNextNode();
      return after;
    };
    if (callee && callee->isDeclaration()) {
      StringRef n = callee->getName();
      if (n == "memcpy" || n == "memmove") { B.CreateCall(fMemcpy, {CB.getArgOperand(0), CB.getArgOperand(1), CB.getArgOperand(2)}); return; }
      if (n == "memset") { B.CreateCall(fMemset, {CB.getArgOperand(0), CB.getArgOperand(2)}); return; }
      if (n == "realloc") { CB.setCalledFunction(fRealloc); return; }
      if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t") {
        IRBuilder<> A(getAfter());
        A.CreateCall(fFresh, {&CB, CB.getArgOperand(0)});
        return;
      }
      if (n == "_ZnwmSt11align_val_t") { IRBuilder<> A(getAfter()); A.CreateCall(fFresh, {&CB, CB.getArgOperand(0)}); return; }
      if (n == "calloc") { IRBuilder<> A(getAfter()); A.CreateCall(fFresh, {&CB, A.CreateMul(CB.getArgOperand(0), CB.getArgOperand(1))}); return; }
      if (CB.getType()->isDoubleTy() && CB.arg_size() == 1 && CB.getArgOperand(0)->getType()->isDoubleTy()) {
        if (int op = mathOp1(n)) {
          Value *s = s1(CB.getArgOperand(0));
          if (isZero(s)) return;
          IRBuilder<> A(getAfter());
          sh[&CB] = {A.CreateCall(fMath1, {ConstantInt::get(I32, op), CB.getArgOperand(0), s, loc(CB)})};
          return;
        }
      }
      if (CB.getType()->isDoubleTy() && CB.arg_size() == 2 && CB.getArgOperand(0)->getType()->isDoubleTy() && CB.getArgOperand(1)->getType()->isDoubleTy()) {
        if (int op = mathOp2(n)) {
          Value *s = s1(CB.getArgOperand(0)), *t = s1(CB.getArgOperand(1));
          if (isZero(s) && isZero(t)) return;
          IRBuilder<> A(getAfter());
          sh[&CB] = {A.CreateCall(fMath2, {ConstantInt::get(I32, op), CB.getArgOperand(0), s, CB.getArgOperand(1), t, loc(CB)})};
          return;
        }
      }
      if (!n.starts_with("sx_") && !n.starts_with("__sx_")) {
        // possibly defined (instrumented) in another object: the runtime only complains when nobody picks the shadows up
      }
    }
    FunctionType *FT = CB.getFunctionType();
    Value *target = CB.getCalledOperand();
    // arguments
    std::vector<Value *> slots;
    bool any = false;
    std::vector<std::pair<unsigned, Value *>> bv;
    unsigned nb = 0;
    for (unsigned i = 0; i < CB.arg_size(); ++i) {
      Value *a = CB.getArgOperand(i);
      if (CB.isByValArgument(i)) { bv.push_back({nb, a}); ++nb; continue; }
      SmallVector<Type *, 8> l;
      if (!leavesOf(a->getType(), l)) continue;
      Shadow s = getShadow(a);
      for (unsigned k = 0; k < l.size(); ++k)
        if (slotTracked(l[k])) {
          slots.push_back(s[k]);
          if (!isZero(s[k])) any = true;
        }
    }
    (void)FT;
    if (any || !bv.empty()) {
      for (unsigned k = 0; k < slots.size() && k < MAXSLOTS; ++k) B.CreateStore(slots[k], slot(B, gArgs, I32, k));
      for (auto &pr : bv) if (pr.first < MAXSLOTS) B.CreateStore(pr.second, slot(B, gBv, P, pr.first));
      B.CreateStore(target, gArgMark);
    } else if (!slots.empty())
      B.CreateStore(ConstantPointerNull::get(cast<PointerType>(P)), gArgMark);
    // return value
    SmallVector<Type *, 8> l;
    if (!CB.getType()->isVoidTy() && leavesOf(CB.getType(), l)) {
      bool slotty = false;
      for (Type *t : l) slotty |= slotTracked(t);
      bool used = !CB.use_empty();
      if (slotty && used && maybe.count(&CB)) {
        if (auto *CI = dyn_cast<CallInst>(&CB)) if (CI->isMustTailCall()) { errs() << "sx: musttail in " << CB.getFunction()->getName() << "\n"; return; }
        IRBuilder<> A(getAfter());
        Value *mark = A.CreateLoad(P, gRetMark);
        Value *match = A.CreateICmpEQ(mark, target);
        Shadow s;
        unsigned k = 0;
        for (Type *t : l) {
          if (!slotTracked(t) || k >= MAXSLOTS) { s.push_back(Z32); continue; }
          s.push_back(A.CreateSelect(match, A.CreateLoad(I32, slot(A, gRet, I32, k)), Z32));
          ++k;
        }
        A.CreateStore(ConstantPointerNull::get(cast<PointerType>(P)), gRetMark);
        sh[&CB] = s;
      }
    }
  }

  // Eigen's dense triangular solver passes over entries of the right hand side that are zero; going on computes the same
  static bool skipsZero(Instruction &I) {
    auto zero = [](Value *v) { auto *K = dyn_cast<ConstantFP>(v); return K && K->isZero(); };
    if (!zero(I.getOperand(0)) && !zero(I.getOperand(1))) return false;
    for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt())
      if (L->getFilename().ends_with("products/TriangularSolverVector.h")) return true;
    return false;
  }
  void runFunction(Function &F) {
    sh.clear();
    // split edges of invokes first so that the CFG is stable
    computeMaybe(F);
    std::vector<InvokeInst *> inv;
    for (Instruction &I : instructions(F)) if (auto *IV = dyn_cast<InvokeInst>(&I)) inv.push_back(IV);
    for (InvokeInst *IV : inv) if (!IV->getNormalDest()->getSinglePredecessor()) SplitEdge(IV->getParent(), IV->getNormalDest());

    std::vector<Instruction *> order;
    ReversePostOrderTraversal<Function *> rpo(&F);
    for (BasicBlock *BB : rpo) for (Instruction &I : *BB) order.push_back(&I);

    // entry: pick up argument shadows
    {
      bool anyByval = false, anySlot = false;
      for (Argument &A : F.args()) {
        if (A.hasByValAttr()) { anyByval = true; continue; }
        SmallVector<Type *, 8> l;
        if (leavesOf(A.getType(), l)) for (Type *t : l) anySlot |= slotTracked(t);
      }
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      std::string nm = F.getName().str();
      // record the function as encoded (once per process, cheap flag)
      auto *flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::PrivateLinkage, ConstantInt::get(Type::getInt8Ty(C), 0), "sxf");
      if (const DISubprogram *SP = F.getSubprogram()) {
        StringRef file = SP->getFilename();
        if (file.contains("/src/") || file.contains("harness")) B.CreateCall(fEnter, {flag, str(nm + "|" + file.str())});
        else flag->eraseFromParent();
      } else
        flag->eraseFromParent();
      if (anyByval || anySlot) {
        Value *mark = B.CreateLoad(P, gArgMark);
        Value *match = B.CreateICmpEQ(mark, &F);
        unsigned k = 0, nb = 0;
        for (Argument &A : F.args()) {
          if (A.hasByValAttr()) {
            if (nb < MAXSLOTS) {
              Value *orig = B.CreateSelect(match, B.CreateLoad(P, slot(B, gBv, P, nb)), ConstantPointerNull::get(cast<PointerType>(P)));
              B.CreateCall(fByval, {&A, orig, ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))});
            }
            ++nb;
            continue;
          }
          SmallVector<Type *, 8> l;
          if (!leavesOf(A.getType(), l)) continue;
          Shadow s;
          bool has = false;
          for (Type *t : l) {
            if (!slotTracked(t) || k >= MAXSLOTS) { s.push_back(Z32); continue; }
            has = true;
            s.push_back(B.CreateSelect(match, B.CreateLoad(I32, slot(B, gArgs, I32, k)), Z32));
            ++k;
          }
          if (has) sh[&A] = s;
        }
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(P)), gArgMark);
      }
    }
    // phis
    std::vector<PHINode *> phis;
    for (Instruction *I : order)
      if (auto *PN = dyn_cast<PHINode>(I)) {
        if (!maybe.count(PN)) continue;
        SmallVector<Type *, 8> l;
        leavesOf(PN->getType(), l);
        Shadow s;
        IRBuilder<> B(PN);
        for (Type *t : l) {
          if (!scalarTracked(t)) { s.push_back(Z32); continue; }
          s.push_back(B.CreatePHI(I32, PN->getNumIncomingValues()));
        }
        sh[PN] = s;
        phis.push_back(PN);
      }
    for (Instruction *I : order) visit(*I);
    for (PHINode *PN : phis) {
      Shadow s = sh[PN];
      for (unsigned i = 0; i < PN->getNumIncomingValues(); ++i) {
        Shadow in = getShadow(PN->getIncomingValue(i));
        for (unsigned k = 0; k < s.size(); ++k)
          if (auto *sp = dyn_cast<PHINode>(s[k])) sp->addIncoming(in[k], PN->getIncomingBlock(i));
      }
    }
  }

  void visit(Instruction &I) {
    if (isa<PHINode>(I)) return;
    if (auto *CB = dyn_cast<CallBase>(&I)) { handleCall(*CB); return; }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      if (!maybe.count(L)) return;
      SmallVector<Type *, 8> l;
      leavesOf(L->getType(), l);
      SmallVector<uint64_t, 8> off;
      leafOffsets(L->getType(), DL, 0, off);
      IRBuilder<> A(L->getNextNode());
      Shadow s;
      for (unsigned k = 0; k < l.size(); ++k) {
        if (!scalarTracked(l[k])) { s.push_back(Z32); continue; }
        s.push_back(A.CreateCall(fLoad, {at(A, L->getPointerOperand(), off[k]), bits(A, leafValue(A, L, k))}));
      }
      sh[L] = s;
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      Value *v = S->getValueOperand();
      SmallVector<Type *, 8> l;
      if (!leavesOf(v->getType(), l)) return;
      SmallVector<uint64_t, 8> off;
      leafOffsets(v->getType(), DL, 0, off);
      Shadow s = getShadow(v);
      IRBuilder<> B(S);
      for (unsigned k = 0; k < l.size(); ++k) {
        if (!scalarTracked(l[k])) continue;
        if (isZero(s[k])) {
          if (l[k]->isDoubleTy() || (isa<ConstantInt>(v) && l[k]->isIntegerTy(64))) B.CreateCall(fClear, {at(B, S->getPointerOperand(), off[k])});
          continue;
        }
        B.CreateCall(fStore, {at(B, S->getPointerOperand(), off[k]), bits(B, leafValue(B, v, k)), s[k]});
      }
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      Value *v = R->getReturnValue();
      if (!v) return;
      SmallVector<Type *, 8> l;
      if (!leavesOf(v->getType(), l)) return;
      Shadow s = getShadow(v);
      bool any = false;
      for (unsigned k = 0; k < l.size(); ++k) any |= slotTracked(l[k]) && !isZero(s[k]);
      if (!any) return;
      if (auto *pc = dyn_cast_or_null<CallInst>(R->getPrevNode())) if (pc->isMustTailCall()) return;
      IRBuilder<> B(R);
      unsigned k = 0;
      for (unsigned j = 0; j < l.size(); ++j) {
        if (!slotTracked(l[j]) || k >= MAXSLOTS) continue;
        B.CreateStore(s[j], slot(B, gRet, I32, k++));
      }
      B.CreateStore(R->getFunction(), gRetMark);
      return;
    }
    if (passThrough(I)) { if (maybe.count(I.getOperand(0))) sh[&I] = getShadow(I.getOperand(0)); return; }
    switch (I.getOpcode()) {
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (!maybe.count(&I)) return;
      int op = I.getOpcode() == Instruction::FAdd ? 1 : I.getOpcode() == Instruction::FSub ? 2 : I.getOpcode() == Instruction::FMul ? 3 : I.getOpcode() == Instruction::FDiv ? 4 : 5;
      Shadow a = getShadow(I.getOperand(0)), b = getShadow(I.getOperand(1)), s;
      IRBuilder<> A(I.getNextNode());
      if (!I.getType()->isDoubleTy() && !I.getType()->isVectorTy()) return;
      for (unsigned k = 0; k < a.size(); ++k) {
        if (isZero(a[k]) && isZero(b[k])) { s.push_back(Z32); continue; }
        s.push_back(A.CreateCall(fBin, {ConstantInt::get(I32, op), leafValue(A, I.getOperand(0), k), a[k], leafValue(A, I.getOperand(1), k), b[k], loc(I)}));
      }
      sh[&I] = s;
      return;
    }
    case Instruction::FNeg: {
      if (!maybe.count(&I)) return;
      Shadow a = getShadow(I.getOperand(0)), s;
      IRBuilder<> A(I.getNextNode());
      for (Value *x : a) s.push_back(isZero(x) ? (Value *)Z32 : A.CreateCall(fNeg, {x}));
      sh[&I] = s;
      return;
    }
    case Instruction::FCmp: {
      if (!I.getOperand(0)->getType()->isDoubleTy()) {
        if (I.getOperand(0)->getType()->isVectorTy())
          for (Value *o : I.operands()) for (Value *s : getShadow(o)) if (!isZero(s)) { IRBuilder<> A(I.getNextNode()); A.CreateCall(fLost, {str("vector fcmp"), s, loc(I)}); }
        return;
      }
      Value *a = s1(I.getOperand(0)), *b = s1(I.getOperand(1));
      if (isZero(a) && isZero(b)) return;
      IRBuilder<> A(I.getNextNode());
      unsigned pr = cast<FCmpInst>(I).getPredicate();
      if (pr == FCmpInst::FCMP_UNE && skipsZero(I)) pr |= 32;
      CallInst *r = A.CreateCall(fFcmp, {ConstantInt::get(I32, pr), I.getOperand(0), a, I.getOperand(1), b, &I, loc(I)});
      I.replaceUsesWithIf(r, [&](Use &u) { return u.getUser() != r; });
      return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (!I.getOperand(0)->getType()->isDoubleTy()) return;
      Value *a = s1(I.getOperand(0));
      if (isZero(a)) return;
      IRBuilder<> A(I.getNextNode());
      bool uns = I.getOpcode() == Instruction::FPToUI;
      Value *ext = uns ? A.CreateZExt(&I, I64) : A.CreateSExtOrTrunc(&I, I64);
      Value *r = A.CreateCall(fToInt, {I.getOperand(0), a, ConstantInt::get(I32, uns), ext, loc(I)});
      Value *t = A.CreateTruncOrBitCast(r, I.getType());
      I.replaceUsesWithIf(t, [&](Use &u) { return u.getUser() != ext && u.getUser() != r && u.getUser() != t; });
      return;
    }
    case Instruction::FPTrunc: case Instruction::FPExt: {
      if (!I.getOperand(0)->getType()->isDoubleTy()) return;
      Value *a = s1(I.getOperand(0));
      if (isZero(a)) return;
      IRBuilder<> A(I.getNextNode());
      A.CreateCall(fLost, {str("fpext/fptrunc"), a, loc(I)});
      return;
    }
    case Instruction::Select: {
      if (!maybe.count(&I)) return;
      auto &S = cast<SelectInst>(I);
      Shadow a = getShadow(S.getTrueValue()), b = getShadow(S.getFalseValue()), s;
      IRBuilder<> A(I.getNextNode());
      for (unsigned k = 0; k < a.size(); ++k) {
        Value *cond = S.getCondition();
        if (cond->getType()->isVectorTy()) cond = A.CreateExtractElement(cond, k);
        s.push_back(isZero(a[k]) && isZero(b[k]) ? (Value *)Z32 : A.CreateSelect(cond, a[k], b[k]));
      }
      sh[&I] = s;
      return;
    }
    case Instruction::ExtractValue: {
      if (!maybe.count(&I)) return;
      auto &E = cast<ExtractValueInst>(I);
      Shadow a = getShadow(E.getAggregateOperand()), s;
      SmallVector<Type *, 8> la, l;
      if (!leavesOf(E.getAggregateOperand()->getType(), la) || !leavesOf(E.getType(), l)) return;
      unsigned k0 = leafIndex(E.getAggregateOperand()->getType(), E.getIndices());
      for (unsigned k = 0; k < l.size(); ++k) s.push_back(a[k0 + k]);
      sh[&I] = s;
      return;
    }
    case Instruction::InsertValue: {
      if (!maybe.count(&I)) return;
      auto &E = cast<InsertValueInst>(I);
      SmallVector<Type *, 8> la, l;
      if (!leavesOf(E.getType(), la)) return;
      Shadow s = getShadow(E.getAggregateOperand());
      if (s.size() != la.size()) s.assign(la.size(), Z32);
      unsigned k0 = leafIndex(E.getType(), E.getIndices());
      flatten(E.getInsertedValueOperand()->getType(), l);
      Shadow v = getShadow(E.getInsertedValueOperand());
      for (unsigned k = 0; k < l.size(); ++k) s[k0 + k] = v.size() == l.size() ? v[k] : Z32;
      sh[&I] = s;
      return;
    }
    case Instruction::ExtractElement: {
      if (!maybe.count(&I)) return;
      Shadow a = getShadow(I.getOperand(0));
      if (auto *c = dyn_cast<ConstantInt>(I.getOperand(1))) sh[&I] = {a[c->getZExtValue()]};
      else { IRBuilder<> A(I.getNextNode()); for (Value *x : a) if (!isZero(x)) A.CreateCall(fLost, {str("extractelement"), x, loc(I)}); }
      return;
    }
    case Instruction::InsertElement: {
      if (!maybe.count(&I)) return;
      Shadow s = getShadow(I.getOperand(0));
      if (auto *c = dyn_cast<ConstantInt>(I.getOperand(2))) { s[c->getZExtValue()] = s1(I.getOperand(1)); sh[&I] = s; }
      else { IRBuilder<> A(I.getNextNode()); A.CreateCall(fLost, {str("insertelement"), s1(I.getOperand(1)), loc(I)}); }
      return;
    }
    case Instruction::ShuffleVector: {
      if (!maybe.count(&I)) return;
      auto &S = cast<ShuffleVectorInst>(I);
      Shadow a = getShadow(I.getOperand(0)), b = getShadow(I.getOperand(1)), s;
      for (int m : S.getShuffleMask()) s.push_back(m < 0 ? (Value *)Z32 : (unsigned)m < a.size() ? a[m] : b[m - a.size()]);
      sh[&I] = s;
      return;
    }
    default: break;
    }
  }
};

struct SxPass : PassInfoMixin<SxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Instrumenter X(M);
    std::vector<Function *> fs;
    for (Function &F : M)
      if (!F.isDeclaration() && !F.getName().starts_with("__sx_") && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    for (Function *F : fs) X.runFunction(*F);
    // instrumented functions read and write shadow state: what the optimizer found out about their effects is no longer true
    for (Function &F : M) {
      if (!F.isIntrinsic()) F.setMemoryEffects(MemoryEffects::unknown());
      for (Instruction &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (!isa<IntrinsicInst>(CB)) CB->setMemoryEffects(MemoryEffects::unknown());
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
          }};
}
