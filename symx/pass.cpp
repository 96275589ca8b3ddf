// symx instrumentation pass: adds shadow symbolic expressions to every function of a module.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <functional>
#include <fstream>
#include <map>
#include <set>
using namespace llvm;
namespace {
enum Op { // keep in sync with rt.cpp
  OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR, OP_UMAX, OP_UMIN, OP_SMAX, OP_SMIN, OP_UADDSAT, OP_USUBSAT
};
enum { CAST_TRUNC = 1, CAST_ZEXT, CAST_SEXT };
struct RT {
  Module& M;
  LLVMContext& C;
  Type *Void, *I1, *I8, *I32, *I64;
  PointerType* P;
  FunctionCallee bin, binw, cmp, cmpw, cast, sel, selw, br, load, store, clear, conc, concmem, memcpy_, memset_, enter, ovf, bswap, copyshadow, extptr, abs_, split_;
  GlobalVariable *args, *ret, *callee, *retfrom, *byval;
  Constant* Null;
  explicit RT(Module& M) : M(M), C(M.getContext()) {
    Void = Type::getVoidTy(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    P = PointerType::get(C, 0);
    Null = ConstantPointerNull::get(P);
    auto D = [&](const char* n, Type* r, std::vector<Type*> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    bin = D("__symx_bin", P, {I32, I32, P, I64, P, I64});
    binw = D("__symx_binw", P, {I32, I32, P, I64, I64, P, I64, I64});
    cmp = D("__symx_cmp", P, {I32, I32, P, I64, P, I64});
    cmpw = D("__symx_cmpw", P, {I32, I32, P, I64, I64, P, I64, I64});
    cast = D("__symx_cast", P, {I32, I32, I32, P});
    sel = D("__symx_sel", P, {P, I1, I32, P, I64, P, I64});
    selw = D("__symx_selw", P, {P, I1, I32, P, I64, I64, P, I64, I64});
    br = D("__symx_br", Void, {P, I1, I32});
    load = D("__symx_load", P, {P, I64});
    store = D("__symx_store", Void, {P, P, I64});
    clear = D("__symx_clear", Void, {P, I64});
    conc = D("__symx_conc", Void, {P, I64, I32});
    concmem = D("__symx_concmem", Void, {P, I64, I32});
    memcpy_ = D("__symx_memcpy", Void, {P, P, I64});
    memset_ = D("__symx_memset", Void, {P, P, I64});
    enter = D("__symx_enter", I1, {P, I32});
    ovf = D("__symx_ovf", P, {I32, I32, I32, P, I64, P, I64});
    bswap = D("__symx_bswap", P, {I32, P});
    abs_ = D("__symx_abs", P, {I32, P});
    copyshadow = D("__symx_copyshadow", Void, {P, P, I64});
    extptr = D("__symx_extptr", Void, {P, I32});
    auto G = [&](const char* n, Type* t) {
      return cast_or_null<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    args = G("__symx_args", ArrayType::get(P, 64));
    ret = G("__symx_ret", ArrayType::get(P, 64));
    byval = G("__symx_byval", ArrayType::get(P, 64));
    callee = G("__symx_callee", P);
    retfrom = G("__symx_retfrom", P);
  }
  static GlobalVariable* cast_or_null_(Constant* c) { return dyn_cast<GlobalVariable>(c); }
  template <class T> static T* cast_or_null(Constant* c) { return dyn_cast<T>(c); }
};
int gSite = 0;
std::vector<std::string> gSites;
std::map<std::string, int> gExternals;
std::vector<std::string> gCover;  // SYMX_COVER: the source lines of each block (a debugging aid, off in checks)
int siteOf(Instruction* I) {
  std::string s = I->getFunction()->getName().str();
  if (auto& dl = I->getDebugLoc()) {
    s = (dl->getFilename() + ":" + Twine(dl->getLine())).str() + " in " + s;
  }
  gSites.push_back(s);
  return gSite++;
}
void leavesOf(Type* t, SmallVectorImpl<Type*>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { for (Type* e : s->elements()) leavesOf(e, out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), out); return; }
  if (t->isVoidTy()) return;
  out.push_back(t);
}
bool isSym(Type* t) {
  if (t->isPointerTy()) return true;
  if (auto* i = dyn_cast<IntegerType>(t)) return i->getBitWidth() <= 128;
  return false;
}
unsigned widthOf(Type* t) { return t->isPointerTy() ? 64 : cast<IntegerType>(t)->getBitWidth(); }
struct FI {
  RT& R; Function& F; const DataLayout& DL; int fnid;
  DenseMap<Value*, SmallVector<Value*, 2>> S;
  FI(RT& R, Function& F, int id) : R(R), F(F), DL(F.getParent()->getDataLayout()), fnid(id) {}
  SmallVector<Value*, 2> sh(Value* v) {
    auto it = S.find(v);
    if (it != S.end()) return it->second;
    SmallVector<Type*, 4> l; leavesOf(v->getType(), l);
    return SmallVector<Value*, 2>(l.size(), R.Null);
  }
  Value* sh1(Value* v) { auto x = sh(v); return x.empty() ? (Value*)R.Null : x[0]; }
  bool isNull(Value* s) { return s == R.Null; }
  bool allNull(Value* v) { for (Value* s : sh(v)) if (!isNull(s)) return false; return true; }
  Value* val64(IRBuilder<>& B, Value* v) {
    Type* t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, R.I64);
    unsigned w = widthOf(t);
    if (w == 64) return v;
    if (w < 64) return B.CreateZExt(v, R.I64);
    return B.CreateTrunc(v, R.I64);
  }
  Value* valhi(IRBuilder<>& B, Value* v) {
    unsigned w = widthOf(v->getType());
    if (w <= 64) return ConstantInt::get(R.I64, 0);
    return B.CreateTrunc(B.CreateLShr(v, ConstantInt::get(v->getType(), 64)), R.I64);
  }
  Value* c32(int x) { return ConstantInt::get(R.I32, x); }
  Value* c64(uint64_t x) { return ConstantInt::get(R.I64, x); }
  // Concretize every shadow of v.
  void concV(IRBuilder<>& B, Value* v, Instruction* I) {
    if (allNull(v)) return;
    Type* t = v->getType();
    if (isSym(t)) {
      // wide values: concretize the two halves
      unsigned w = widthOf(t);
      Value* s = sh1(v);
      if (w <= 64) { B.CreateCall(R.conc, {s, val64(B, v), c32(siteOf(I))}); }
      else {
        Value* lo = B.CreateCall(R.cast, {c32(CAST_TRUNC), c32(w), c32(64), s});
        B.CreateCall(R.conc, {lo, val64(B, v), c32(siteOf(I))});
        Value* hs = B.CreateCall(R.binw, {c32(OP_LSHR), c32(w), s, val64(B, v), valhi(B, v), R.Null, c64(64), c64(0)});
        Value* hi = B.CreateCall(R.cast, {c32(CAST_TRUNC), c32(w), c32(64), hs});
        B.CreateCall(R.conc, {hi, valhi(B, v), c32(siteOf(I))});
      }
      return;
    }
    // aggregate: per leaf via extractvalue
    SmallVector<Type*, 4> l; leavesOf(t, l);
    auto shs = sh(v);
    std::vector<unsigned> idx; unsigned leaf = 0;
    std::function<void(Type*, std::vector<unsigned>)> rec = [&](Type* tt, std::vector<unsigned> path) {
      if (auto* s = dyn_cast<StructType>(tt)) { for (unsigned i = 0; i < s->getNumElements(); i++) { auto p = path; p.push_back(i); rec(s->getElementType(i), p); } return; }
      if (auto* a = dyn_cast<ArrayType>(tt)) { for (unsigned i = 0; i < a->getNumElements(); i++) { auto p = path; p.push_back(i); rec(a->getElementType(), p); } return; }
      Value* s = shs[leaf++];
      if (isNull(s) || !isSym(tt) || widthOf(tt) > 64) return;
      Value* e = B.CreateExtractValue(v, path);
      B.CreateCall(R.conc, {s, val64(B, e), c32(siteOf(I))});
    };
    rec(t, {});
  }
  Value* binop(IRBuilder<>& B, int op, unsigned w, Value* sa, Value* a, Value* sb, Value* b) {
    if (isNull(sa) && isNull(sb)) return R.Null;
    if (w <= 64) return B.CreateCall(R.bin, {c32(op), c32(w), sa, val64(B, a), sb, val64(B, b)});
    return B.CreateCall(R.binw, {c32(op), c32(w), sa, val64(B, a), valhi(B, a), sb, val64(B, b), valhi(B, b)});
  }
  Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i) {
    return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i);
  }
  void set(Value* v, SmallVector<Value*, 2> s) { S[v] = s; }
  void run() {
    removeUnreachableBlocks(F);
    // Split critical invoke edges so results can be read on the normal path.
    SmallVector<InvokeInst*, 8> invs;
    for (auto& I : instructions(F)) if (auto* iv = dyn_cast<InvokeInst>(&I)) invs.push_back(iv);
    for (auto* iv : invs) {
      if (!iv->getNormalDest()->getSinglePredecessor() || isa<PHINode>(iv->getNormalDest()->front())) {
        BasicBlock* nd = iv->getNormalDest();
        BasicBlock* nb = BasicBlock::Create(F.getContext(), "symx.inv", &F, nd);
        BranchInst::Create(nd, nb);
        for (PHINode& ph : nd->phis()) ph.replaceIncomingBlockWith(iv->getParent(), nb);
        // keep other edge (unwind) untouched
        iv->setNormalDest(nb);
      }
    }
    for (auto& I : instructions(F)) if (auto* ci = dyn_cast<CallInst>(&I)) if (ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
    std::vector<Instruction*> work;
    ReversePostOrderTraversal<Function*> rpo(&F);
    for (BasicBlock* bb : rpo) for (Instruction& I : *bb) work.push_back(&I);
    // Prologue
    {
      BasicBlock& eb = F.getEntryBlock();
      auto it = eb.begin();
      while (isa<AllocaInst>(*it) || isa<DbgInfoIntrinsic>(*it)) ++it;
      IRBuilder<> B(&eb, it);
      Value* m = B.CreateCall(R.enter, {&F, c32(fnid)});
      unsigned ai = 0;
      for (Argument& A : F.args()) {
        SmallVector<Type*, 4> l; leavesOf(A.getType(), l);
        SmallVector<Value*, 2> s;
        for (Type* t : l) {
          if (ai < 64 && isSym(t)) {
            Value* x = B.CreateLoad(R.P, slot(B, R.args, ai));
            s.push_back(B.CreateSelect(m, x, R.Null));
          } else s.push_back(R.Null);
          ai++;
        }
        if (A.hasByValAttr()) {
          unsigned k = A.getArgNo();
          uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
          Value* src = B.CreateLoad(R.P, slot(B, R.byval, k < 64 ? k : 63));
          B.CreateCall(R.copyshadow, {&A, B.CreateSelect(m, src, R.Null), c64(sz)});
          s.assign(s.size(), R.Null);
        }
        set(&A, s);
      }
      for (auto& I : eb) if (auto* al = dyn_cast<AllocaInst>(&I)) {
        if (!al->isStaticAlloca()) continue;
        auto sz = al->getAllocationSize(DL);
        if (sz) B.CreateCall(R.clear, {al, c64(sz->getFixedValue())});
      }
    }
    // Shadow phis
    std::vector<std::pair<PHINode*, SmallVector<PHINode*, 2>>> phis;
    for (Instruction* I : work) if (auto* ph = dyn_cast<PHINode>(I)) {
      SmallVector<Type*, 4> l; leavesOf(ph->getType(), l);
      SmallVector<Value*, 2> s; SmallVector<PHINode*, 2> ps;
      for (Type* t : l) {
        if (!isSym(t)) { s.push_back(R.Null); ps.push_back(nullptr); continue; }
        PHINode* np = PHINode::Create(R.P, ph->getNumIncomingValues(), "s", ph);
        s.push_back(np); ps.push_back(np);
      }
      set(ph, s); phis.push_back({ph, ps});
    }
    for (Instruction* I : work) visit(I);
    for (auto& [ph, ps] : phis)
      for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
        auto s = sh(ph->getIncomingValue(i));
        for (unsigned k = 0; k < ps.size(); k++) if (ps[k]) ps[k]->addIncoming(s[k], ph->getIncomingBlock(i));
      }
    // fold phis that are entirely null
    bool changed = true;
    while (changed) {
      changed = false;
      for (auto& [ph, ps] : phis) for (auto*& np : ps) if (np) {
        bool allnull = true;
        for (Value* v : np->incoming_values()) if (v != R.Null && v != np) { allnull = false; break; }
        if (allnull) { np->replaceAllUsesWith(R.Null); np->eraseFromParent(); np = nullptr; changed = true; }
      }
    }
  }
  Instruction* after(Instruction* I) { return I->getNextNode(); }
  void visit(Instruction* I) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) || isa<LandingPadInst>(I)) return;
    if (auto* bo = dyn_cast<BinaryOperator>(I)) {
      if (!isSym(I->getType())) return;
      Value *sa = sh1(bo->getOperand(0)), *sb = sh1(bo->getOperand(1));
      if (isNull(sa) && isNull(sb)) return;
      int op = 0;
      switch (bo->getOpcode()) {
        case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break;
        case Instruction::Mul: op = OP_MUL; break; case Instruction::UDiv: op = OP_UDIV; break;
        case Instruction::SDiv: op = OP_SDIV; break; case Instruction::URem: op = OP_UREM; break;
        case Instruction::SRem: op = OP_SREM; break; case Instruction::Shl: op = OP_SHL; break;
        case Instruction::LShr: op = OP_LSHR; break; case Instruction::AShr: op = OP_ASHR; break;
        case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break;
        case Instruction::Xor: op = OP_XOR; break; default: break;
      }
      IRBuilder<> B(after(I));
      if (op >= OP_UDIV && op <= OP_SREM) {
        // A symbolic divisor may be zero: make that a case of its own before dividing.
        if (!isNull(sb)) {
          IRBuilder<> B0(I);
          unsigned w = widthOf(I->getType());
          Value* nz = B0.CreateICmpNE(bo->getOperand(1), ConstantInt::get(I->getType(), 0));
          Value* e = w <= 64 ? (Value*)B0.CreateCall(R.cmp, {c32(CmpInst::ICMP_NE), c32(w), sb, val64(B0, bo->getOperand(1)), R.Null, c64(0)}) : (Value*)R.Null;
          B0.CreateCall(R.br, {e, nz, c32(siteOf(I))});
        }
      }
      set(I, {binop(B, op, widthOf(I->getType()), sa, bo->getOperand(0), sb, bo->getOperand(1))});
      return;
    }
    if (auto* ic = dyn_cast<ICmpInst>(I)) {
      Value *a = ic->getOperand(0), *b = ic->getOperand(1);
      if (!isSym(a->getType())) return;
      Value *sa = sh1(a), *sb = sh1(b);
      if (isNull(sa) && isNull(sb)) return;
      IRBuilder<> B(after(I));
      unsigned w = widthOf(a->getType());
      if (w <= 64) set(I, {B.CreateCall(R.cmp, {c32(ic->getPredicate()), c32(w), sa, val64(B, a), sb, val64(B, b)})});
      else set(I, {B.CreateCall(R.cmpw, {c32(ic->getPredicate()), c32(w), sa, val64(B, a), valhi(B, a), sb, val64(B, b), valhi(B, b)})});
      return;
    }
    if (auto* ci = dyn_cast<CastInst>(I)) {
      Value* a = ci->getOperand(0);
      if (allNull(a)) return;
      if (isSym(a->getType()) && isSym(ci->getType())) {
        unsigned wf = widthOf(a->getType()), wt = widthOf(ci->getType());
        IRBuilder<> B(after(I));
        Value* s = sh1(a);
        if (wf == wt) { set(I, {s}); return; }
        int op = wt < wf ? CAST_TRUNC : (isa<SExtInst>(ci) ? CAST_SEXT : CAST_ZEXT);
        set(I, {B.CreateCall(R.cast, {c32(op), c32(wf), c32(wt), s})});
        return;
      }
      IRBuilder<> B(I);
      concV(B, a, I);
      return;
    }
    if (auto* se = dyn_cast<SelectInst>(I)) {
      Value *c = se->getCondition(), *a = se->getTrueValue(), *b = se->getFalseValue();
      if (allNull(c) && allNull(a) && allNull(b)) return;
      if (c->getType() != R.I1) return;  // vector select
      IRBuilder<> B(after(I));
      if (isSym(I->getType())) {
        unsigned w = widthOf(I->getType());
        Value *sc = sh1(c), *sa = sh1(a), *sb = sh1(b);
        if (w <= 64) set(I, {B.CreateCall(R.sel, {sc, c, c32(w), sa, val64(B, a), sb, val64(B, b)})});
        else set(I, {B.CreateCall(R.selw, {sc, c, c32(w), sa, val64(B, a), valhi(B, a), sb, val64(B, b), valhi(B, b)})});
        return;
      }
      IRBuilder<> B0(I);
      if (!isNull(sh1(c))) concV(B0, c, I);
      auto sa = sh(a), sb = sh(b);
      SmallVector<Value*, 2> s;
      for (unsigned i = 0; i < sa.size(); i++) s.push_back(sa[i] == sb[i] ? sa[i] : B.CreateSelect(c, sa[i], sb[i]));
      set(I, s);
      return;
    }
    if (auto* ld = dyn_cast<LoadInst>(I)) {
      IRBuilder<> B0(I);
      concV(B0, ld->getPointerOperand(), I);
      uint64_t n = DL.getTypeStoreSize(I->getType());
      if (!isSym(I->getType()) || ld->isAtomic()) {
        if (I->getType()->isAggregateType()) errs() << "symx: aggregate load\n";
        B0.CreateCall(R.concmem, {ld->getPointerOperand(), c64(n), c32(siteOf(I))});
        return;
      }
      Value* s = B0.CreateCall(R.load, {ld->getPointerOperand(), c64(n)});
      unsigned w = widthOf(I->getType());
      if (w != n * 8) s = B0.CreateCall(R.cast, {c32(CAST_TRUNC), c32(n * 8), c32(w), s});
      set(I, {s});
      return;
    }
    if (auto* st = dyn_cast<StoreInst>(I)) {
      IRBuilder<> B(I);
      concV(B, st->getPointerOperand(), I);
      Value* v = st->getValueOperand();
      uint64_t n = DL.getTypeStoreSize(v->getType());
      if (!isSym(v->getType())) { concV(B, v, I); B.CreateCall(R.clear, {st->getPointerOperand(), c64(n)}); return; }
      Value* s = sh1(v);
      if (isNull(s)) { B.CreateCall(R.clear, {st->getPointerOperand(), c64(n)}); return; }
      unsigned w = widthOf(v->getType());
      if (w != n * 8) s = B.CreateCall(R.cast, {c32(CAST_ZEXT), c32(w), c32(n * 8), s});
      // the shadow needs the new concrete bytes: emit after the store
      IRBuilder<> BA(after(I));
      BA.CreateCall(R.store, {st->getPointerOperand(), s, c64(n)});
      return;
    }
    if (auto* gep = dyn_cast<GetElementPtrInst>(I)) {
      if (!gep->getType()->isPointerTy()) return;
      bool any = false;
      for (Value* op : gep->operands()) if (!allNull(op)) any = true;
      if (!any) return;
      IRBuilder<> B(after(I));
      Value* s = sh1(gep->getPointerOperand());
      Value* v = B.CreatePtrToInt(gep->getPointerOperand(), R.I64);
      for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) {
        Value* idx = gti.getOperand();
        if (StructType* stt = gti.getStructTypeOrNull()) {
          uint64_t off = DL.getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          if (!off) continue;
          Value* o = c64(off);
          s = binop(B, OP_ADD, 64, s, v, R.Null, o);
          v = B.CreateAdd(v, o);
        } else {
          uint64_t sz = gti.getSequentialElementStride(DL);
          unsigned w = widthOf(idx->getType());
          Value* iv = B.CreateSExtOrTrunc(idx, R.I64);
          Value* is = sh1(idx);
          if (!isNull(is) && w != 64) is = B.CreateCall(R.cast, {c32(w < 64 ? CAST_SEXT : CAST_TRUNC), c32(w), c32(64), is});
          Value* o = B.CreateMul(iv, c64(sz));
          Value* os = binop(B, OP_MUL, 64, is, iv, R.Null, c64(sz));
          s = binop(B, OP_ADD, 64, s, v, os, o);
          v = B.CreateAdd(v, o);
        }
      }
      set(I, {s});
      return;
    }
    if (auto* al = dyn_cast<AllocaInst>(I)) {
      if (!al->isStaticAlloca()) {
        IRBuilder<> B0(I); concV(B0, al->getArraySize(), I);
        IRBuilder<> B(after(I));
        Value* n = B.CreateMul(B.CreateZExtOrTrunc(al->getArraySize(), R.I64), c64(DL.getTypeAllocSize(al->getAllocatedType())));
        B.CreateCall(R.clear, {al, n});
      }
      return;
    }
    if (auto* ev = dyn_cast<ExtractValueInst>(I)) {
      auto s = sh(ev->getAggregateOperand());
      unsigned off = 0; Type* t = ev->getAggregateOperand()->getType();
      for (unsigned ix : ev->indices()) {
        for (unsigned k = 0; k < ix; k++) { SmallVector<Type*, 4> l; leavesOf(GetElementPtrInst::getTypeAtIndex(t, (uint64_t)k), l); off += l.size(); }
        t = GetElementPtrInst::getTypeAtIndex(t, (uint64_t)ix);
      }
      SmallVector<Type*, 4> l; leavesOf(t, l);
      SmallVector<Value*, 2> r;
      for (unsigned k = 0; k < l.size(); k++) r.push_back(s[off + k]);
      set(I, r);
      return;
    }
    if (auto* iv = dyn_cast<InsertValueInst>(I)) {
      auto s = sh(iv->getAggregateOperand());
      unsigned off = 0; Type* t = iv->getAggregateOperand()->getType();
      for (unsigned ix : iv->indices()) {
        for (unsigned k = 0; k < ix; k++) { SmallVector<Type*, 4> l; leavesOf(GetElementPtrInst::getTypeAtIndex(t, (uint64_t)k), l); off += l.size(); }
        t = GetElementPtrInst::getTypeAtIndex(t, (uint64_t)ix);
      }
      auto sv = sh(iv->getInsertedValueOperand());
      for (unsigned k = 0; k < sv.size(); k++) s[off + k] = sv[k];
      set(I, s);
      return;
    }
    if (isa<FreezeInst>(I)) { set(I, sh(I->getOperand(0))); return; }
    if (auto* b = dyn_cast<BranchInst>(I)) {
      if (b->isConditional() && !isNull(sh1(b->getCondition()))) {
        IRBuilder<> B(I);
        B.CreateCall(R.br, {sh1(b->getCondition()), b->getCondition(), c32(siteOf(I))});
      }
      return;
    }
    if (auto* sw = dyn_cast<SwitchInst>(I)) { IRBuilder<> B(I); concV(B, sw->getCondition(), I); return; }
    if (auto* rt = dyn_cast<ReturnInst>(I)) {
      IRBuilder<> B(I);
      if (Value* v = rt->getReturnValue()) {
        auto s = sh(v);
        for (unsigned k = 0; k < s.size() && k < 64; k++) B.CreateStore(s[k], slot(B, R.ret, k));
        B.CreateStore(&F, R.retfrom);
      }
      return;
    }
    if (auto* cb = dyn_cast<CallBase>(I)) { visitCall(cb); return; }
    if (isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
    // everything else (atomics, vectors, floats): concretize operands
    IRBuilder<> B(I);
    for (Value* op : I->operands()) if (!isa<BasicBlock>(op)) concV(B, op, I);
    if (auto* rmw = dyn_cast<AtomicRMWInst>(I)) { uint64_t n = DL.getTypeStoreSize(rmw->getType()); B.CreateCall(R.concmem, {rmw->getPointerOperand(), c64(n), c32(siteOf(I))}); B.CreateCall(R.clear, {rmw->getPointerOperand(), c64(n)}); }
    if (auto* cx = dyn_cast<AtomicCmpXchgInst>(I)) { uint64_t n = DL.getTypeStoreSize(cx->getNewValOperand()->getType()); B.CreateCall(R.concmem, {cx->getPointerOperand(), c64(n), c32(siteOf(I))}); B.CreateCall(R.clear, {cx->getPointerOperand(), c64(n)}); }
  }
  Instruction* resultPoint(CallBase* cb) {
    if (auto* iv = dyn_cast<InvokeInst>(cb)) return &*iv->getNormalDest()->getFirstInsertionPt();
    return cb->getNextNode();
  }
  void visitCall(CallBase* cb) {
    Instruction* I = cb;
    IRBuilder<> B(I);
    Function* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
    if (auto* in = dyn_cast<IntrinsicInst>(cb)) {
      auto id = in->getIntrinsicID();
      switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::is_constant:
        case Intrinsic::objectsize: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap:
        case Intrinsic::eh_typeid_for: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::vastart: case Intrinsic::vaend:
          return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
          set(I, sh(cb->getArgOperand(0))); return;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
          for (int k = 0; k < 3; k++) concV(B, cb->getArgOperand(k), I);
          B.CreateCall(R.memcpy_, {cb->getArgOperand(0), cb->getArgOperand(1), B.CreateZExtOrTrunc(cb->getArgOperand(2), R.I64)});
          return;
        case Intrinsic::memset: case Intrinsic::memset_inline: {
          concV(B, cb->getArgOperand(0), I); concV(B, cb->getArgOperand(2), I);
          IRBuilder<> BA(after(I));
          BA.CreateCall(R.memset_, {cb->getArgOperand(0), sh1(cb->getArgOperand(1)), BA.CreateZExtOrTrunc(cb->getArgOperand(2), R.I64)});
          return;
        }
        default: break;
      }
      if (cb->arg_size() >= 1 && isSym(cb->getArgOperand(0)->getType())) {
        bool any = false;
        for (Value* a : cb->args()) if (!allNull(a)) any = true;
        if (!any) return;
        Value* a = cb->getArgOperand(0);
        Value* b = cb->arg_size() > 1 ? cb->getArgOperand(1) : nullptr;
        unsigned w = widthOf(a->getType());
        int op = 0, ov = 0, sg = 0;
        switch (id) {
          case Intrinsic::umax: op = OP_UMAX; break; case Intrinsic::umin: op = OP_UMIN; break;
          case Intrinsic::smax: op = OP_SMAX; break; case Intrinsic::smin: op = OP_SMIN; break;
          case Intrinsic::uadd_sat: op = OP_UADDSAT; break; case Intrinsic::usub_sat: op = OP_USUBSAT; break;
          case Intrinsic::uadd_with_overflow: ov = OP_ADD; break; case Intrinsic::usub_with_overflow: ov = OP_SUB; break;
          case Intrinsic::umul_with_overflow: ov = OP_MUL; break;
          case Intrinsic::sadd_with_overflow: ov = OP_ADD; sg = 1; break; case Intrinsic::ssub_with_overflow: ov = OP_SUB; sg = 1; break;
          case Intrinsic::smul_with_overflow: ov = OP_MUL; sg = 1; break;
          default: break;
        }
        IRBuilder<> BA(after(I));
        if (w <= 64 && op) { set(I, {binop(BA, op, w, sh1(a), a, sh1(b), b)}); return; }
        if (w <= 64 && ov) {
          Value* r = binop(BA, ov, w, sh1(a), a, sh1(b), b);
          Value* o = BA.CreateCall(R.ovf, {c32(ov), c32(sg), c32(w), sh1(a), val64(BA, a), sh1(b), val64(BA, b)});
          set(I, {r, o}); return;
        }
        if (id == Intrinsic::bswap && w <= 64) { set(I, {BA.CreateCall(R.bswap, {c32(w), sh1(a)})}); return; }
        if (id == Intrinsic::abs && w <= 64) { set(I, {BA.CreateCall(R.abs_, {c32(w), sh1(a)})}); return; }
        if ((id == Intrinsic::fshl || id == Intrinsic::fshr) && w <= 64 && isa<ConstantInt>(cb->getArgOperand(2))) {
          unsigned k = cast<ConstantInt>(cb->getArgOperand(2))->getZExtValue() % w;
          if (k == 0) { set(I, {id == Intrinsic::fshl ? sh1(a) : sh1(b)}); return; }
          unsigned l = id == Intrinsic::fshl ? k : w - k;
          Type* t = a->getType();
          Value* av = BA.CreateShl(a, ConstantInt::get(t, l)); Value* bv = BA.CreateLShr(b, ConstantInt::get(t, w - l));
          Value* as = binop(BA, OP_SHL, w, sh1(a), a, R.Null, ConstantInt::get(t, l));
          Value* bs = binop(BA, OP_LSHR, w, sh1(b), b, R.Null, ConstantInt::get(t, w - l));
          set(I, {binop(BA, OP_OR, w, as, av, bs, bv)}); return;
        }
      }
      for (Value* a : cb->args()) if (!a->getType()->isMetadataTy()) concV(B, a, I);
      return;
    }
    if (cb->isInlineAsm()) { for (Value* a : cb->args()) concV(B, a, I); return; }
    bool external = f && f->isDeclaration() && !f->getName().starts_with("symx_") && !f->getName().starts_with("symxlib_");
    if (f && f->getName().starts_with("__symx_")) return;
    if (!f) concV(B, cb->getCalledOperand(), I);
    if (external) {
      StringRef n = f->getName();
      gExternals[n.str()]++;
      for (Value* a : cb->args()) if (!a->getType()->isMetadataTy()) concV(B, a, I);
      int p = -1, l = -1;
      if (n == "_ZSt11_Hash_bytesPKvmm") p = 0, l = 1;
      else if (n == "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l") p = 1, l = 2;
      if (n == "memcpy" || n == "memmove") { B.CreateCall(R.memcpy_, {cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)}); return; }
      if (n == "memset") { B.CreateCall(R.clear, {cb->getArgOperand(0), cb->getArgOperand(2)}); return; }
      if (p >= 0) { B.CreateCall(R.concmem, {cb->getArgOperand(p), cb->getArgOperand(l), c32(siteOf(I))}); return; }
      static const std::set<std::string> quiet = {"_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_allocate_exception", "__cxa_throw", "__cxa_free_exception", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_atexit", "__dynamic_cast", "_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"};
      if (!quiet.count(n.str()))
        for (Value* a : cb->args()) if (a->getType()->isPointerTy() && !isa<Constant>(a)) B.CreateCall(R.extptr, {a, c32(siteOf(I))});
      return;
    }
    // instrumented (or possibly instrumented) callee
    unsigned ai = 0, k = 0;
    for (Value* a : cb->args()) {
      if (a->getType()->isMetadataTy()) { k++; continue; }
      if (k >= cb->getFunctionType()->getNumParams()) { concV(B, a, I); k++; continue; }  // variadic part
      auto s = sh(a);
      for (Value* x : s) { if (ai < 64) B.CreateStore(x, slot(B, R.args, ai)); else if (!isNull(x)) concV(B, a, I); ai++; }
      if (cb->isByValArgument(k) && k < 64) B.CreateStore(a, slot(B, R.byval, k));
      k++;
    }
    B.CreateStore(cb->getCalledOperand(), R.callee);
    SmallVector<Type*, 4> l; leavesOf(cb->getType(), l);
    if (!l.empty()) {
      B.CreateStore(R.Null, R.retfrom);
      {
        IRBuilder<> BA(resultPoint(cb));
        Value* ok = BA.CreateICmpEQ(BA.CreateLoad(R.P, R.retfrom), cb->getCalledOperand()->stripPointerCasts());
        SmallVector<Value*, 2> s;
        for (unsigned i = 0; i < l.size(); i++)
          s.push_back(isSym(l[i]) && i < 64 ? BA.CreateSelect(ok, BA.CreateLoad(R.P, slot(BA, R.ret, i)), R.Null) : (Value*)R.Null);
        set(I, s);
      }
    }
  }
};
struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    // redirect some libc functions to instrumented implementations
    const char* redir[] = {"memcmp", "bcmp", "strlen", "memchr", "strcmp"};
    for (const char* n : redir)
      if (Function* f = M.getFunction(n)) if (f->isDeclaration())
        if (Function* g = M.getFunction(std::string("symxlib_") + n)) f->replaceAllUsesWith(g);
    RT R(M);
    std::vector<Function*> fs;
    for (Function& F : M) if (!F.isDeclaration() && !F.getName().starts_with("__symx_")) fs.push_back(&F);
    std::string outp = getenv("SYMX_META") ? getenv("SYMX_META") : "";
    std::vector<std::pair<std::string, std::string>> fns;
    int id = 0;
    for (Function* F : fs) {
      std::string file;
      if (auto* sp = F->getSubprogram()) { file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file; }
      fns.push_back({llvm::demangle(F->getName().str()), file});
      std::vector<std::pair<BasicBlock*, int>> cover;
      if (getenv("SYMX_COVER")) for (BasicBlock& bb : *F) {
        std::set<std::string> l;
        for (Instruction& I : bb) for (const DILocation* d = I.getDebugLoc(); d; d = d->getInlinedAt())
          if (d->getLine()) l.insert((d->getFilename() + ":" + Twine(d->getLine())).str());
        if (l.empty()) continue;
        cover.push_back({&bb, (int)gCover.size()});
        std::string t; for (auto& x : l) t += x + " ";
        gCover.push_back(t);
      }
      FI(R, *F, id++).run();
      for (auto& [bb, n] : cover) {
        IRBuilder<> B(bb, bb->getFirstInsertionPt());
        B.CreateCall(M.getOrInsertFunction("__symx_cover", FunctionType::get(Type::getVoidTy(M.getContext()), {R.I32}, false)), {ConstantInt::get(R.I32, n)});
      }
    }
    const char* heap[][2] = {{"_Znwm", "__symx_new"}, {"_Znam", "__symx_new"}, {"_ZdlPv", "__symx_delete"}, {"_ZdaPv", "__symx_delete"}};
    for (auto& h : heap) if (Function* f = M.getFunction(h[0])) {
      auto g = M.getOrInsertFunction(h[1], f->getFunctionType());
      f->replaceAllUsesWith(g.getCallee());
    }
    for (const char* n : {"_ZdlPvm", "_ZdaPvm"}) if (Function* f = M.getFunction(n)) {
      auto g = M.getOrInsertFunction("__symx_delete2", f->getFunctionType());
      f->replaceAllUsesWith(g.getCallee());
    }
    auto esc = [](const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; };
    if (!outp.empty()) {
      std::ofstream o(outp);
      o << "{\"functions\":[";
      for (size_t i = 0; i < fns.size(); i++) o << (i ? "," : "") << "\n[\"" << esc(fns[i].first) << "\",\"" << esc(fns[i].second) << "\"]";
      o << "],\n\"sites\":[";
      for (size_t i = 0; i < gSites.size(); i++) o << (i ? "," : "") << "\n\"" << esc(gSites[i]) << "\"";
      o << "],\n\"externals\":{";
      bool first = true;
      for (auto& [n, c] : gExternals) { o << (first ? "" : ",") << "\n\"" << esc(llvm::demangle(n)) << "\":" << c; first = false; }
      o << "}}\n";
    }
    if (getenv("SYMX_COVER")) { std::ofstream o(getenv("SYMX_COVER") + std::string(".table")); for (auto& x : gCover) o << x << "\n"; }
    return PreservedAnalyses::none();
  }
};
}  // namespace
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "0.1", [](PassBuilder& PB) {
            PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (n == "symx") { MPM.addPass(SymxPass()); return true; }
              return false;
            });
          }};
}
