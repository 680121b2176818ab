// Shadow-expression instrumentation for dynamic symbolic execution.
// Every integer/pointer SSA value gets a 32-bit shadow (0 = concrete, otherwise an
// expression-node id in the runtime).  See symrt.h for the runtime interface.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <set>
#include <vector>
using namespace llvm;

namespace {
enum Op { OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
          OP_AND, OP_OR, OP_XOR, OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
          OP_ZEXT, OP_SEXT, OP_TRUNC };

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I32, *I64, *VoidT; PointerType *PtrT;
  FunctionCallee fBin, fCast, fLoad, fLoadSym, fStore, fBranch, fSwitch, fIte, fConc, fMemcpy, fMemset, fLost;
  GlobalVariable *gArgs, *gRet, *gVa; Value *vaBytes = nullptr; FunctionCallee fVa;
  Inst(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); VoidT = Type::getVoidTy(C); PtrT = PointerType::getUnqual(C);
    fBin = M.getOrInsertFunction("_s_bin", I32, I32, I64, I32, I64, I32, I32);        // op,a,sa,b,sb,bits
    fCast = M.getOrInsertFunction("_s_cast", I32, I32, I32, I32, I32);                // op,s,frombits,tobits
    fLoadSym = M.getOrInsertFunction("_s_loadsym", I32, PtrT, I32, I32, I64);
    fLoad = M.getOrInsertFunction("_s_load", I32, PtrT, I32, I32, I64);               // addr,saddr,n,value
    fStore = M.getOrInsertFunction("_s_store", VoidT, PtrT, I32, I64, I32, I32);      // addr,saddr,val,sval,n
    fBranch = M.getOrInsertFunction("_s_branch", VoidT, I32, I32);                    // cond,s
    fSwitch = M.getOrInsertFunction("_s_switch", VoidT, I64, I32, I32, I32, PtrT);    // v,s,bits,n,cases
    fIte = M.getOrInsertFunction("_s_ite", I32, I32, I32, I64, I32, I64, I32, I32);   // c,sc,a,sa,b,sb,bits
    fConc = M.getOrInsertFunction("_s_conc", VoidT, I64, I32, I32);                   // v,s,bits
    fMemcpy = M.getOrInsertFunction("_s_memcpy", VoidT, PtrT, I32, PtrT, I32, I64, I32);
    fMemset = M.getOrInsertFunction("_s_memset", VoidT, PtrT, I32, I64, I32, I64, I32);
    fLost = M.getOrInsertFunction("_s_lost", VoidT, I32);
    gArgs = cast<GlobalVariable>(M.getOrInsertGlobal("_sym_args", ArrayType::get(I32, 64)));
    gRet = cast<GlobalVariable>(M.getOrInsertGlobal("_sym_ret", I32));
    gVa = cast<GlobalVariable>(M.getOrInsertGlobal("_sym_va", I32));
    fVa = M.getOrInsertFunction("_sym_vastart", VoidT, PtrT, I32);
  }
  std::map<Value *, Value *> Sh;
  static bool skipFn(Function &F) {
    return F.isDeclaration() || F.getName().starts_with("_s_") || F.getName().starts_with("_sym_") ||
           F.hasFnAttribute("no_sym");
  }
  bool trackT(Type *T) {
    if (T->isPointerTy()) return true;
    if (auto *IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth() <= 64;
    return false;
  }
  unsigned bitsOf(Type *T) { return T->isPointerTy() ? 64 : cast<IntegerType>(T)->getBitWidth(); }
  ConstantInt *c32(uint64_t v) { return ConstantInt::get(Type::getInt32Ty(C), v); }
  ConstantInt *c64(uint64_t v) { return ConstantInt::get(Type::getInt64Ty(C), v); }
  Value *sh(Value *V) {
    if (isa<Constant>(V) || !trackT(V->getType())) return c32(0);
    auto it = Sh.find(V);
    return it == Sh.end() ? (Value *)c32(0) : it->second;
  }
  bool zero(Value *S) { auto *K = dyn_cast<ConstantInt>(S); return K && K->isZero(); }
  Value *to64(IRBuilder<> &B, Value *V) {
    if (V->getType()->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (V->getType() == I64) return V;
    return B.CreateZExt(V, I64);
  }
  Value *bin(IRBuilder<> &B, unsigned op, Value *a, Value *sa, Value *b, Value *sb, unsigned bits) {
    if (zero(sa) && zero(sb)) return c32(0);
    return B.CreateCall(fBin, {c32(op), a, sa, b, sb, c32(bits)});
  }
  Value *argSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, i); }
  void conc(IRBuilder<> &B, Value *V) {
    if (!trackT(V->getType())) return;
    Value *S = sh(V);
    if (zero(S)) return;
    B.CreateCall(fConc, {to64(B, V), S, c32(bitsOf(V->getType()))});
  }

  void runOn(Function &F) {
    Sh.clear();
    std::vector<Instruction *> Work;
    for (auto &BB : F) for (auto &I : BB) Work.push_back(&I);
    // prologue: argument shadows
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      unsigned i = 0;
      vaBytes = F.isVarArg() ? B.CreateLoad(I32, gVa) : nullptr;
      for (auto &A : F.args()) {
        if (trackT(A.getType()) && i < 64) {
          Value *slot = argSlot(B, i);
          Value *s = B.CreateLoad(I32, slot);
          B.CreateStore(c32(0), slot);
          Sh[&A] = s;
        }
        i++;
      }
    }
    std::vector<std::pair<PHINode *, PHINode *>> Phis;
    // create phi shadows first (dominance-safe, non-phi defs precede uses in RPO below)
    for (auto *I : Work) if (auto *P = dyn_cast<PHINode>(I)) if (trackT(P->getType())) {
      PHINode *SP = PHINode::Create(I32, P->getNumIncomingValues(), "", P);
      Sh[P] = SP; Phis.push_back({P, SP});
    }
    // visit in dominance-compatible order: use RPO over blocks
    std::vector<BasicBlock *> order; std::set<BasicBlock *> seen;
    {
      std::vector<std::pair<BasicBlock *, succ_iterator>> st;
      seen.insert(&F.getEntryBlock()); st.push_back({&F.getEntryBlock(), succ_begin(&F.getEntryBlock())});
      std::vector<BasicBlock *> post;
      while (!st.empty()) {
        auto &top = st.back();
        if (top.second != succ_end(top.first)) { BasicBlock *S = *top.second; ++top.second; if (seen.insert(S).second) st.push_back({S, succ_begin(S)}); }
        else { post.push_back(top.first); st.pop_back(); }
      }
      order.assign(post.rbegin(), post.rend());
    }
    std::set<Instruction *> orig(Work.begin(), Work.end());
    for (auto *BB : order) {
      std::vector<Instruction *> L;
      for (auto &I : *BB) if (orig.count(&I)) L.push_back(&I);
      for (auto *I : L) visit(I);
    }
    for (auto &pp : Phis) for (unsigned i = 0; i < pp.first->getNumIncomingValues(); i++)
      pp.second->addIncoming(sh(pp.first->getIncomingValue(i)), pp.first->getIncomingBlock(i));
  }

  void visit(Instruction *I) {
    if (isa<PHINode>(I)) return;
    IRBuilder<> B(I);
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      if (!trackT(I->getType())) { lostOps(I); return; }
      unsigned op = 0;
      switch (BO->getOpcode()) {
        case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break;
        case Instruction::Mul: op = OP_MUL; break; case Instruction::UDiv: op = OP_UDIV; break;
        case Instruction::SDiv: op = OP_SDIV; break; case Instruction::URem: op = OP_UREM; break;
        case Instruction::SRem: op = OP_SREM; break; case Instruction::Shl: op = OP_SHL; break;
        case Instruction::LShr: op = OP_LSHR; break; case Instruction::AShr: op = OP_ASHR; break;
        case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break;
        case Instruction::Xor: op = OP_XOR; break; default: lostOps(I); return;
      }
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      Value *sa = sh(a), *sb = sh(b);
      if (zero(sa) && zero(sb)) return;
      if (op == OP_UDIV || op == OP_SDIV || op == OP_UREM || op == OP_SREM) conc(B, b);
      IRBuilder<> N(I->getNextNode());
      Sh[I] = bin(N, op, to64(N, a), sa, to64(N, b), sb, bitsOf(I->getType()));
    } else if (auto *IC = dyn_cast<ICmpInst>(I)) {
      if (!trackT(IC->getOperand(0)->getType())) { lostOps(I); return; }
      unsigned op = 0;
      switch (IC->getPredicate()) {
        case ICmpInst::ICMP_EQ: op = OP_EQ; break; case ICmpInst::ICMP_NE: op = OP_NE; break;
        case ICmpInst::ICMP_ULT: op = OP_ULT; break; case ICmpInst::ICMP_ULE: op = OP_ULE; break;
        case ICmpInst::ICMP_UGT: op = OP_UGT; break; case ICmpInst::ICMP_UGE: op = OP_UGE; break;
        case ICmpInst::ICMP_SLT: op = OP_SLT; break; case ICmpInst::ICMP_SLE: op = OP_SLE; break;
        case ICmpInst::ICMP_SGT: op = OP_SGT; break; case ICmpInst::ICMP_SGE: op = OP_SGE; break;
        default: return;
      }
      Value *a = IC->getOperand(0), *b = IC->getOperand(1);
      Value *sa = sh(a), *sb = sh(b);
      if (zero(sa) && zero(sb)) return;
      IRBuilder<> N(I->getNextNode());
      Sh[I] = bin(N, op, to64(N, a), sa, to64(N, b), sb, bitsOf(a->getType()));
    } else if (auto *CI = dyn_cast<CastInst>(I)) {
      if (!trackT(I->getType()) || !trackT(CI->getOperand(0)->getType())) { lostOps(I); return; }
      Value *s = sh(CI->getOperand(0));
      if (zero(s)) return;
      unsigned fb = bitsOf(CI->getOperand(0)->getType()), tb = bitsOf(I->getType());
      if (fb == tb) { Sh[I] = s; return; }
      unsigned op = fb > tb ? OP_TRUNC : (isa<SExtInst>(CI) ? OP_SEXT : OP_ZEXT);
      IRBuilder<> N(I->getNextNode());
      Sh[I] = N.CreateCall(fCast, {c32(op), s, c32(fb), c32(tb)});
    } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      if (!I->getType()->isPointerTy()) { lostOps(I); return; }
      bool any = !zero(sh(G->getPointerOperand()));
      for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (!zero(sh(*it))) any = true;
      if (!any) return;
      IRBuilder<> N(I->getNextNode());
      Value *cur = to64(N, G->getPointerOperand()); Value *s = sh(G->getPointerOperand());
      for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
        Value *idx = gti.getOperand();
        uint64_t scale; 
        if (auto *ST = gti.getStructTypeOrNull()) {
          uint64_t off = DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          if (off) { s = bin(N, OP_ADD, cur, s, c64(off), c32(0), 64); cur = N.CreateAdd(cur, c64(off)); }
          continue;
        }
        scale = gti.getSequentialElementStride(DL).getFixedValue();
        if (auto *K = dyn_cast<ConstantInt>(idx)) {
          uint64_t off = (uint64_t)(K->getSExtValue() * (int64_t)scale);
          if (off) { s = bin(N, OP_ADD, cur, s, c64(off), c32(0), 64); cur = N.CreateAdd(cur, c64(off)); }
          continue;
        }
        Value *si = sh(idx); Value *v = idx; unsigned ib = bitsOf(idx->getType());
        if (ib < 64) { v = N.CreateSExt(idx, I64); if (!zero(si)) si = N.CreateCall(fCast, {c32(OP_SEXT), si, c32(ib), c32(64)}); }
        Value *sm = bin(N, OP_MUL, v, si, c64(scale), c32(0), 64);
        Value *vm = N.CreateMul(v, c64(scale));
        s = bin(N, OP_ADD, cur, s, vm, sm, 64);
        cur = N.CreateAdd(cur, vm);
      }
      Sh[I] = s;
    } else if (auto *L = dyn_cast<LoadInst>(I)) {
      if (!trackT(L->getType())) { conc(B, L->getPointerOperand()); return; }
      unsigned bits = bitsOf(L->getType()), n = (bits + 7) / 8;
      IRBuilder<> N(I->getNextNode());
      Value *sp = sh(L->getPointerOperand());
      // a symbolic address is fixed before the access when the access itself may be the failure; _s_loadsym does so otherwise
      Value *s = zero(sp) ? N.CreateCall(fLoad, {L->getPointerOperand(), c32(0), c32(n), to64(N, L)}) : N.CreateCall(fLoadSym, {L->getPointerOperand(), sp, c32(n), to64(N, L)});
      if (bits != n * 8) s = N.CreateCall(fCast, {c32(OP_TRUNC), s, c32(n * 8), c32(bits)});
      Sh[I] = s;
    } else if (auto *S = dyn_cast<StoreInst>(I)) {
      conc(B, S->getPointerOperand());
      Value *V = S->getValueOperand();
      if (!trackT(V->getType())) {
        uint64_t n = DL.getTypeStoreSize(V->getType()).getFixedValue();
        B.CreateCall(fMemset, {S->getPointerOperand(), c32(0), c64(0), c32(0), c64(n), c32(0)});
        return;
      }
      unsigned bits = bitsOf(V->getType()), n = (bits + 7) / 8;
      Value *sv = sh(V); Value *v64 = to64(B, V);
      if (bits != n * 8 && !zero(sv)) sv = B.CreateCall(fCast, {c32(OP_ZEXT), sv, c32(bits), c32(n * 8)});
      B.CreateCall(fStore, {S->getPointerOperand(), c32(0), v64, sv, c32(n)});
    } else if (auto *SI = dyn_cast<SelectInst>(I)) {
      if (!trackT(SI->getType()) || !SI->getCondition()->getType()->isIntegerTy(1)) { lostOps(I); return; }
      Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
      Value *sc = sh(c), *sa = sh(a), *sb = sh(b);
      if (zero(sc) && zero(sa) && zero(sb)) return;
      IRBuilder<> N(I->getNextNode());
      Sh[I] = N.CreateCall(fIte, {N.CreateZExt(c, I32), sc, to64(N, a), sa, to64(N, b), sb, c32(bitsOf(SI->getType()))});
    } else if (auto *F = dyn_cast<FreezeInst>(I)) {
      Sh[I] = sh(F->getOperand(0));
    } else if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (!Br->isConditional()) return;
      Value *s = sh(Br->getCondition());
      if (zero(s)) return;
      B.CreateCall(fBranch, {B.CreateZExt(Br->getCondition(), I32), s});
    } else if (auto *SW = dyn_cast<SwitchInst>(I)) {
      Value *s = sh(SW->getCondition());
      if (zero(s) || SW->getNumCases() == 0) return;
      std::vector<Constant *> K;
      for (auto &cs : SW->cases()) K.push_back(c64(cs.getCaseValue()->getZExtValue()));
      auto *AT = ArrayType::get(I64, K.size());
      auto *GV = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, K), "_sym_cases");
      B.CreateCall(fSwitch, {to64(B, SW->getCondition()), s, c32(bitsOf(SW->getCondition()->getType())), c32(K.size()), GV});
    } else if (auto *R = dyn_cast<ReturnInst>(I)) {
      Value *s = c32(0);
      if (R->getReturnValue() && trackT(R->getReturnValue()->getType())) s = sh(R->getReturnValue());
      else if (R->getReturnValue()) lostOps(I);
      B.CreateStore(s, gRet);
    } else if (auto *CB = dyn_cast<CallBase>(I)) {
      visitCall(CB);
    } else if (auto *A = dyn_cast<AllocaInst>(I)) {
      if (A->isArrayAllocation()) conc(B, A->getArraySize());
      // fresh stack memory must not inherit stale shadows
      if (A->isStaticAlloca()) {
        uint64_t n = DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
        if (auto *K = dyn_cast<ConstantInt>(A->getArraySize())) n *= K->getZExtValue();
        Instruction *ip = A; for (auto &J : *A->getParent()) if (isa<AllocaInst>(J)) ip = &J;
        ip = ip->getNextNode();
        IRBuilder<> N(ip);
        N.CreateCall(fMemset, {A, c32(0), c64(0), c32(0), c64(n), c32(0)});
      }
    } else if (isa<UnreachableInst>(I) || isa<FenceInst>(I)) {
    } else {
      lostOps(I);
    }
  }
  // concretise any symbolic operand of an operation we do not model
  void lostOps(Instruction *I) {
    IRBuilder<> B(I);
    for (auto &O : I->operands()) if (trackT(O->getType())) conc(B, O);
  }
  void visitCall(CallBase *CB) {
    IRBuilder<> B(CB);
    if (isa<DbgInfoIntrinsic>(CB)) return;
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      switch (II->getIntrinsicID()) {
        case Intrinsic::vastart: {   // the argument area is written by code the pass does not see
          IRBuilder<> N(CB->getNextNode()); if (vaBytes) N.CreateCall(fVa, {II->getArgOperand(0), vaBytes});
          return; }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::expect:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
        case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::stacksave: case Intrinsic::stackrestore:
        case Intrinsic::trap: case Intrinsic::objectsize:
          return;
        default: break;
      }
      if (auto *MC = dyn_cast<MemTransferInst>(II)) {
        conc(B, MC->getRawDest()); conc(B, MC->getRawSource()); conc(B, MC->getLength());
        IRBuilder<> N(CB->getNextNode());
        B.CreateCall(fMemcpy, {MC->getRawDest(), c32(0), MC->getRawSource(), c32(0), to64(B, MC->getLength()), c32(0)});
        return;
      }
      if (auto *MS = dyn_cast<MemSetInst>(II)) {
        conc(B, MS->getRawDest()); conc(B, MS->getLength());
        B.CreateCall(fMemset, {MS->getRawDest(), c32(0), to64(B, MS->getValue()), sh(MS->getValue()), to64(B, MS->getLength()), c32(0)});
        return;
      }
      unsigned op = 0;
      switch (II->getIntrinsicID()) {
        case Intrinsic::smax: op = OP_SGT; break; case Intrinsic::smin: op = OP_SLT; break;
        case Intrinsic::umax: op = OP_UGT; break; case Intrinsic::umin: op = OP_ULT; break;
        case Intrinsic::abs: op = OP_SLT; break;
        default: break;
      }
      if (op && trackT(CB->getType())) {
        Value *a = II->getArgOperand(0), *b = II->getIntrinsicID() == Intrinsic::abs ? nullptr : II->getArgOperand(1);
        unsigned bits = bitsOf(CB->getType());
        IRBuilder<> N(CB->getNextNode());
        if (b) {
          Value *sa = sh(a), *sb = sh(b);
          if (zero(sa) && zero(sb)) return;
          Value *sc = bin(N, op, to64(N, a), sa, to64(N, b), sb, bits);
          CmpInst::Predicate p = op == OP_SGT ? CmpInst::ICMP_SGT : op == OP_SLT ? CmpInst::ICMP_SLT : op == OP_UGT ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
          Sh[CB] = N.CreateCall(fIte, {N.CreateZExt(N.CreateICmp(p, a, b), I32), sc, to64(N, a), sa, to64(N, b), sb, c32(bits)});
        } else {
          Value *sa = sh(a);
          if (zero(sa)) return;
          Value *z = ConstantInt::get(a->getType(), 0);
          Value *sc = bin(N, OP_SLT, to64(N, a), sa, c64(0), c32(0), bits);
          Value *na = N.CreateSub(z, a);
          Value *sn = bin(N, OP_SUB, c64(0), c32(0), to64(N, a), sa, bits);
          Sh[CB] = N.CreateCall(fIte, {N.CreateZExt(N.CreateICmpSLT(a, z), I32), sc, to64(N, na), sn, to64(N, a), sa, c32(bits)});
        }
        return;
      }
      lostOps(CB);
      return;
    }
    Function *Cal = CB->getCalledFunction();
    if (CB->isInlineAsm()) { lostOps(CB); return; }
    CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::NoSync); CB->removeFnAttr(Attribute::WillReturn); CB->removeFnAttr(Attribute::NoFree);
    if (auto *CI = dyn_cast<CallInst>(CB)) CI->setTailCallKind(CallInst::TCK_None);
    bool api = Cal && Cal->getName().starts_with("sym_");
    // every other module is instrumented too, except for the few real library functions below
    bool real = Cal && (Cal->getName() == "malloc" || Cal->getName() == "calloc" || Cal->getName() == "free" || Cal->getName() == "malloc_usable_size" || Cal->getName() == "longjmp" || Cal->getName() == "setjmp" || Cal->getName() == "_setjmp" || Cal->getName().starts_with("__") || Cal->getName() == "_longjmp" || Cal->getName() == "sigsetjmp");
    bool ext = Cal && Cal->isDeclaration() && !api && real;
    if (Cal && (Cal->getName().starts_with("_s_") || Cal->getName().starts_with("_sym_"))) return;
    if (!Cal) conc(B, CB->getCalledOperand());
    if (ext) {
      for (auto &A : CB->args()) conc(B, A);
      return;
    }
    unsigned nfix = CB->getFunctionType()->getNumParams();
    unsigned i = 0;
    if (CB->getFunctionType()->isVarArg()) {   // how much of it lies on the stack
      unsigned gp = 0, fp = 0, over = 0;
      for (auto &A : CB->args()) { if (A->getType()->isFloatingPointTy()) { if (fp < 8) fp++; else over += 8; } else { if (gp < 6) gp++; else over += 8; } }
      B.CreateStore(c32(over), gVa);
    }
    for (auto &A : CB->args()) {
      Value *V = A;
      if (i >= nfix) conc(B, V);
      else if (i < 64 && trackT(V->getType())) B.CreateStore(sh(V), argSlot(B, i));
      i++;
    }
    if (trackT(CB->getType())) {
      Instruction *next = CB->getNextNode();
      if (auto *Inv = dyn_cast<InvokeInst>(CB)) next = &*Inv->getNormalDest()->getFirstInsertionPt();
      IRBuilder<> N(next);
      Value *s = N.CreateLoad(I32, gRet);
      N.CreateStore(c32(0), gRet);
      Sh[CB] = s;
    }
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Inst X(M);
    std::vector<Function *> Fs;
    for (auto &F : M) if (!Inst::skipFn(F)) Fs.push_back(&F);
    for (auto *F : Fs) { F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::NoSync);F->removeFnAttr(Attribute::NoFree);
      for (auto &A : F->args()) { A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::WriteOnly);} 
      X.runOn(*F); F->addFnAttr(Attribute::SanitizeAddress); }
    for (auto &F : M) if (F.isDeclaration() && F.getName().starts_with("sym_")) F.removeFnAttr(Attribute::Memory);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

struct StripAsan : PassInfoMixin<StripAsan> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    for (auto &F : M) F.removeFnAttr(Attribute::SanitizeAddress);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symdse", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "symdse") { MPM.addPass(SymPass()); return true; }
      if (N == "stripasan") { MPM.addPass(StripAsan()); return true; }
      return false;
    });
  }};
}
