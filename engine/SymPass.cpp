// symtvm instrumentation pass (LLVM 18, new pass manager plugin).
//
// Every integer / floating point SSA value of the compiled program gets a "shadow": a pointer to an expression
// node of the runtime (null when the value is concrete). Loads, stores, arithmetic, comparisons, selects and calls
// propagate the shadows; branches (and every place where a concrete value is unavoidable: addresses, allocation
// sizes, int -> fp conversions, calls to uninstrumented code) are routed through the runtime, which consults the SMT
// solver and forks the process. Native values of symbolic quantities are never trusted for a decision.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>

using namespace llvm;

namespace
{

struct RT
{
  Module & M;
  LLVMContext & C;
  Type *V, *I64, *I32, *I8, *I1;
  PointerType * P;
  FunctionCallee binop, fbin, icmp, fcmp, sel, cast, load, store, cpy, mset, clear, branch, conc, fun, aggget, aggset,
      enter, unsup, gepck, fneg;
  GlobalVariable *args, *ret, *token;
  RT(Module & M) : M(M), C(M.getContext())
  {
    V = Type::getVoidTy(C);
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I8 = Type::getInt8Ty(C);
    I1 = Type::getInt1Ty(C);
    P = PointerType::getUnqual(C);
    auto f = [&](const char * n, Type * r, std::vector<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    // op, width, a, aval, b, bval
    binop = f("__sym_binop", P, {I32, I32, P, I64, P, I64});
    fbin = f("__sym_fbin", P, {I32, P, Type::getDoubleTy(C), P, Type::getDoubleTy(C)});
    fneg = f("__sym_fneg", P, {P});
    icmp = f("__sym_icmp", P, {I32, I32, P, I64, P, I64});
    fcmp = f("__sym_fcmp", P, {I32, P, Type::getDoubleTy(C), P, Type::getDoubleTy(C)});
    sel = f("__sym_select", P, {P, I1, P, I64, P, I64, I32});
    cast = f("__sym_cast", P, {I32, I32, I32, P, I64});
    load = f("__sym_load", P, {P, I32, I32});
    store = f("__sym_store", V, {P, I32, P, I64});
    cpy = f("__sym_cpy", V, {P, P, I64});
    mset = f("__sym_mset", V, {P, P, I64});
    clear = f("__sym_clear", V, {P, I64});
    branch = f("__sym_branch", I1, {P, I1});
    conc = f("__sym_conc", I64, {P, I64, I32});
    fun = f("__sym_fun", P, {I32, I32, P, I64, P, I64});
    aggget = f("__sym_aggget", P, {P, I32});
    aggset = f("__sym_aggset", P, {P, I32, P});
    enter = f("__sym_enter", V, {P, I32});
    unsup = f("__sym_unsup", V, {P, I32});
    args = dyn_cast<GlobalVariable>(M.getOrInsertGlobal("__sym_args", ArrayType::get(P, 64)));
    ret = dyn_cast<GlobalVariable>(M.getOrInsertGlobal("__sym_ret", P));
    token = dyn_cast<GlobalVariable>(M.getOrInsertGlobal("__sym_token", P));
  }
};

bool isScalarTy(Type * T)
{
  if(auto * IT = dyn_cast<IntegerType>(T)) return true;
  return T->isDoubleTy() || T->isFloatTy();
}
bool isShadowTy(Type * T)
{
  if(isScalarTy(T)) return true;
  if(auto * ST = dyn_cast<StructType>(T))
  {
    for(auto * E : ST->elements())
      if(isShadowTy(E)) return true;
    return false;
  }
  if(auto * AT = dyn_cast<ArrayType>(T)) return isShadowTy(AT->getElementType());
  return false;
}
int widthOf(Type * T)
{
  if(T->isDoubleTy()) return 64;
  if(T->isFloatTy()) return 32;
  if(auto * IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth();
  return 0;
}

struct FnInstr
{
  Function & F;
  RT & R;
  const DataLayout & DL;
  std::map<Value *, Value *> sh;
  std::vector<std::pair<PHINode *, PHINode *>> phis;
  Constant * null;
  FnInstr(Function & F, RT & R) : F(F), R(R), DL(F.getParent()->getDataLayout())
  {
    null = ConstantPointerNull::get(R.P);
  }
  Value * S(Value * v)
  {
    auto it = sh.find(v);
    if(it != sh.end()) return it->second;
    return null;
  }
  bool isNull(Value * s) { return s == null; }

  // native value as i64 bits
  Value * bits(IRBuilder<> & B, Value * v)
  {
    Type * T = v->getType();
    if(T->isDoubleTy()) return B.CreateBitCast(v, R.I64);
    if(T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, R.I32), R.I64);
    if(auto * IT = dyn_cast<IntegerType>(T))
    {
      if(IT->getBitWidth() < 64) return B.CreateZExt(v, R.I64);
      if(IT->getBitWidth() == 64) return v;
      return B.CreateTrunc(v, R.I64);
    }
    return ConstantInt::get(R.I64, 0);
  }
  Value * i32(int x) { return ConstantInt::get(R.I32, x); }
  Value * i64(uint64_t x) { return ConstantInt::get(R.I64, x); }
  // concretize an integer value; returns the native value to use
  Value * conc(IRBuilder<> & B, Value * v)
  {
    Value * s = S(v);
    if(isNull(s)) return v;
    auto * IT = dyn_cast<IntegerType>(v->getType());
    if(!IT) return v;
    if(IT->getBitWidth() > 64)
    {
      B.CreateCall(R.unsup, {s, i32(1)});
      return v;
    }
    Value * r = B.CreateCall(R.conc, {s, bits(B, v), i32(IT->getBitWidth())});
    return B.CreateZExtOrTrunc(r, IT);
  }
  void unsup(IRBuilder<> & B, Value * v, int code)
  {
    Value * s = S(v);
    if(isNull(s)) return;
    B.CreateCall(R.unsup, {s, i32(code)});
  }
  void setSh(Instruction * I, Value * s)
  {
    if(!isNull(s)) sh[I] = s;
  }

  static bool isTvmName(StringRef mangled)
  {
    return mangled.starts_with("sym_") || mangled.contains("3tvm") || mangled.contains("2vf");
  }

  void run()
  {
    {
      // give each invoke whose result matters its own normal destination block
      std::vector<InvokeInst *> inv;
      for(auto & I : instructions(F))
        if(auto * II = dyn_cast<InvokeInst>(&I))
          if(!II->getType()->isVoidTy()) inv.push_back(II);
      for(auto * II : inv)
      {
        BasicBlock * nd = II->getNormalDest();
        if(!nd->getSinglePredecessor() || isa<PHINode>(nd->front())) SplitEdge(II->getParent(), nd);
      }
    }
    // Entry: arguments
    Instruction * first = &*F.getEntryBlock().getFirstInsertionPt();
    while(isa<AllocaInst>(first)) first = first->getNextNode();
    IRBuilder<> B(first);
    bool needEnter = false;
    for(auto & A : F.args())
      if(isShadowTy(A.getType()) || A.hasByValAttr()) needEnter = true;
    std::set<Instruction *> skip;
    if(needEnter)
    {
      B.CreateCall(R.enter, {&F, i32((int)F.arg_size())});
      for(auto & A : F.args())
      {
        if(!isShadowTy(A.getType()) && !A.hasByValAttr()) continue;
        if(A.getArgNo() >= 64) continue;
        Value * gp = B.CreateConstInBoundsGEP2_32(ArrayType::get(R.P, 64), R.args, 0, A.getArgNo());
        Value * l = B.CreateLoad(R.P, gp);
        if(A.hasByValAttr())
        {
          uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
          B.CreateCall(R.cpy, {&A, l, i64(sz)});
        }
        else
          sh[&A] = l;
      }
    }
    // static allocas: clear
    std::vector<Instruction *> work;
    ReversePostOrderTraversal<Function *> RPO(&F);
    std::vector<BasicBlock *> order(RPO.begin(), RPO.end());
    for(auto * BB : order)
      for(auto & I : *BB) work.push_back(&I);
    // skip instructions created above
    std::set<Instruction *> created;
    {
      // created instructions are located in the entry block before `first`, and are not allocas
      for(auto & I : F.getEntryBlock())
      {
        if(&I == first) break;
        if(!isa<AllocaInst>(I)) created.insert(&I);
      }
    }
    // shadow phis
    for(auto * I : work)
      if(auto * PN = dyn_cast<PHINode>(I))
        if(isShadowTy(PN->getType()))
        {
          IRBuilder<> PB(PN);
          auto * sp = PB.CreatePHI(R.P, PN->getNumIncomingValues());
          sh[PN] = sp;
          phis.push_back({PN, sp});
        }
    for(auto * I : work)
    {
      if(created.count(I)) continue;
      visit(I);
    }
    for(auto & pr : phis)
    {
      for(unsigned k = 0; k < pr.first->getNumIncomingValues(); ++k)
        pr.second->addIncoming(S(pr.first->getIncomingValue(k)), pr.first->getIncomingBlock(k));
    }
  }

  void visit(Instruction * I)
  {
    if(isa<PHINode>(I)) return;
    IRBuilder<> B(I);
    IRBuilder<> A(I);
    if(!I->isTerminator() && !isa<PHINode>(I)) A.SetInsertPoint(I->getNextNode());
    Type * T = I->getType();
    if(auto * AI = dyn_cast<AllocaInst>(I))
    {
      if(AI->isArrayAllocation())
      {
        AI->setOperand(0, conc(B, AI->getArraySize()));
        Value * n = A.CreateZExtOrTrunc(AI->getArraySize(), R.I64);
        A.CreateCall(R.clear, {AI, A.CreateMul(n, i64(DL.getTypeAllocSize(AI->getAllocatedType())))});
      }
      else
      {
        // insert after all the leading allocas
        Instruction * p = AI->getNextNode();
        while(isa<AllocaInst>(p)) p = p->getNextNode();
        IRBuilder<> AA(p);
        AA.CreateCall(R.clear, {AI, i64(DL.getTypeAllocSize(AI->getAllocatedType()))});
      }
      return;
    }
    if(auto * L = dyn_cast<LoadInst>(I))
    {
      if(isScalarTy(T) && widthOf(T) <= 64)
        sh[I] = A.CreateCall(R.load, {L->getPointerOperand(), i32((widthOf(T) + 7) / 8), i32(T->isIntegerTy(1) ? 1 : widthOf(T))});
      else if(T->isPointerTy())
        ; // pointers are concrete
      else
      {
        // aggregate / vector / wide load: refuse symbolic content
        auto c = R.M.getOrInsertFunction("__sym_loadck", FunctionType::get(R.V, {R.P, R.I64}, false));
        B.CreateCall(c, {L->getPointerOperand(), i64(DL.getTypeStoreSize(T))});
      }
      return;
    }
    if(auto * St = dyn_cast<StoreInst>(I))
    {
      Value * v = St->getValueOperand();
      Type * VT = v->getType();
      if(isScalarTy(VT) && widthOf(VT) <= 64)
        A.CreateCall(R.store, {St->getPointerOperand(), i32((widthOf(VT) + 7) / 8), S(v), bits(A, v)});
      else
      {
        if(!isNull(S(v))) unsup(B, v, 2);
        A.CreateCall(R.clear, {St->getPointerOperand(), i64(DL.getTypeStoreSize(VT))});
      }
      return;
    }
    if(auto * BO = dyn_cast<BinaryOperator>(I))
    {
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      Value *sa = S(a), *sb = S(b);
      if(isNull(sa) && isNull(sb)) return;
      if(T->isDoubleTy())
      {
        sh[I] = A.CreateCall(R.fbin, {i32(BO->getOpcode()), sa, a, sb, b});
        return;
      }
      if(T->isIntegerTy() && widthOf(T) <= 64)
      {
        unsigned op = BO->getOpcode();
        if(op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)
        {
          // never let the native division trap on a meaningless divisor
          Value * cb = conc(B, b);
          BO->setOperand(1, cb);
          sh[I] = A.CreateCall(R.binop, {i32(op), i32(widthOf(T)), sa, bits(A, a), null, bits(A, cb)});
          return;
        }
        sh[I] = A.CreateCall(R.binop, {i32(op), i32(widthOf(T)), sa, bits(A, a), sb, bits(A, b)});
        return;
      }
      unsup(B, a, 3);
      unsup(B, b, 3);
      return;
    }
    if(auto * U = dyn_cast<UnaryOperator>(I))
    {
      Value * s = S(U->getOperand(0));
      if(isNull(s)) return;
      if(T->isDoubleTy())
        sh[I] = A.CreateCall(R.fneg, {s});
      else
        unsup(B, U->getOperand(0), 4);
      return;
    }
    if(auto * Cm = dyn_cast<ICmpInst>(I))
    {
      Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
      Value *sa = S(a), *sb = S(b);
      if(isNull(sa) && isNull(sb)) return;
      if(!a->getType()->isIntegerTy() || widthOf(a->getType()) > 64)
      {
        unsup(B, a, 5);
        unsup(B, b, 5);
        return;
      }
      sh[I] = A.CreateCall(R.icmp, {i32(Cm->getPredicate()), i32(widthOf(a->getType())), sa, bits(A, a), sb, bits(A, b)});
      return;
    }
    if(auto * Cm = dyn_cast<FCmpInst>(I))
    {
      Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
      Value *sa = S(a), *sb = S(b);
      if(isNull(sa) && isNull(sb)) return;
      if(!a->getType()->isDoubleTy())
      {
        unsup(B, a, 6);
        unsup(B, b, 6);
        return;
      }
      sh[I] = A.CreateCall(R.fcmp, {i32(Cm->getPredicate()), sa, a, sb, b});
      return;
    }
    if(auto * Se = dyn_cast<SelectInst>(I))
    {
      Value * c = Se->getCondition();
      if(!c->getType()->isIntegerTy(1)) return;
      Value *t = Se->getTrueValue(), *f = Se->getFalseValue();
      if(isScalarTy(T) && widthOf(T) <= 64)
      {
        Value *sc = S(c), *st = S(t), *sf = S(f);
        if(isNull(sc) && isNull(st) && isNull(sf)) return;
        int w = T->isDoubleTy() ? 1000 : widthOf(T);
        sh[I] = A.CreateCall(R.sel, {sc, c, st, bits(A, t), sf, bits(A, f), i32(w)});
      }
      else
      {
        if(!isNull(S(c)))
        {
          Value * nc = B.CreateCall(R.branch, {S(c), c});
          Se->setCondition(nc);
        }
        if(isShadowTy(T) && (!isNull(S(t)) || !isNull(S(f))))
          sh[I] = A.CreateSelect(Se->getCondition(), S(t), S(f));
      }
      return;
    }
    if(auto * Ca = dyn_cast<CastInst>(I))
    {
      Value * a = Ca->getOperand(0);
      Value * s = S(a);
      if(isNull(s)) return;
      switch(Ca->getOpcode())
      {
        case Instruction::ZExt:
        case Instruction::SExt:
        case Instruction::Trunc:
          if(widthOf(T) <= 64 && widthOf(a->getType()) <= 64 && T->isIntegerTy())
            sh[I] = A.CreateCall(R.cast, {i32(Ca->getOpcode()), i32(widthOf(a->getType())), i32(widthOf(T)), s, bits(A, a)});
          else
            Ca->setOperand(0, conc(B, a));
          break;
        case Instruction::BitCast:
          if(isScalarTy(T))
            sh[I] = s;
          else
            unsup(B, a, 7);
          break;
        case Instruction::IntToPtr:
        case Instruction::SIToFP:
        case Instruction::UIToFP:
          Ca->setOperand(0, conc(B, a));
          break;
        default:
          unsup(B, a, 8);
      }
      return;
    }
    if(auto * G = dyn_cast<GetElementPtrInst>(I))
    {
      for(unsigned k = 1; k < G->getNumOperands(); ++k)
        if(!isNull(S(G->getOperand(k)))) G->setOperand(k, conc(B, G->getOperand(k)));
      return;
    }
    if(auto * E = dyn_cast<ExtractValueInst>(I))
    {
      Value * s = S(E->getAggregateOperand());
      if(isNull(s) || !isShadowTy(T)) return;
      for(unsigned k : E->indices()) s = A.CreateCall(R.aggget, {s, i32(k)});
      sh[I] = s;
      return;
    }
    if(auto * In = dyn_cast<InsertValueInst>(I))
    {
      if(!isShadowTy(T)) return;
      Value * s = S(In->getAggregateOperand());
      Value * v = S(In->getInsertedValueOperand());
      if(isNull(s) && isNull(v)) return;
      if(In->getNumIndices() == 1)
        sh[I] = A.CreateCall(R.aggset, {s, i32(In->getIndices()[0]), v});
      else
      {
        // only two levels supported
        unsigned i0 = In->getIndices()[0], i1 = In->getIndices()[1];
        Value * sub = A.CreateCall(R.aggget, {s, i32(i0)});
        sub = A.CreateCall(R.aggset, {sub, i32(i1), v});
        sh[I] = A.CreateCall(R.aggset, {s, i32(i0), sub});
      }
      return;
    }
    if(auto * Fr = dyn_cast<FreezeInst>(I))
    {
      Value * s = S(Fr->getOperand(0));
      if(!isNull(s)) sh[I] = s;
      return;
    }
    if(auto * Br = dyn_cast<BranchInst>(I))
    {
      if(Br->isConditional() && !isNull(S(Br->getCondition())))
      {
        Value * nc = B.CreateCall(R.branch, {S(Br->getCondition()), Br->getCondition()});
        Br->setCondition(nc);
      }
      return;
    }
    if(auto * Re = dyn_cast<ReturnInst>(I))
    {
      if(Re->getReturnValue() && isShadowTy(Re->getReturnValue()->getType()))
        B.CreateStore(S(Re->getReturnValue()), R.ret);
      return;
    }
    if(auto * CB = dyn_cast<CallBase>(I))
    {
      visitCall(CB);
      return;
    }
    // Everything else: switch is lowered; atomics etc.
    if(auto * RMW = dyn_cast<AtomicRMWInst>(I))
    {
      if(!isNull(S(RMW->getValOperand()))) RMW->setOperand(1, conc(B, RMW->getValOperand()));
      return;
    }
    for(auto & op : I->operands())
      if(!isNull(S(op.get()))) unsup(B, op.get(), 9);
  }

  void visitCall(CallBase * CB)
  {
    IRBuilder<> B(CB);
    Function * callee = CB->getCalledFunction();
    Type * T = CB->getType();
    auto afterPoint = [&]() -> Instruction * {
      if(auto * II = dyn_cast<InvokeInst>(CB))
      {
        BasicBlock * nd = II->getNormalDest();
        BasicBlock * bb = nd;
        return &*bb->getFirstInsertionPt();
      }
      return CB->getNextNode();
    };
    if(CB->isInlineAsm())
    {
      for(auto & a : CB->args()) unsup(B, a.get(), 10);
      return;
    }
    if(callee && callee->isIntrinsic())
    {
      visitIntrinsic(cast<IntrinsicInst>(CB));
      return;
    }
    if(callee && callee->getName().starts_with("__sym")) return;
    StringRef name = callee ? callee->getName() : "";
    // --- known library functions
    if(callee && callee->isDeclaration())
    {
      // allocation
      if(name == "malloc" || name == "_Znwm" || name == "_Znam" || name == "_ZnwmSt11align_val_t"
         || name == "_ZnamSt11align_val_t" || name == "_ZnwmRKSt9nothrow_t" || name == "_ZnamRKSt9nothrow_t")
      {
        CB->setArgOperand(0, conc(B, CB->getArgOperand(0)));
        Instruction * ap = afterPoint();
        IRBuilder<> A(ap);
        A.CreateCall(R.clear, {CB, A.CreateZExtOrTrunc(CB->getArgOperand(0), R.I64)});
        return;
      }
      if(name == "aligned_alloc")
      {
        for(unsigned k = 0; k < 2; ++k) CB->setArgOperand(k, conc(B, CB->getArgOperand(k)));
        IRBuilder<> A(afterPoint());
        A.CreateCall(R.clear, {CB, CB->getArgOperand(1)});
        return;
      }
      if(name == "calloc")
      {
        for(unsigned k = 0; k < 2; ++k) CB->setArgOperand(k, conc(B, CB->getArgOperand(k)));
        IRBuilder<> A(afterPoint());
        A.CreateCall(R.clear, {CB, A.CreateMul(CB->getArgOperand(0), CB->getArgOperand(1))});
        return;
      }
      if(name == "realloc")
      {
        CB->setArgOperand(1, conc(B, CB->getArgOperand(1)));
        auto c = R.M.getOrInsertFunction("__sym_realloc", FunctionType::get(R.P, {R.P, R.I64}, false));
        CB->setCalledFunction(c);
        return;
      }
      if(name == "free" || name.starts_with("_ZdlPv") || name.starts_with("_ZdaPv"))
      {
        auto c = R.M.getOrInsertFunction("__sym_free", FunctionType::get(R.P, {R.P}, false));
        CB->setArgOperand(0, B.CreateCall(c, {CB->getArgOperand(0)}));
        for(unsigned k = 1; k < CB->arg_size(); ++k) CB->setArgOperand(k, conc(B, CB->getArgOperand(k)));
        return;
      }
      if(name == "memcpy" || name == "memmove")
      {
        CB->setArgOperand(2, conc(B, CB->getArgOperand(2)));
        B.CreateCall(R.cpy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      if(name == "memset")
      {
        CB->setArgOperand(2, conc(B, CB->getArgOperand(2)));
        unsup(B, CB->getArgOperand(1), 11);
        B.CreateCall(R.clear, {CB->getArgOperand(0), CB->getArgOperand(2)});
        return;
      }
      if(name == "memcmp" || name == "bcmp")
      {
        auto c = R.M.getOrInsertFunction("__sym_loadck", FunctionType::get(R.V, {R.P, R.I64}, false));
        CB->setArgOperand(2, conc(B, CB->getArgOperand(2)));
        B.CreateCall(c, {CB->getArgOperand(0), CB->getArgOperand(2)});
        B.CreateCall(c, {CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      int fcode = 0;
      if(name == "sqrt") fcode = 1;
      else if(name == "fabs") fcode = 2;
      else if(name == "fmin") fcode = 3;
      else if(name == "fmax") fcode = 4;
      else if(name == "pow") fcode = 5;
      else if(name == "exp") fcode = 6;
      else if(name == "log") fcode = 7;
      else if(name == "sin") fcode = 8;
      else if(name == "cos") fcode = 9;
      else if(name == "hypot") fcode = 10;
      if(fcode)
      {
        Value * a = CB->getArgOperand(0);
        Value * b = CB->arg_size() > 1 ? CB->getArgOperand(1) : ConstantFP::get(a->getType(), 0);
        if(!isNull(S(a)) || !isNull(S(b)))
        {
          IRBuilder<> A(afterPoint());
          sh[CB] = A.CreateCall(R.fun, {i32(fcode), i32(64), S(a), bits(A, a), S(b), bits(A, b)});
        }
        return;
      }
      if(!isTvmName(name))
      {
        // uninstrumented code: integers must be concrete; floating point values are passed as is (only output
        // functions take them) and flagged if the function returns something
        for(unsigned k = 0; k < CB->arg_size(); ++k)
        {
          Value * a = CB->getArgOperand(k);
          if(isNull(S(a))) continue;
          if(a->getType()->isIntegerTy())
            CB->setArgOperand(k, conc(B, a));
          else if(isShadowTy(T))
            unsup(B, a, 12);
        }
        return;
      }
    }
    // --- generic (instrumented or unknown) callee
    bool any = false;
    for(unsigned k = 0; k < CB->arg_size() && k < 64; ++k)
    {
      if(!isNull(S(CB->getArgOperand(k)))) any = true;
      if(CB->isByValArgument(k)) any = true;
    }
    if(any)
    {
      for(unsigned k = 0; k < CB->arg_size() && k < 64; ++k)
      {
        Value * a = CB->getArgOperand(k);
        Value * s = S(a);
        if(CB->isByValArgument(k)) s = a;
        Value * gp = B.CreateConstInBoundsGEP2_32(ArrayType::get(R.P, 64), R.args, 0, k);
        B.CreateStore(s, gp);
      }
      B.CreateStore(CB->getCalledOperand(), R.token);
    }
    if(isShadowTy(T))
    {
      B.CreateStore(null, R.ret);
      IRBuilder<> A(afterPoint());
      sh[CB] = A.CreateLoad(R.P, R.ret);
    }
  }

  void visitIntrinsic(IntrinsicInst * II)
  {
    IRBuilder<> B(II);
    IRBuilder<> A(II->getNextNode() ? II->getNextNode() : II);
    auto un = [&](int code) {
      if(isNull(S(II->getArgOperand(0)))) return;
      Value * a = II->getArgOperand(0);
      sh[II] = A.CreateCall(R.fun, {i32(code), i32(widthOf(a->getType())), S(a), bits(A, a), null, i64(0)});
    };
    auto bin = [&](int code) {
      Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
      if(isNull(S(a)) && isNull(S(b))) return;
      sh[II] = A.CreateCall(R.fun, {i32(code), i32(widthOf(a->getType())), S(a), bits(A, a), S(b), bits(A, b)});
    };
    if(II->getType()->isVectorTy())
    {
      for(auto & a : II->args()) unsup(B, a.get(), 13);
      return;
    }
    switch(II->getIntrinsicID())
    {
      case Intrinsic::memcpy:
      case Intrinsic::memcpy_inline:
      case Intrinsic::memmove:
        II->setArgOperand(2, conc(B, II->getArgOperand(2)));
        B.CreateCall(R.cpy, {II->getArgOperand(0), II->getArgOperand(1), B.CreateZExtOrTrunc(II->getArgOperand(2), R.I64)});
        return;
      case Intrinsic::memset:
        II->setArgOperand(2, conc(B, II->getArgOperand(2)));
        if(!isNull(S(II->getArgOperand(1)))) II->setArgOperand(1, conc(B, II->getArgOperand(1)));
        B.CreateCall(R.clear, {II->getArgOperand(0), B.CreateZExtOrTrunc(II->getArgOperand(2), R.I64)});
        return;
      case Intrinsic::sqrt: un(1); return;
      case Intrinsic::fabs: un(2); return;
      case Intrinsic::minnum: bin(3); return;
      case Intrinsic::maxnum: bin(4); return;
      case Intrinsic::pow: bin(5); return;
      case Intrinsic::exp: un(6); return;
      case Intrinsic::log: un(7); return;
      case Intrinsic::sin: un(8); return;
      case Intrinsic::cos: un(9); return;
      case Intrinsic::smin: bin(20); return;
      case Intrinsic::smax: bin(21); return;
      case Intrinsic::umin: bin(22); return;
      case Intrinsic::umax: bin(23); return;
      case Intrinsic::abs: un(24); return;
      case Intrinsic::fmuladd:
      {
        Value *a = II->getArgOperand(0), *b = II->getArgOperand(1), *c = II->getArgOperand(2);
        if(isNull(S(a)) && isNull(S(b)) && isNull(S(c))) return;
        Value * m = A.CreateFMul(a, b);
        Value * sm = A.CreateCall(R.fbin, {i32(Instruction::FMul), S(a), a, S(b), b});
        sh[II] = A.CreateCall(R.fbin, {i32(Instruction::FAdd), sm, m, S(c), c});
        return;
      }
      case Intrinsic::assume:
        if(!isNull(S(II->getArgOperand(0)))) II->setArgOperand(0, ConstantInt::getTrue(R.C));
        return;
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::eh_typeid_for:
      case Intrinsic::invariant_start:
      case Intrinsic::invariant_end:
      case Intrinsic::prefetch:
        return;
      case Intrinsic::expect:
        if(!isNull(S(II->getArgOperand(0)))) sh[II] = S(II->getArgOperand(0));
        return;
      default:
        for(unsigned k = 0; k < II->arg_size(); ++k)
        {
          Value * a = II->getArgOperand(k);
          if(isNull(S(a))) continue;
          if(a->getType()->isIntegerTy() && !isa<Constant>(a))
            II->setArgOperand(k, conc(B, a));
          else
            unsup(B, a, 1000 + (int)II->getIntrinsicID());
        }
    }
  }
};

struct SymPass : public PassInfoMixin<SymPass>
{
  PreservedAnalyses run(Module & M, ModuleAnalysisManager & MAM)
  {
    auto & FAM = MAM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
    for(auto & F : M)
    {
      if(F.isDeclaration()) continue;
      LowerSwitchPass().run(F, FAM);
    }
    FAM.clear();
    RT R(M);
    std::vector<Function *> fs;
    for(auto & F : M)
      if(!F.isDeclaration() && !F.getName().starts_with("__sym") && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    for(auto * F : fs)
    {
      // memory attributes inferred on the original code no longer hold
      FnInstr(*F, R).run();
    }
    for(auto & F : M)
    {
      F.removeFnAttr(Attribute::Memory);
      F.removeFnAttr(Attribute::NoSync);
      F.removeFnAttr(Attribute::WillReturn);
      F.removeFnAttr(Attribute::NoFree);
      F.removeFnAttr(Attribute::NoCallback);
      F.removeFnAttr(Attribute::Speculatable);
      for(auto & BB : F)
        for(auto & I : BB)
        {
          if(auto * CB = dyn_cast<CallBase>(&I)) 
          {
            if(!isa<IntrinsicInst>(CB)) CB->removeFnAttr(Attribute::Memory);
            if(auto * CI = dyn_cast<CallInst>(CB)) if(!isa<IntrinsicInst>(CB)) CI->setTailCallKind(CallInst::TCK_None);
          }
          I.dropUnknownNonDebugMetadata();
        }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "0.1", [](PassBuilder & PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager & MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
