// bsym: LLVM-18 pass that turns the IR of BSMPT + a harness into a symbolic
// executor of itself.  Every scalar int/fp SSA value v gets a shadow s(v) (i32
// handle of an expression node, 0 = concrete).  Shadows of memory live in a
// runtime table, shadows of arguments/returns travel through globals tagged
// with the callee's address.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace llvm;

static std::string envs(const char *n)
{
  const char *v = getenv(n);
  return v ? v : "";
}

namespace
{
// ---------------------------------------------------------------- stubbing --
// BSYM_STUBS: file with lines "<exact mangled name> <replacement symbol>".
// Every use of the first function is redirected to the second one.
static void applyStubs(Module &M)
{
  std::string fn = envs("BSYM_STUBS");
  if (fn.empty()) return;
  std::ifstream f(fn);
  std::string line;
  while (std::getline(f, line))
  {
    std::stringstream ss(line);
    std::string a, b;
    if (!(ss >> a >> b)) continue;
    Function *A = M.getFunction(a), *B = M.getFunction(b);
    if (!A)
    {
      errs() << "bsym: note: stub target " << a << " absent\n";
      continue;
    }
    if (!B) report_fatal_error(Twine("bsym: stub replacement missing: ") + b);
    A->replaceUsesWithIf(B,
                         [&](Use &U)
                         {
                           auto *I = dyn_cast<Instruction>(U.getUser());
                           return !(I && I->getFunction() == B);
                         });
  }
}

// BSYM_SCOPE: locals that left their scope are overwritten, so that a use after
// the end of their lifetime is visible in both executions.
static void poisonScopes(Module &M)
{
  if (envs("BSYM_SCOPE").empty()) return;
  std::vector<IntrinsicInst *> drop;
  for (Function &F : M)
    for (BasicBlock &B : F)
      for (Instruction &I : B)
        if (auto *II = dyn_cast<IntrinsicInst>(&I))
        {
          auto id = II->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) drop.push_back(II);
        }
  for (auto *II : drop)
  {
    auto *A = dyn_cast<AllocaInst>(II->getArgOperand(1)->stripPointerCasts());
    if (A && II->getIntrinsicID() == Intrinsic::lifetime_end)
    {
      auto sz = A->getAllocationSize(M.getDataLayout());
      if (sz && !sz->isScalable())
      {
        IRBuilder<> B(II);
        B.CreateMemSet(A, B.getInt8(0xDD), sz->getFixedValue(), A->getAlign(), true);
      }
    }
    II->eraseFromParent();
  }
}

struct Bsym
{
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I1, *I8, *I32, *I64, *F64, *VoidT;
  PointerType *Ptr;
  GlobalVariable *GArgs, *GArgTag, *GRet, *GRetTag, *GS, *GCov;
  std::vector<std::string> fnNames;
  std::map<std::string, FunctionCallee> rts;

  Bsym(Module &M_) : M(M_), C(M_.getContext()), DL(M_.getDataLayout())
  {
    I1    = Type::getInt1Ty(C);
    I8    = Type::getInt8Ty(C);
    I32   = Type::getInt32Ty(C);
    I64   = Type::getInt64Ty(C);
    F64   = Type::getDoubleTy(C);
    VoidT = Type::getVoidTy(C);
    Ptr   = PointerType::get(C, 0);
    auto ext = [&](const char *n, Type *T) {
      return new GlobalVariable(
          M, T, false, GlobalValue::ExternalLinkage, nullptr, n);
    };
    GArgs   = ext("rt_args", ArrayType::get(I64, 128));
    GArgTag = ext("rt_argtag", I64);
    GRet    = ext("rt_ret", ArrayType::get(I64, 64));
    GRetTag = ext("rt_rettag", I64);
    GS      = ext("rt_s", I32);
    GCov    = nullptr;
  }
  FunctionCallee rt(const char *n, Type *R, ArrayRef<Type *> A)
  {
    auto it = rts.find(n);
    if (it != rts.end()) return it->second;
    auto fc = M.getOrInsertFunction(n, FunctionType::get(R, A, false));
    if (auto *F = dyn_cast<Function>(fc.getCallee()))
      F->addFnAttr(Attribute::NoUnwind);
    rts[n] = fc;
    return fc;
  }

  bool scal(Type *T) { return T->isDoubleTy() || T->isFloatTy() || isInt(T); }
  bool isInt(Type *T)
  {
    return T->isIntegerTy() && T->getIntegerBitWidth() <= 64;
  }
  // shadow type, nullptr if the type carries no shadow
  Type *ST(Type *T)
  {
    if (scal(T)) return I32;
    if (auto *S = dyn_cast<StructType>(T))
    {
      bool any = false;
      SmallVector<Type *, 4> e;
      for (auto *x : S->elements())
      {
        Type *s = ST(x);
        if (s) any = true;
        e.push_back(s ? s : I32);
      }
      return any ? StructType::get(C, e) : nullptr;
    }
    if (auto *A = dyn_cast<ArrayType>(T))
    {
      Type *s = ST(A->getElementType());
      return s ? ArrayType::get(s, A->getNumElements()) : nullptr;
    }
    if (auto *V = dyn_cast<FixedVectorType>(T))
    {
      Type *s = ST(V->getElementType());
      return s ? ArrayType::get(s, V->getNumElements()) : nullptr;
    }
    return nullptr;
  }
  Constant *zero(Type *s) { return Constant::getNullValue(s); }
  static bool isZ(Value *v)
  {
    auto *c = dyn_cast<Constant>(v);
    return c && c->isNullValue();
  }

  // ------------------------------------------------------------ per function
  struct FS
  {
    Function *F;
    std::map<Value *, Value *> sh;    // value -> shadow
    std::map<Value *, Value *> repl;  // old value -> new value
    std::set<Value *> taint;
    std::vector<std::pair<PHINode *, PHINode *>> phis;
  };

  enum MathKind
  {
    NotMath = 0
  };
  // name -> runtime op id (arity encoded)
  struct MathFn
  {
    int op, arity;
  };
  const MathFn *mathFn(StringRef n)
  {
    static const std::map<std::string, MathFn> tab = {
        {"sqrt", {1, 1}},   {"exp", {2, 1}},    {"log", {3, 1}},
        {"sin", {4, 1}},    {"cos", {5, 1}},    {"tan", {6, 1}},
        {"atan", {7, 1}},   {"asin", {8, 1}},   {"acos", {9, 1}},
        {"sinh", {10, 1}},  {"cosh", {11, 1}},  {"tanh", {12, 1}},
        {"fabs", {13, 1}},  {"floor", {14, 1}}, {"ceil", {15, 1}},
        {"log10", {16, 1}}, {"cbrt", {17, 1}},  {"log2", {18, 1}},
        {"exp2", {19, 1}},  {"trunc", {20, 1}}, {"log1p", {21, 1}},
        {"expm1", {22, 1}}, {"round", {23, 1}}, {"nearbyint", {24, 1}},
        {"rint", {24, 1}},  {"exp10", {25, 1}}, {"__exp_finite", {2, 1}},
        {"pow", {40, 2}},   {"atan2", {41, 2}}, {"fmin", {42, 2}},
        {"fmax", {43, 2}},  {"hypot", {44, 2}}, {"cabs", {44, 2}}, {"copysign", {45, 2}},
        {"fmod", {46, 2}},  {"fdim", {47, 2}},
    };
    auto it = tab.find(n.str());
    return it == tab.end() ? nullptr : &it->second;
  }

  bool sinkName(StringRef n)
  {
    // output formatting and similar: symbolic values may be dropped here
    static const char *pre[] = {"_ZNSo9_M_insert",
                                "_ZNSolsE",
                                "_ZNSo3put",
                                "_ZNSo5write",
                                "_ZStlsI",
                                "_ZNSt7__cxx11",
                                "_ZNKSt7__cxx11",
                                "_ZSt16__ostream_insert",
                                "vsnprintf",
                                "snprintf",
                                "printf",
                                "fprintf",
                                "puts",
                                "putchar",
                                "__cxa_",
                                "_Unwind_",
                                "_ZN9__gnu_cxx",
                                "_ZSt17__throw",
                                "_ZSt24__throw",
                                "_ZSt20__throw",
                                "_ZSt19__throw",
                                "_ZSt28__throw",
                                "_ZdlPv",
                                "_ZdaPv",
                                "free",
                                "abort",
                                "exit",
                                "__assert_fail"};
    for (auto *p : pre)
      if (n.starts_with(p)) return true;
    return false;
  }

  bool instrumentable(Function &F)
  {
    if (F.isDeclaration()) return false;
    StringRef n = F.getName();
    if (n.starts_with("rt_")) return false;
    return true;
  }

  // taint: could this value carry a non-null shadow?
  void computeTaint(FS &fs)
  {
    Function &F = *fs.F;
    bool isMain = F.getName() == "main";
    if (!isMain)
      for (auto &A : F.args())
        if (ST(A.getType())) fs.taint.insert(&A);
    bool ch = true;
    while (ch)
    {
      ch = false;
      for (auto &BB : F)
        for (auto &I : BB)
        {
          if (fs.taint.count(&I) || !ST(I.getType())) continue;
          bool t = false;
          if (isa<LoadInst>(I))
            t = true;
          else if (auto *CB = dyn_cast<CallBase>(&I))
          {
            Function *cf = CB->getCalledFunction();
            if (cf && cf->isIntrinsic())
              t = anyTaintOp(fs, I);
            else if (cf && cf->isDeclaration() &&
                     !cf->getName().starts_with("bs_"))
              t = mathFn(cf->getName()) && anyTaintOp(fs, I);
            else if (CB->isInlineAsm())
              t = false;
            else
              t = true;
          }
          else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) ||
                   isa<LandingPadInst>(I) || isa<VAArgInst>(I) ||
                   isa<PtrToIntInst>(I))
            t = false;
          else
            t = anyTaintOp(fs, I);
          if (t)
          {
            fs.taint.insert(&I);
            ch = true;
          }
        }
    }
  }
  bool anyTaintOp(FS &fs, Instruction &I)
  {
    for (auto &op : I.operands())
      if (fs.taint.count(op.get())) return true;
    return false;
  }

  Value *sh(FS &fs, Value *v)
  {
    auto it = fs.sh.find(v);
    if (it != fs.sh.end()) return it->second;
    Type *s = ST(v->getType());
    if (!s) return nullptr;
    return zero(s);
  }
  Value *i64of(IRBuilder<> &B, Value *v)
  {
    if (v->getType() == I64) return v;
    return B.CreateZExt(v, I64);
  }
  Value *fv(IRBuilder<> &B, Value *v)
  {
    return v->getType()->isFloatTy() ? B.CreateFPExt(v, F64) : v;
  }
  Value *unfv(IRBuilder<> &B, Value *v, Type *T)
  {
    return T->isFloatTy() ? B.CreateFPTrunc(v, T) : v;
  }
  Value *loadS(IRBuilder<> &B) { return B.CreateLoad(I32, GS); }

  // shadow load/store of a first class type at a pointer
  Value *memLoad(IRBuilder<> &B, Value *p, Type *T)
  {
    Type *s = ST(T);
    if (scal(T))
    {
      auto f = rt("rt_load", I32, {Ptr, I64});
      return B.CreateCall(f, {p, B.getInt64(DL.getTypeStoreSize(T))});
    }
    Value *agg = UndefValue::get(s);
    agg        = zero(s);
    if (auto *S = dyn_cast<StructType>(T))
    {
      auto *SL = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++)
      {
        if (!ST(S->getElementType(i))) continue;
        Value *q = B.CreateConstGEP1_64(I8, p, SL->getElementOffset(i));
        agg = B.CreateInsertValue(agg, memLoad(B, q, S->getElementType(i)), i);
      }
      return agg;
    }
    Type *E;
    uint64_t n;
    if (auto *A = dyn_cast<ArrayType>(T))
      E = A->getElementType(), n = A->getNumElements();
    else
    {
      auto *V = cast<FixedVectorType>(T);
      E = V->getElementType(), n = V->getNumElements();
    }
    uint64_t sz = DL.getTypeAllocSize(E);
    for (uint64_t i = 0; i < n; i++)
      agg = B.CreateInsertValue(
          agg, memLoad(B, B.CreateConstGEP1_64(I8, p, i * sz), E), i);
    return agg;
  }
  void memStore(IRBuilder<> &B, Value *p, Type *T, Value *s)
  {
    if (scal(T))
    {
      auto f = rt("rt_store", VoidT, {Ptr, I64, I32});
      B.CreateCall(f, {p, B.getInt64(DL.getTypeStoreSize(T)), s});
      return;
    }
    if (!ST(T) || isZ(s))
    {
      auto f = rt("rt_clear", VoidT, {Ptr, I64});
      B.CreateCall(f, {p, B.getInt64(DL.getTypeStoreSize(T))});
      return;
    }
    if (auto *S = dyn_cast<StructType>(T))
    {
      auto *SL = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++)
      {
        Value *q = B.CreateConstGEP1_64(I8, p, SL->getElementOffset(i));
        if (!ST(S->getElementType(i)))
          memStore(B, q, S->getElementType(i), B.getInt32(0));
        else
          memStore(B, q, S->getElementType(i), B.CreateExtractValue(s, i));
      }
      return;
    }
    Type *E;
    uint64_t n;
    if (auto *A = dyn_cast<ArrayType>(T))
      E = A->getElementType(), n = A->getNumElements();
    else
    {
      auto *V = cast<FixedVectorType>(T);
      E = V->getElementType(), n = V->getNumElements();
    }
    uint64_t sz = DL.getTypeAllocSize(E);
    for (uint64_t i = 0; i < n; i++)
      memStore(B,
               B.CreateConstGEP1_64(I8, p, i * sz),
               E,
               B.CreateExtractValue(s, i));
  }
  // flatten shadows into the slot array
  unsigned leaves(Type *s)
  {
    if (s->isIntegerTy()) return 1;
    if (auto *S = dyn_cast<StructType>(s))
    {
      unsigned n = 0;
      for (auto *e : S->elements())
        n += leaves(e);
      return n;
    }
    auto *A = cast<ArrayType>(s);
    return A->getNumElements() * leaves(A->getElementType());
  }
  void putSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &k, Value *s)
  {
    Type *t = s->getType();
    if (t->isIntegerTy())
    {
      B.CreateStore(B.CreateZExt(s, I64), B.CreateConstGEP1_64(I64, G, k++));
      return;
    }
    unsigned n = t->isStructTy() ? t->getStructNumElements()
                                 : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++)
      putSlots(B, G, k, B.CreateExtractValue(s, i));
  }
  Value *getSlots(IRBuilder<> &B, GlobalVariable *G, unsigned &k, Type *t)
  {
    if (t->isIntegerTy())
      return B.CreateTrunc(
          B.CreateLoad(I64, B.CreateConstGEP1_64(I64, G, k++)), I32);
    unsigned n =
        t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    Value *a = zero(t);
    for (unsigned i = 0; i < n; i++)
    {
      Type *e = t->isStructTy() ? t->getStructElementType(i)
                                : t->getArrayElementType();
      a       = B.CreateInsertValue(a, getSlots(B, G, k, e), i);
    }
    return a;
  }

  // replace value of I (after definition) with NV for all later users
  void setRepl(FS &fs, Instruction *I, Value *NV)
  {
    I->replaceUsesWithIf(NV, [&](Use &U) { return U.getUser() != NV; });
    // fix: keep uses inside the computation of NV itself
  }

  void run()
  {
    std::vector<Function *> fns;
    for (auto &F : M)
      if (instrumentable(F)) fns.push_back(&F);
    // coverage bytes
    unsigned n = 0;
    for (auto *F : fns)
    {
      (void)F;
      n++;
    }
    auto *AT = ArrayType::get(I8, n ? n : 1);
    GCov = new GlobalVariable(
        M, AT, false, GlobalValue::ExternalLinkage, zero(AT), "rt_cov_bytes");
    std::string names;
    unsigned idx = 0;
    for (auto *F : fns)
    {
      names += F->getName().str() + "\n";
      instrument(*F, idx++);
    }
    auto *NC = ConstantDataArray::getString(C, names);
    new GlobalVariable(M,
                       NC->getType(),
                       true,
                       GlobalValue::ExternalLinkage,
                       NC,
                       "rt_cov_names");
    new GlobalVariable(M,
                       I64,
                       true,
                       GlobalValue::ExternalLinkage,
                       ConstantInt::get(I64, n),
                       "rt_cov_n");
  }

  Value *str(IRBuilder<> &B, StringRef s)
  {
    static std::map<std::string, Constant *> cache;
    auto it = cache.find(s.str());
    if (it != cache.end()) return it->second;
    Constant *g = B.CreateGlobalStringPtr(s, "bsymstr", 0, &M);
    cache[s.str()] = g;
    return g;
  }

  void instrument(Function &F, unsigned idx)
  {
    F.removeFnAttr(Attribute::Memory);
    F.removeFnAttr(Attribute::NoSync);
    F.removeFnAttr(Attribute::WillReturn);
    F.removeFnAttr(Attribute::Speculatable);
    F.removeFnAttr(Attribute::NoRecurse);
    F.removeFnAttr(Attribute::NoFree);
    for (auto &A : F.args())
    {
      A.removeAttr(Attribute::ReadOnly);
      A.removeAttr(Attribute::ReadNone);
      A.removeAttr(Attribute::WriteOnly);
      A.removeAttr(Attribute::NoCapture);
      A.removeAttr(Attribute::Returned);
      A.removeAttr(Attribute::NoUndef);
    }
    FS fs;
    fs.F = &F;
    // split normal edges of invokes so that code can follow them
    {
      std::vector<InvokeInst *> inv;
      for (auto &BB : F)
        if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator()))
          inv.push_back(II);
      for (auto *II : inv)
      {
        BasicBlock *nd = II->getNormalDest();
        if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front()))
        {
          BasicBlock *nb =
              BasicBlock::Create(C, "bsym.inv", &F, nd);
          BranchInst::Create(nd, nb);
          for (auto &P : nd->phis())
          {
            for (unsigned i = 0; i < P.getNumIncomingValues(); i++)
              if (P.getIncomingBlock(i) == II->getParent() )
                P.setIncomingBlock(i, nb);
          }
          II->setNormalDest(nb);
        }
      }
    }
    computeTaint(fs);
    std::vector<Instruction *> work;
    // reverse post order not needed: dominance is respected via placeholders
    // for non-phi forward references there are none in RPO order
    {
      std::vector<BasicBlock *> order;
      std::set<BasicBlock *> seen;
      std::vector<std::pair<BasicBlock *, unsigned>> st;
      BasicBlock *e = &F.getEntryBlock();
      st.push_back({e, 0});
      seen.insert(e);
      while (!st.empty())
      {
        auto &[b, i] = st.back();
        Instruction *t = b->getTerminator();
        if (i < t->getNumSuccessors())
        {
          BasicBlock *s = t->getSuccessor(i++);
          if (seen.insert(s).second) st.push_back({s, 0});
        }
        else
        {
          order.push_back(b);
          st.pop_back();
        }
      }
      for (auto it = order.rbegin(); it != order.rend(); ++it)
        for (auto &I : **it)
          work.push_back(&I);
    }
    // entry: coverage + argument shadows
    bool isMain = F.getName() == "main";
    {
      BasicBlock &E = F.getEntryBlock();
      // insert after allocas
      Instruction *ip = &*E.getFirstInsertionPt();
      while (isa<AllocaInst>(ip))
        ip = ip->getNextNode();
      IRBuilder<> B(ip);
      B.CreateStore(B.getInt8(1), B.CreateConstGEP1_64(I8, GCov, idx));
      unsigned k = 0;
      bool any = false;
      for (auto &A : F.args())
        if (ST(A.getType()) || A.hasByValAttr()) any = true;
      if (any && !isMain)
      {
        auto f    = rt("rt_enter", VoidT, {Ptr});
        // rt_enter: if tag != F then zero the slots; always reset the tag
        B.CreateCall(f, {&F});
        for (auto &A : F.args())
        {
          if (Type *s = ST(A.getType()))
            fs.sh[&A] = getSlots(B, GArgs, k, s);
          else if (A.hasByValAttr())
          {
            auto g = rt("rt_byval", VoidT, {Ptr, I64, I64});
            Value *o =
                B.CreateLoad(I64, B.CreateConstGEP1_64(I64, GArgs, k++));
            B.CreateCall(
                g,
                {&A,
                 o,
                 B.getInt64(DL.getTypeAllocSize(A.getParamByValType()))});
          }
          if (k > 100) report_fatal_error("too many args");
        }
      }
    }
    for (auto *I : work)
      visit(fs, I);
    for (auto &[p, s] : fs.phis)
    {
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
        s->addIncoming(sh(fs, p->getIncomingValue(i)), p->getIncomingBlock(i));
    }
  }

  Value *concretize(FS &fs, IRBuilder<> &B, Value *v)
  {
    Value *s = sh(fs, v);
    if (!s || isZ(s) || !isInt(v->getType())) return v;
    auto f   = rt("rt_concretize", I64, {I64, I32, I32});
    Value *r = B.CreateCall(
        f,
        {i64of(B, v), s, B.getInt32(v->getType()->getIntegerBitWidth())});
    return v->getType() == I64 ? r : B.CreateTrunc(r, v->getType());
  }

  void visit(FS &fs, Instruction *I)
  {
    if (auto *P = dyn_cast<PHINode>(I))
    {
      if (fs.taint.count(P))
      {
        auto *s = PHINode::Create(
            ST(P->getType()), P->getNumIncomingValues(), "", P);
        fs.sh[P] = s;
        fs.phis.push_back({P, s});
      }
      return;
    }
    if (isa<AllocaInst>(I))
    {
      auto *A = cast<AllocaInst>(I);
      Instruction *nx = I->getNextNode();
      while (isa<AllocaInst>(nx))
        nx = nx->getNextNode();
      IRBuilder<> B(nx);
      Value *sz = B.CreateMul(
          i64of(B, A->getArraySize()),
          B.getInt64(DL.getTypeAllocSize(A->getAllocatedType())));
      B.CreateCall(rt("rt_clear", VoidT, {Ptr, I64}), {A, sz});
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(I))
    {
      if (!ST(L->getType())) return;
      IRBuilder<> B(L->getNextNode());
      Value *s = memLoad(B, L->getPointerOperand(), L->getType());
      if (L->getType()->isDoubleTy() && getenv("BSYM_LEAKCHECK"))
      {
        auto f = rt("rt_chkload", VoidT, {F64, I32, Ptr});
        B.CreateCall(f, {L, s, str(B, fs.F->getName())});
      }
      fs.sh[L] = s;
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(I))
    {
      Value *v = S->getValueOperand();
      IRBuilder<> B(S->getNextNode());
      Type *T = v->getType();
      if (!ST(T))
      {
        B.CreateCall(rt("rt_clear", VoidT, {Ptr, I64}),
                     {S->getPointerOperand(),
                      B.getInt64(DL.getTypeStoreSize(T))});
        return;
      }
      Value *s = sh(fs, v);
      if (isZ(s))
        B.CreateCall(rt("rt_clear", VoidT, {Ptr, I64}),
                     {S->getPointerOperand(),
                      B.getInt64(DL.getTypeStoreSize(T))});
      else
        memStore(B, S->getPointerOperand(), T, s);
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I))
    {
      visitCall(fs, CB);
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I))
    {
      Value *v = R->getReturnValue();
      if (!v || !ST(v->getType())) return;
      if (fs.F->getName() == "main") return;
      IRBuilder<> B(R);
      unsigned k = 0;
      putSlots(B, GRet, k, sh(fs, v));
      if (k > 60) report_fatal_error("ret too wide");
      B.CreateStore(B.CreatePtrToInt(fs.F, I64), GRetTag);
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(I))
    {
      if (!Br->isConditional()) return;
      Value *s = sh(fs, Br->getCondition());
      if (isZ(s)) return;
      IRBuilder<> B(Br);
      auto f = rt("rt_branch", I1, {I1, I32});
      Br->setCondition(B.CreateCall(f, {Br->getCondition(), s}));
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I))
    {
      IRBuilder<> B(Sw);
      Sw->setCondition(concretize(fs, B, Sw->getCondition()));
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I))
    {
      IRBuilder<> B(G);
      for (unsigned i = 1; i < G->getNumOperands(); i++)
      {
        Value *o = G->getOperand(i);
        if (fs.taint.count(o)) G->setOperand(i, concretize(fs, B, o));
      }
      return;
    }
    auto *PSel = dyn_cast<SelectInst>(I); // pointer chosen by a symbolic condition
    if (!fs.taint.count(I) && !(PSel && fs.taint.count(PSel->getCondition())))
    {
      // still: int->ptr conversions of tainted values
      if (isa<IntToPtrInst>(I) && fs.taint.count(I->getOperand(0)))
      {
        IRBuilder<> B(I);
        I->setOperand(0, concretize(fs, B, I->getOperand(0)));
      }
      return;
    }
    IRBuilder<> B(I->getNextNode());
    Type *T = I->getType();
    if (auto *BO = dyn_cast<BinaryOperator>(I))
    {
      if (T->isVectorTy()) unsupported(I);
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      if (T->isFloatingPointTy())
      {
        auto f = rt("rt_fop", F64, {I32, F64, I32, F64, I32});
        Value *r = B.CreateCall(f,
                                {B.getInt32(BO->getOpcode()),
                                 fv(B, a),
                                 sh(fs, a),
                                 fv(B, b),
                                 sh(fs, b)});
        Value *s = loadS(B);
        finish(fs, I, unfv(B, r, T), s);
      }
      else
      {
        auto f = rt("rt_iop", I64, {I32, I32, I64, I32, I64, I32});
        Value *r = B.CreateCall(f,
                                {B.getInt32(BO->getOpcode()),
                                 B.getInt32(T->getIntegerBitWidth()),
                                 i64of(B, a),
                                 sh(fs, a),
                                 i64of(B, b),
                                 sh(fs, b)});
        Value *s = loadS(B);
        finish(fs, I, T == I64 ? r : B.CreateTrunc(r, T), s);
      }
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I))
    {
      if (T->isVectorTy()) unsupported(I);
      Value *a = U->getOperand(0);
      auto f   = rt("rt_fneg", F64, {F64, I32});
      Value *r = B.CreateCall(f, {fv(B, a), sh(fs, a)});
      finish(fs, I, unfv(B, r, T), loadS(B));
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(I))
    {
      if (FC->getOperand(0)->getType()->isVectorTy()) unsupported(I);
      Value *a = FC->getOperand(0), *b = FC->getOperand(1);
      auto f   = rt("rt_fcmp", I1, {I32, F64, I32, F64, I32});
      Value *r = B.CreateCall(f,
                              {B.getInt32(FC->getPredicate()),
                               fv(B, a),
                               sh(fs, a),
                               fv(B, b),
                               sh(fs, b)});
      finish(fs, I, r, loadS(B));
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I))
    {
      Value *a = IC->getOperand(0), *b = IC->getOperand(1);
      if (!isInt(a->getType())) unsupported(I);
      auto f   = rt("rt_icmp", I1, {I32, I32, I64, I32, I64, I32});
      Value *r = B.CreateCall(f,
                              {B.getInt32(IC->getPredicate()),
                               B.getInt32(a->getType()->getIntegerBitWidth()),
                               i64of(B, a),
                               sh(fs, a),
                               i64of(B, b),
                               sh(fs, b)});
      finish(fs, I, r, loadS(B));
      return;
    }
    if (auto *Se = dyn_cast<SelectInst>(I))
    {
      Value *c = Se->getCondition(), *a = Se->getTrueValue(),
            *b = Se->getFalseValue();
      if (c->getType()->isVectorTy()) unsupported(I);
      Value *sc = sh(fs, c);
      if (T == I1)
      {
        auto f   = rt("rt_selbool", I1, {I1, I32, I1, I32, I1, I32});
        Value *r = B.CreateCall(
            f, {c, sc, a, sh(fs, a), b, sh(fs, b)});
        finish(fs, I, r, loadS(B));
        return;
      }
      if (!isZ(sc))
      {
        IRBuilder<> B0(I);
        auto f   = rt("rt_branch", I1, {I1, I32});
        Value *r = B0.CreateCall(f, {c, sc});
        Se->setCondition(r);
        c = r;
      }
      if (ST(T))
        fs.sh[I] = B.CreateSelect(c, sh(fs, a), sh(fs, b));
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I))
    {
      Value *a = CI->getOperand(0);
      Type *FT = a->getType();
      Value *sa = sh(fs, a);
      switch (CI->getOpcode())
      {
      case Instruction::FPExt:
      case Instruction::FPTrunc:
        if (!scal(T) || !scal(FT))
        {
          // long double etc.
          if (!scal(T))
          {
            B.CreateCall(rt("rt_noext", VoidT, {I32, Ptr}),
                         {sa, str(B, "fpext")});
          }
          return;
        }
        fs.sh[I] = sa;
        return;
      case Instruction::BitCast:
        if (scal(T) && scal(FT))
        {
          fs.sh[I] = sa;
          return;
        }
        unsupported(I);
      case Instruction::FPToSI:
      case Instruction::FPToUI:
      {
        auto f = rt("rt_fptoi", I64, {I32, I32, F64, I32});
        Value *r = B.CreateCall(
            f,
            {B.getInt32(CI->getOpcode() == Instruction::FPToSI),
             B.getInt32(T->getIntegerBitWidth()),
             fv(B, a),
             sa});
        Value *s = loadS(B);
        finish(fs, I, T == I64 ? r : B.CreateTrunc(r, T), s);
        return;
      }
      case Instruction::SIToFP:
      case Instruction::UIToFP:
      {
        auto f = rt("rt_itofp", F64, {I32, I32, I64, I32});
        Value *r = B.CreateCall(
            f,
            {B.getInt32(CI->getOpcode() == Instruction::SIToFP),
             B.getInt32(FT->getIntegerBitWidth()),
             i64of(B, a),
             sa});
        Value *s = loadS(B);
        finish(fs, I, unfv(B, r, T), s);
        return;
      }
      case Instruction::Trunc:
      case Instruction::ZExt:
      case Instruction::SExt:
      {
        if (!isInt(T) || !isInt(FT)) unsupported(I);
        auto f = rt("rt_icast", I64, {I32, I32, I32, I64, I32});
        Value *r = B.CreateCall(f,
                                {B.getInt32(CI->getOpcode()),
                                 B.getInt32(FT->getIntegerBitWidth()),
                                 B.getInt32(T->getIntegerBitWidth()),
                                 i64of(B, a),
                                 sa});
        Value *s = loadS(B);
        finish(fs, I, T == I64 ? r : B.CreateTrunc(r, T), s);
        return;
      }
      default: unsupported(I);
      }
      return;
    }
    if (isa<FreezeInst>(I))
    {
      fs.sh[I] = sh(fs, I->getOperand(0));
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(I))
    {
      Value *s = sh(fs, EV->getAggregateOperand());
      if (!s) return;
      fs.sh[I] = B.CreateExtractValue(s, EV->getIndices());
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(I))
    {
      Value *s = sh(fs, IV->getAggregateOperand());
      Value *e = sh(fs, IV->getInsertedValueOperand());
      if (!e) e = B.getInt32(0);
      fs.sh[I] = B.CreateInsertValue(s, e, IV->getIndices());
      return;
    }
    if (auto *EE = dyn_cast<ExtractElementInst>(I))
    {
      auto *ci = dyn_cast<ConstantInt>(EE->getIndexOperand());
      if (!ci) unsupported(I);
      fs.sh[I] = B.CreateExtractValue(sh(fs, EE->getVectorOperand()),
                                      (unsigned)ci->getZExtValue());
      return;
    }
    if (auto *IE = dyn_cast<InsertElementInst>(I))
    {
      auto *ci = dyn_cast<ConstantInt>(IE->getOperand(2));
      if (!ci) unsupported(I);
      fs.sh[I] = B.CreateInsertValue(sh(fs, IE->getOperand(0)),
                                     sh(fs, IE->getOperand(1)),
                                     (unsigned)ci->getZExtValue());
      return;
    }
    if (auto *SV = dyn_cast<ShuffleVectorInst>(I))
    {
      Type *st = ST(T);
      if (!st) return;
      Value *a = sh(fs, SV->getOperand(0)), *b = sh(fs, SV->getOperand(1));
      unsigned na =
          cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements();
      Value *r = zero(st);
      for (unsigned i = 0; i < SV->getShuffleMask().size(); i++)
      {
        int m = SV->getMaskValue(i);
        if (m < 0) continue;
        Value *e = (unsigned)m < na ? B.CreateExtractValue(a, (unsigned)m)
                                    : B.CreateExtractValue(b, m - na);
        r        = B.CreateInsertValue(r, e, i);
      }
      fs.sh[I] = r;
      return;
    }
    unsupported(I);
  }
  [[noreturn]] void unsupported(Instruction *I)
  {
    errs() << "bsym: unsupported in " << I->getFunction()->getName() << ": "
           << *I << "\n";
    report_fatal_error("bsym: unsupported instruction");
  }

  // the value computed by I is replaced by NV (already computed after I using
  // I or its operands); its shadow is s
  void finish(FS &fs, Instruction *I, Value *NV, Value *s)
  {
    std::set<Value *> keep;
    // NV's computation chain consists of runtime calls that do not use I
    I->replaceAllUsesWith(NV);
    fs.sh[NV] = s;
    fs.sh[I]  = s;
    if (fs.taint.count(I)) fs.taint.insert(NV);
  }

  void visitCall(FS &fs, CallBase *CB)
  {
    if (CB->isInlineAsm()) return;
    if (auto *CI = dyn_cast<CallInst>(CB))
      if (CI->isTailCall() || CI->isMustTailCall())
        CI->setTailCallKind(CallInst::TCK_None);
    Function *cf = CB->getCalledFunction();
    Instruction *after;
    if (auto *II = dyn_cast<InvokeInst>(CB))
      after = &*II->getNormalDest()->getFirstInsertionPt();
    else
      after = CB->getNextNode();
    Type *T = CB->getType();

    if (cf && cf->isIntrinsic())
    {
      visitIntrinsic(fs, cast<IntrinsicInst>(CB));
      return;
    }
    bool decl   = cf && cf->isDeclaration();
    StringRef n = cf ? cf->getName() : "";
    if (decl && n.starts_with("rt_")) return;
    bool aware = decl && n.starts_with("bs_");

    if (decl && !aware)
    {
      if (auto *m = mathFn(n))
      {
        if (!fs.taint.count(CB)) return;
        IRBuilder<> B(after);
        emitMath(fs, B, CB, m->op, m->arity);
        return;
      }
      if (n == "memcpy" || n == "memmove")
      {
        IRBuilder<> B(after);
        B.CreateCall(rt("rt_memcpy", VoidT, {Ptr, Ptr, I64}),
                     {CB->getArgOperand(0),
                      CB->getArgOperand(1),
                      CB->getArgOperand(2)});
        return;
      }
      if (n == "memset")
      {
        IRBuilder<> B(after);
        B.CreateCall(rt("rt_clear", VoidT, {Ptr, I64}),
                     {CB->getArgOperand(0), CB->getArgOperand(2)});
        return;
      }
      if (n == "_Znwm" || n == "_Znam" || n == "malloc")
      {
        IRBuilder<> B0(CB);
        CB->setArgOperand(0, concretize(fs, B0, CB->getArgOperand(0)));
        IRBuilder<> B(after);
        B.CreateCall(rt("rt_clear", VoidT, {Ptr, I64}),
                     {CB, CB->getArgOperand(0)});
        return;
      }
      if (n == "calloc")
      {
        IRBuilder<> B(after);
        B.CreateCall(
            rt("rt_clear", VoidT, {Ptr, I64}),
            {CB, B.CreateMul(CB->getArgOperand(0), CB->getArgOperand(1))});
        return;
      }
      if (n == "_ZNSi10_M_extractIdEERSiRT_")
      {
        IRBuilder<> B(after);
        B.CreateCall(rt("rt_istream_double", VoidT, {Ptr}),
                     {CB->getArgOperand(1)});
        return;
      }
      // external: any symbolic argument must not leak
      bool sink = sinkName(n);
      IRBuilder<> B(CB);
      for (unsigned i = 0; i < CB->arg_size(); i++)
      {
        Value *a = CB->getArgOperand(i);
        Value *s = sh(fs, a);
        if (!s || isZ(s)) continue;
        if (sink) continue;
        if (a->getType()->isDoubleTy())
        {
          auto f = rt("rt_extarg_f", F64, {F64, I32, Ptr});
          CB->setArgOperand(i, B.CreateCall(f, {a, s, str(B, n)}));
        }
        else if (isInt(a->getType()))
          CB->setArgOperand(i, concretize(fs, B, a));
        else
        {
          // aggregates/vectors: just check
          checkNoSym(B, s, n);
        }
      }
      return;
    }
    // instrumented, aware or indirect callee: hand over shadows
    {
      IRBuilder<> B(CB);
      bool any = false;
      for (unsigned i = 0; i < CB->arg_size(); i++)
        if (ST(CB->getArgOperand(i)->getType()) || CB->isByValArgument(i))
          any = true;
      if (any)
      {
        unsigned k = 0;
        for (unsigned i = 0; i < CB->arg_size(); i++)
        {
          Value *a = CB->getArgOperand(i);
          if (ST(a->getType()))
            putSlots(B, GArgs, k, sh(fs, a));
          else if (CB->isByValArgument(i))
            B.CreateStore(B.CreatePtrToInt(a, I64),
                          B.CreateConstGEP1_64(I64, GArgs, k++));
          if (k > 100) report_fatal_error("too many args");
        }
        B.CreateStore(B.CreatePtrToInt(CB->getCalledOperand(), I64), GArgTag);
      }
      if (ST(T)) B.CreateStore(B.getInt64(0), GRetTag);
    }
    if (Type *s = ST(T))
    {
      IRBuilder<> B(after);
      if (!aware)
        B.CreateCall(rt("rt_leave", VoidT, {Ptr}), {CB->getCalledOperand()});
      unsigned k = 0;
      fs.sh[CB]  = getSlots(B, GRet, k, s);
    }
  }
  void checkNoSym(IRBuilder<> &B, Value *s, StringRef n)
  {
    if (s->getType()->isIntegerTy())
    {
      B.CreateCall(rt("rt_noext", VoidT, {I32, Ptr}), {s, str(B, n)});
      return;
    }
    unsigned m = s->getType()->isStructTy()
                     ? s->getType()->getStructNumElements()
                     : s->getType()->getArrayNumElements();
    for (unsigned i = 0; i < m; i++)
      checkNoSym(B, B.CreateExtractValue(s, i), n);
  }

  void emitMath(FS &fs, IRBuilder<> &B, CallBase *CB, int op, int arity)
  {
    Value *a = CB->getArgOperand(0);
    if (CB->getType()->isVectorTy()) unsupported(CB);
    if (arity == 1)
    {
      auto f   = rt("rt_math1", F64, {I32, F64, F64, I32});
      Value *r = B.CreateCall(
          f, {B.getInt32(op), fv(B, CB), fv(B, a), sh(fs, a)});
      Value *s = loadS(B);
      finishCall(fs, CB, unfv(B, r, CB->getType()), s, r);
    }
    else
    {
      Value *b = CB->getArgOperand(1);
      auto f   = rt("rt_math2", F64, {I32, F64, F64, I32, F64, I32});
      Value *r = B.CreateCall(f,
                              {B.getInt32(op),
                               fv(B, CB),
                               fv(B, a),
                               sh(fs, a),
                               fv(B, b),
                               sh(fs, b)});
      Value *s = loadS(B);
      finishCall(fs, CB, unfv(B, r, CB->getType()), s, r);
    }
  }
  void finishCall(FS &fs, CallBase *CB, Value *NV, Value *s, Value *r)
  {
    // r (and the fpext feeding it) use CB: keep these uses
    std::set<User *> keep;
    for (Value *op : cast<Instruction>(r)->operands())
    {
      if (op == CB) keep.insert(cast<User>(r));
      if (auto *oi = dyn_cast<FPExtInst>(op))
        if (oi->getOperand(0) == CB) keep.insert(oi);
    }
    CB->replaceUsesWithIf(NV, [&](Use &U) { return !keep.count(U.getUser()); });
    fs.sh[NV] = s;
    fs.sh[CB] = s;
    fs.taint.insert(NV);
  }

  void visitIntrinsic(FS &fs, IntrinsicInst *II)
  {
    Instruction *after = II->getNextNode();
    IRBuilder<> B(after);
    auto id = II->getIntrinsicID();
    switch (id)
    {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    {
      IRBuilder<> B0(II);
      II->setArgOperand(2, concretize(fs, B0, II->getArgOperand(2)));
      B.CreateCall(rt("rt_memcpy", VoidT, {Ptr, Ptr, I64}),
                   {II->getArgOperand(0),
                    II->getArgOperand(1),
                    i64of(B, II->getArgOperand(2))});
      return;
    }
    case Intrinsic::memset:
    {
      IRBuilder<> B0(II);
      II->setArgOperand(2, concretize(fs, B0, II->getArgOperand(2)));
      B.CreateCall(rt("rt_clear", VoidT, {Ptr, I64}),
                   {II->getArgOperand(0), i64of(B, II->getArgOperand(2))});
      return;
    }
    default: break;
    }
    if (!fs.taint.count(II)) return;
    int op = 0, ar = 1;
    switch (id)
    {
    case Intrinsic::sqrt: op = 1; break;
    case Intrinsic::exp: op = 2; break;
    case Intrinsic::log: op = 3; break;
    case Intrinsic::sin: op = 4; break;
    case Intrinsic::cos: op = 5; break;
    case Intrinsic::fabs: op = 13; break;
    case Intrinsic::floor: op = 14; break;
    case Intrinsic::ceil: op = 15; break;
    case Intrinsic::log10: op = 16; break;
    case Intrinsic::log2: op = 18; break;
    case Intrinsic::exp2: op = 19; break;
    case Intrinsic::exp10: op = 25; break;
    case Intrinsic::trunc: op = 20; break;
    case Intrinsic::round: op = 23; break;
    case Intrinsic::nearbyint:
    case Intrinsic::rint: op = 24; break;
    case Intrinsic::pow: op = 40, ar = 2; break;
    case Intrinsic::minnum: op = 42, ar = 2; break;
    case Intrinsic::maxnum: op = 43, ar = 2; break;
    case Intrinsic::copysign: op = 45, ar = 2; break;
    default: break;
    }
    if (op)
    {
      emitMath(fs, B, II, op, ar);
      return;
    }
    if (id == Intrinsic::fmuladd || id == Intrinsic::fma)
    {
      Value *a = II->getArgOperand(0), *b = II->getArgOperand(1),
            *c = II->getArgOperand(2);
      Type *T  = II->getType();
      if (T->isVectorTy()) unsupported(II);
      auto f   = rt("rt_fop", F64, {I32, F64, I32, F64, I32});
      Value *r = B.CreateCall(f,
                              {B.getInt32(Instruction::FMul),
                               fv(B, a),
                               sh(fs, a),
                               fv(B, b),
                               sh(fs, b)});
      Value *s = loadS(B);
      Value *q = B.CreateCall(
          f, {B.getInt32(Instruction::FAdd), r, s, fv(B, c), sh(fs, c)});
      Value *s2 = loadS(B);
      finish(fs, II, unfv(B, q, T), s2);
      return;
    }
    if (id == Intrinsic::powi)
    {
      Value *a = II->getArgOperand(0);
      Value *b = B.CreateSIToFP(II->getArgOperand(1), F64);
      auto f   = rt("rt_math2", F64, {I32, F64, F64, I32, F64, I32});
      Value *r = B.CreateCall(f,
                              {B.getInt32(40),
                               fv(B, II),
                               fv(B, a),
                               sh(fs, a),
                               b,
                               B.getInt32(0)});
      Value *s = loadS(B);
      finishCall(fs, II, unfv(B, r, II->getType()), s, r);
      return;
    }
    if (id == Intrinsic::smax || id == Intrinsic::smin ||
        id == Intrinsic::umax || id == Intrinsic::umin)
    {
      auto f = rt("rt_iminmax", I64, {I32, I32, I64, I32, I64, I32});
      int k  = id == Intrinsic::smax   ? 0
               : id == Intrinsic::smin ? 1
               : id == Intrinsic::umax ? 2
                                       : 3;
      Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
      Type *T  = II->getType();
      if (T->isVectorTy()) unsupported(II);
      Value *r = B.CreateCall(f,
                              {B.getInt32(k),
                               B.getInt32(T->getIntegerBitWidth()),
                               i64of(B, a),
                               sh(fs, a),
                               i64of(B, b),
                               sh(fs, b)});
      Value *s = loadS(B);
      finish(fs, II, T == I64 ? r : B.CreateTrunc(r, T), s);
      return;
    }
    if (id == Intrinsic::is_fpclass)
    {
      auto f   = rt("rt_fpclass", I1, {F64, I32, I1, I32});
      Value *a = II->getArgOperand(0);
      Value *r = B.CreateCall(
          f, {fv(B, a), sh(fs, a), II, II->getArgOperand(1)});
      Value *s = loadS(B);
      finishCall(fs, II, r, s, r);
      return;
    }
    if (id == Intrinsic::expect || id == Intrinsic::ssa_copy ||
        id == Intrinsic::launder_invariant_group ||
        id == Intrinsic::strip_invariant_group)
    {
      fs.sh[II] = sh(fs, II->getArgOperand(0));
      return;
    }
    // anything else: concretize integer arguments before the call
    IRBuilder<> B0(II);
    for (unsigned i = 0; i < II->arg_size(); i++)
    {
      Value *a = II->getArgOperand(i);
      if (isa<Constant>(a)) continue;
      Value *s = sh(fs, a);
      if (!s || isZ(s)) continue;
      if (isInt(a->getType()))
        II->setArgOperand(i, concretize(fs, B0, a));
      else
        checkNoSym(B0, s, II->getCalledFunction()->getName());
    }
  }
};

struct BsymPass : PassInfoMixin<BsymPass>
{
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
  {
    if (envs("BSYM_MODE") == "stub")
    {
      applyStubs(M);
      poisonScopes(M);
      return PreservedAnalyses::none();
    }
    Bsym b(M);
    b.run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo
llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION,
          "bsym",
          "0.1",
          [](PassBuilder &PB)
          {
            PB.registerPipelineParsingCallback(
                [](StringRef Name,
                   ModulePassManager &MPM,
                   ArrayRef<PassBuilder::PipelineElement>)
                {
                  if (Name == "bsym")
                  {
                    MPM.addPass(BsymPass());
                    return true;
                  }
                  return false;
                });
          }};
}
