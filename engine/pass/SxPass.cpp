// LLVM 18 pass plugin: makes a module build a symbolic expression next to every value it computes.
// Each scalar SSA value gets a 32-bit "shadow": 0 = concrete, else an expression id in the runtime.
#include "../include/sx_ops.h"

#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/ADT/StringSet.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Passes/PassPlugin.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <cstdlib>

using namespace llvm;

namespace
{
using Shadows = SmallVector<Value *, 2>;

struct Leaf { Type * ty; uint64_t off; SmallVector<unsigned, 4> idx; bool isVecElem = false; };

struct Sx
{
  Module & M;
  const DataLayout & DL;
  LLVMContext & C;
  Type *V, *I1, *I8, *I32, *I64, *P;
  GlobalVariable *GArgs, *GCallee, *GRet, *GRetTag, *GBloom, *GAny, *GByval;
  FunctionCallee fBin, fFBin, fFUn, fFCmp, fCast, fIte, fBranch, fConc, fLoad, fLoadSym, fStore,
    fClear, fMemcpy, fMemset, fOvf, fLostArgs, fOpaquePtr, fLostMem, fLost, fReg, fMemcmp;
  StringMap<std::pair<int, int>> math;  // name -> (op, arity)
  StringMap<std::string> rename;
  StringSet<> ignore;
  bool isLibc = false;

  explicit Sx(Module & m) : M(m), DL(m.getDataLayout()), C(m.getContext())
  {
    V = Type::getVoidTy(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); P = PointerType::get(C, 0);
    auto g = [&](const char * n, Type * t) {
      auto * v = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
      v->setDSOLocal(true);
      return v;
    };
    GArgs = g("_sx_args", ArrayType::get(I32, 64));
    GCallee = g("_sx_callee", P);
    GRet = g("_sx_ret", ArrayType::get(I32, 32));
    GRetTag = g("_sx_ret_tag", P);
    GBloom = g("_sx_bloom", ArrayType::get(I8, 65536));
    GAny = g("_sx_any", I8);
    GByval = g("_sx_byval", ArrayType::get(P, 64));
    AttributeList nu;
    nu = nu.addFnAttribute(C, Attribute::NoUnwind);
    auto f = [&](const char * n, Type * r, std::initializer_list<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false), nu);
    };
    fBin = f("_sx_bin", I32, {I32, I32, I32, I64, I32, I64});
    fFBin = f("_sx_fbin", I32, {I32, I32, I32, I64, I32, I64});
    fFUn = f("_sx_fun", I32, {I32, I32, I32, I64});
    fFCmp = f("_sx_fcmp", I32, {I32, I32, I32, I64, I32, I64});
    fCast = f("_sx_cast", I32, {I32, I32, I32, I32, I64});
    fIte = f("_sx_ite", I32, {I32, I32, I32, I64, I32, I64, I32});
    fBranch = f("_sx_branch", I32, {I32, I32, P});
    fConc = f("_sx_conc", V, {I32, I64, P});
    fLost = f("_sx_lost", V, {I32, I64, P});
    fLoad = f("_sx_load", I32, {P, I32, I32});
    fLoadSym = f("_sx_load_sym", I32, {I32, P, I32, I32, P});
    fStore = f("_sx_store", V, {P, I32, I32, I64});
    fClear = f("_sx_clear", V, {P, I64});
    fMemcpy = f("_sx_memcpy", V, {P, P, I64});
    fMemset = f("_sx_memset", V, {P, I64, I32, I64});
    fOvf = f("_sx_ovf", I32, {I32, I32, I32, I64, I32, I64});
    fLostArgs = f("_sx_lost_args", V, {I32, P, P});
    fOpaquePtr = f("_sx_opaque_ptr", V, {P, P});
    fLostMem = f("_sx_lost_mem", V, {P, I64, P});
    fReg = f("_sx_register", V, {P, P, P});

    auto m1 = [&](const char * n, int op) { math[n] = {op, 1}; math[std::string(n) + "f"] = {op, 1}; };
    auto m2 = [&](const char * n, int op) { math[n] = {op, 2}; math[std::string(n) + "f"] = {op, 2}; };
    m1("sqrt", OP_FSQRT); m1("fabs", OP_FABS); m1("floor", OP_FFLOOR); m1("ceil", OP_FCEIL);
    m1("trunc", OP_FTRUNC); m1("rint", OP_FRINT); m1("nearbyint", OP_FRINT); m1("round", OP_FROUND);
    m1("roundeven", OP_FRINT);
    m1("sin", OP_SIN); m1("cos", OP_COS); m1("tan", OP_TAN); m1("asin", OP_ASIN);
    m1("acos", OP_ACOS); m1("atan", OP_ATAN); m1("exp", OP_EXP); m1("log", OP_LOG); m1("cbrt", OP_CBRT);
    m2("atan2", OP_ATAN2); m2("pow", OP_POW); m2("hypot", OP_HYPOT); m2("fmod", OP_FREM);
    m2("fmin", OP_FMIN); m2("fmax", OP_FMAX); m2("copysign", OP_FCOPYSIGN);

    for (const char * n : {"strlen", "memchr", "memcmp", "bcmp", "strcmp", "strncmp", "strchr", "strtol", "strtoul",
           "strtoll", "strtoull", "strtod", "strtof", "isspace", "isdigit", "isalpha", "isalnum", "isxdigit",
           "isupper", "islower", "ispunct", "isprint", "tolower", "toupper", "wmemchr", "strtold", "memrchr",
           "rawmemchr", "strspn", "strcspn", "strstr", "atoi", "atof", "strnlen", "lround", "llround", "lrint",
           "llrint", "isnan", "modf", "lroundf"})
      rename[n] = std::string("sxm_") + n;
    rename["_ZSt11_Hash_bytesPKvmm"] = "sxm_hash_bytes";
    rename["_ZSt16__convert_to_vIdEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct"] = "sxm_convert_to_d";
    rename["_ZSt14__convert_to_vIdEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct"] = "sxm_convert_to_d";
    rename["_ZSt14__convert_to_vIfEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct"] = "sxm_convert_to_f";
    rename["_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"] =
      "sxm_istream_string";
    rename["_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_"] =
      "sxm_getline";
    rename["__isoc23_strtol"] = "sxm_strtol"; rename["__isoc23_strtoul"] = "sxm_strtoul";
    rename["__isoc23_strtoll"] = "sxm_strtoll"; rename["__isoc23_strtoull"] = "sxm_strtoull";

    for (const char * n : {"__cxa_throw", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_allocate_exception",
           "__cxa_free_exception", "_Unwind_Resume", "_ZdlPv", "_ZdlPvm", "__cxa_rethrow", "__cxa_guard_acquire",
           "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "__clang_call_terminate", "_ZSt9terminatev",
           "snprintf", "vsnprintf", "printf", "fprintf", "puts", "putchar", "__dynamic_cast", "free", "abort", "exit",
           "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "__errno_location",
           "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
           "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
           "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
           "_ZNSt8__detail15_List_node_base7_M_hookEPS0_", "_ZNSt8__detail15_List_node_base9_M_unhookEv",
           "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", "_ZNSt8__detail15_List_node_base7swapERS0_S1_",
           "_ZNSt6localeC1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt6localeD1Ev", "_ZNSt8ios_base4InitC1Ev",
           "_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseD2Ev", "_ZNSt6localeaSERKS_", "_ZNKSt6locale2id5_M_idEv",
           "_ZNKSt5ctypeIcE13_M_widen_initEv", "pthread_mutex_lock", "pthread_mutex_unlock"})
      ignore.insert(n);
    isLibc = M.getModuleIdentifier().find("sx_libc") != std::string::npos ||
             M.getSourceFileName().find("sx_libc") != std::string::npos;
  }

  // ---- types
  static bool scalarOk(Type * t)
  {
    if (auto * it = dyn_cast<IntegerType>(t)) return it->getBitWidth() <= 64;
    return t->isDoubleTy() || t->isFloatTy() || t->isPointerTy();
  }
  void leaves(Type * t, uint64_t off, SmallVector<unsigned, 4> idx, SmallVectorImpl<Leaf> & out)
  {
    if (t->isVoidTy()) return;
    if (auto * st = dyn_cast<StructType>(t)) {
      auto * sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) {
        auto j = idx; j.push_back(i);
        leaves(st->getElementType(i), off + sl->getElementOffset(i), j, out);
      }
    } else if (auto * at = dyn_cast<ArrayType>(t)) {
      for (unsigned i = 0; i < at->getNumElements(); ++i) {
        auto j = idx; j.push_back(i);
        leaves(at->getElementType(), off + i * DL.getTypeAllocSize(at->getElementType()), j, out);
      }
    } else if (auto * vt = dyn_cast<FixedVectorType>(t)) {
      for (unsigned i = 0; i < vt->getNumElements(); ++i) {
        auto j = idx; j.push_back(i);
        Leaf l{vt->getElementType(), off + i * DL.getTypeStoreSize(vt->getElementType()), j};
        l.isVecElem = true;
        out.push_back(l);
      }
    } else
      out.push_back(Leaf{t, off, idx});
  }
  unsigned nleaves(Type * t)
  {
    SmallVector<Leaf, 4> l;
    leaves(t, 0, {}, l);
    return l.size();
  }
  static unsigned tyOf(Type * t) { return t->isDoubleTy() ? TY_F64 : t->isFloatTy() ? TY_F32 : TY_BV; }
  unsigned widthOf(Type * t)
  {
    if (t->isDoubleTy() || t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (auto * it = dyn_cast<IntegerType>(t)) return it->getBitWidth();
    return 0;
  }
  // type code passed to the runtime: width | ty << 16
  unsigned tcode(Type * t) { return widthOf(t) | (tyOf(t) << 16); }

  // ---- per function
  Function * F = nullptr;
  DenseMap<Value *, Shadows> sh;
  GlobalVariable * touched = nullptr;
  Instruction * allocaPoint = nullptr;
  SmallVector<std::pair<PHINode *, SmallVector<PHINode *, 2>>, 16> phis;
  ConstantInt * Z() { return ConstantInt::get(Type::getInt32Ty(C), 0); }
  static bool isZ(Value * v) { auto * c = dyn_cast<ConstantInt>(v); return c && c->isZero(); }
  Value * c32(uint64_t x) { return ConstantInt::get(I32, x); }
  Value * c64(uint64_t x) { return ConstantInt::get(I64, x); }

  Shadows get(Value * v)
  {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    return Shadows(nleaves(v->getType()), Z());
  }
  Value * get1(Value * v)
  {
    auto s = get(v);
    return s.empty() ? Z() : s[0];
  }
  void set1(Value * v, Value * s) { sh[v] = Shadows{s}; }

  // concrete scalar as i64 bits
  Value * bits(IRBuilder<> & B, Value * v)
  {
    Type * t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (auto * it = dyn_cast<IntegerType>(t)) {
      if (it->getBitWidth() == 64) return v;
      if (it->getBitWidth() < 64) return B.CreateZExt(v, I64);
    }
    return c64(0);
  }

  DenseMap<std::pair<unsigned, StringRef>, Constant *> sites;
  StringMap<Constant *> strs;
  Constant * str(StringRef s)
  {
    auto & e = strs[s];
    if (!e) {
      auto * init = ConstantDataArray::getString(C, s);
      auto * g = new GlobalVariable(M, init->getType(), true, GlobalValue::PrivateLinkage, init, "sx.str");
      g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global);
      e = g;
    }
    return e;
  }
  Constant * site(Instruction * I)
  {
    std::string s;
    if (auto & d = I->getDebugLoc()) {
      s = d->getFilename().str() + ":" + std::to_string(d->getLine());
    }
    s += "@" + F->getName().str();
    return str(s);
  }

  // run `mk` only if one of the shadows is non-zero; returns its i32 result (0 otherwise)
  template <class Fn>
  Value * guarded(Instruction * before, ArrayRef<Value *> ss, Fn mk, bool hasResult = true)
  {
    SmallVector<Value *, 8> nz;
    for (auto * s : ss)
      if (!isZ(s)) nz.push_back(s);
    if (nz.empty()) return Z();
    IRBuilder<> B(before);
    Value * any = nz[0];
    for (unsigned i = 1; i < nz.size(); ++i) any = B.CreateOr(any, nz[i]);
    Value * cond = B.CreateICmpNE(any, Z());
    if (auto * cc = dyn_cast<ConstantInt>(cond)) { if (cc->isZero()) return Z(); }
    BasicBlock * head = before->getParent();
    Instruction * then = SplitBlockAndInsertIfThen(cond, before, false);
    IRBuilder<> TB(then);
    if (before->getDebugLoc()) TB.SetCurrentDebugLocation(before->getDebugLoc());
    if (touched) TB.CreateStore(ConstantInt::get(I8, 3), touched);
    Value * r = mk(TB);
    if (!hasResult) return Z();
    IRBuilder<> PB(&before->getParent()->front());
    PHINode * phi = PB.CreatePHI(I32, 2);
    phi->addIncoming(Z(), head);
    phi->addIncoming(r, then->getParent());
    return phi;
  }

  Value * bloomOf(IRBuilder<> & B, Value * ptr)
  {
    Value * a = B.CreatePtrToInt(ptr, I64);
    Value * idx = B.CreateAnd(B.CreateLShr(a, 12), c64(0xFFFF));
    return B.CreateLoad(I8, B.CreateInBoundsGEP(GBloom->getValueType(), GBloom, {c64(0), idx}));
  }

  Value * loadShadow(Instruction * before, Value * ptr, Type * ty, uint64_t off, Value * sp, Instruction * at)
  {
    // `before` comes after the load itself
    IRBuilder<> B(before);
    Value * p = off ? B.CreateInBoundsGEP(I8, ptr, c64(off)) : ptr;
    uint64_t size = DL.getTypeStoreSize(ty);
    if (!scalarOk(ty)) {
      B.CreateCall(fLostMem, {p, c64(size), site(at)});
      return Z();
    }
    Value * bl = B.CreateICmpNE(bloomOf(B, p), ConstantInt::get(I8, 0));
    Value * symp = isZ(sp) ? (Value *)ConstantInt::getFalse(C) : B.CreateICmpNE(sp, Z());
    Value * cond = isZ(sp) ? bl : B.CreateOr(bl, symp);
    BasicBlock * head = before->getParent();
    Instruction * then = SplitBlockAndInsertIfThen(cond, before, false);
    IRBuilder<> TB(then);
    Value * r;
    if (isZ(sp))
      r = TB.CreateCall(fLoad, {p, c32(size), c32(tcode(ty))});
    else
      r = TB.CreateCall(fLoadSym, {sp, p, c32(size), c32(tcode(ty)), site(at)});
    IRBuilder<> PB(&before->getParent()->front());
    PHINode * phi = PB.CreatePHI(I32, 2);
    phi->addIncoming(Z(), head);
    phi->addIncoming(r, then->getParent());
    return phi;
  }
  void storeShadow(Instruction * before, Value * ptr, Value * val, Type * ty, uint64_t off, Value * s)
  {
    IRBuilder<> B(before);
    Value * p = off ? B.CreateInBoundsGEP(I8, ptr, c64(off)) : ptr;
    uint64_t size = DL.getTypeStoreSize(ty);
    Value * bl = B.CreateICmpNE(bloomOf(B, p), ConstantInt::get(I8, 0));
    if (!scalarOk(ty)) {
      Instruction * then = SplitBlockAndInsertIfThen(bl, before, false);
      IRBuilder<> TB(then);
      TB.CreateCall(fClear, {p, c64(size)});
      return;
    }
    Value * cond = isZ(s) ? bl : B.CreateOr(bl, B.CreateICmpNE(s, Z()));
    Instruction * then = SplitBlockAndInsertIfThen(cond, before, false);
    IRBuilder<> TB(then);
    TB.CreateCall(fStore, {p, c32(size), s, isZ(s) ? c64(0) : bits(TB, val)});
  }

  Value * extractLeaf(IRBuilder<> & B, Value * v, const Leaf & l)
  {
    if (l.idx.empty()) return v;
    if (l.isVecElem) {
      auto pre = ArrayRef<unsigned>(l.idx).drop_back();
      Value * x = pre.empty() ? v : B.CreateExtractValue(v, pre);
      return B.CreateExtractElement(x, (uint64_t)l.idx.back());
    }
    return B.CreateExtractValue(v, l.idx);
  }

  // ---- instructions
  void visit(Instruction * I)
  {
    Instruction * next = I->isTerminator() ? nullptr : I->getNextNode();
    switch (I->getOpcode()) {
      case Instruction::Add: return bin(I, OP_ADD);
      case Instruction::Sub: return bin(I, OP_SUB);
      case Instruction::Mul: return bin(I, OP_MUL);
      case Instruction::UDiv: return bin(I, OP_UDIV);
      case Instruction::SDiv: return bin(I, OP_SDIV);
      case Instruction::URem: return bin(I, OP_UREM);
      case Instruction::SRem: return bin(I, OP_SREM);
      case Instruction::Shl: return bin(I, OP_SHL);
      case Instruction::LShr: return bin(I, OP_LSHR);
      case Instruction::AShr: return bin(I, OP_ASHR);
      case Instruction::And: return bin(I, OP_AND);
      case Instruction::Or: return bin(I, OP_OR);
      case Instruction::Xor: return bin(I, OP_XOR);
      case Instruction::FAdd: return bin(I, OP_FADD);
      case Instruction::FSub: return bin(I, OP_FSUB);
      case Instruction::FMul: return bin(I, OP_FMUL);
      case Instruction::FDiv: return bin(I, OP_FDIV);
      case Instruction::FRem: return bin(I, OP_FREM);
      case Instruction::FNeg: return un(I, I->getOperand(0), OP_FNEG);
      case Instruction::ICmp: return icmp(cast<ICmpInst>(I));
      case Instruction::FCmp: {
        auto * c = cast<FCmpInst>(I);
        auto sa = get(c->getOperand(0)), sb = get(c->getOperand(1));
        elementwise(I, c->getOperand(0), c->getOperand(1), [&](IRBuilder<> & B, Value * a, Value * sa1, Value * b, Value * sb1) {
          return B.CreateCall(fFCmp, {c32(c->getPredicate()), c32(tyOf(a->getType())), sa1, bits(B, a), sb1, bits(B, b)});
        });
        return;
      }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
      case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::BitCast:
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return castI(cast<CastInst>(I));
      case Instruction::Freeze: sh[I] = get(I->getOperand(0)); return;
      case Instruction::Select: return select(cast<SelectInst>(I));
      case Instruction::PHI: return;  // done before
      case Instruction::Load: {
        auto * L = cast<LoadInst>(I);
        SmallVector<Leaf, 4> ls;
        leaves(L->getType(), 0, {}, ls);
        Value * sp = get1(L->getPointerOperand());
        Shadows r;
        if (ls.size() != 1 && !isZ(sp)) { concretise(I, L->getPointerOperand(), sp); sp = Z(); }
        for (auto & l : ls) {
          Value * s = loadShadow(next, L->getPointerOperand(), l.ty, l.off, sp, I);
          r.push_back(s);
        }
        sh[I] = r;
        return;
      }
      case Instruction::Store: {
        auto * S = cast<StoreInst>(I);
        Value * sp = get1(S->getPointerOperand());
        if (!isZ(sp)) concretise(I, S->getPointerOperand(), sp);
        SmallVector<Leaf, 4> ls;
        Value * v = S->getValueOperand();
        leaves(v->getType(), 0, {}, ls);
        auto ss = get(v);
        for (unsigned i = 0; i < ls.size(); ++i) {
          IRBuilder<> B(next);
          Value * x = (isZ(ss[i])) ? nullptr : extractLeaf(B, v, ls[i]);
          storeShadow(next, S->getPointerOperand(), x, ls[i].ty, ls[i].off, ss[i]);
        }
        return;
      }
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
        Value * p = I->getOperand(0);
        Type * t = isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I)->getValOperand()->getType()
                                         : cast<AtomicCmpXchgInst>(I)->getNewValOperand()->getType();
        storeShadow(next, p, nullptr, t, 0, Z());
        return;
      }
      case Instruction::GetElementPtr: return gep(cast<GetElementPtrInst>(I));
      case Instruction::ExtractValue: {
        auto * E = cast<ExtractValueInst>(I);
        SmallVector<Leaf, 8> ls;
        leaves(E->getAggregateOperand()->getType(), 0, {}, ls);
        auto ss = get(E->getAggregateOperand());
        Shadows r;
        for (unsigned i = 0; i < ls.size(); ++i) {
          auto & ix = ls[i].idx;
          if (ix.size() >= E->getNumIndices() && std::equal(E->idx_begin(), E->idx_end(), ix.begin())) r.push_back(ss[i]);
        }
        sh[I] = r;
        return;
      }
      case Instruction::InsertValue: {
        auto * E = cast<InsertValueInst>(I);
        SmallVector<Leaf, 8> ls;
        leaves(E->getAggregateOperand()->getType(), 0, {}, ls);
        auto ss = get(E->getAggregateOperand());
        auto vs = get(E->getInsertedValueOperand());
        Shadows r;
        unsigned k = 0;
        for (unsigned i = 0; i < ls.size(); ++i) {
          auto & ix = ls[i].idx;
          if (ix.size() >= E->getNumIndices() && std::equal(E->idx_begin(), E->idx_end(), ix.begin())) r.push_back(vs[k++]);
          else r.push_back(ss[i]);
        }
        sh[I] = r;
        return;
      }
      case Instruction::ExtractElement: {
        auto * ci = dyn_cast<ConstantInt>(I->getOperand(1));
        auto ss = get(I->getOperand(0));
        if (ci && ci->getZExtValue() < ss.size()) set1(I, ss[ci->getZExtValue()]);
        else lostAll(I, ss, "extractelement");
        return;
      }
      case Instruction::InsertElement: {
        auto * ci = dyn_cast<ConstantInt>(I->getOperand(2));
        auto ss = get(I->getOperand(0));
        if (ci && ci->getZExtValue() < ss.size()) { ss[ci->getZExtValue()] = get1(I->getOperand(1)); sh[I] = ss; }
        else { ss.push_back(get1(I->getOperand(1))); lostAll(I, ss, "insertelement"); }
        return;
      }
      case Instruction::ShuffleVector: {
        auto * S = cast<ShuffleVectorInst>(I);
        auto a = get(S->getOperand(0)), b = get(S->getOperand(1));
        Shadows r;
        for (int m : S->getShuffleMask())
          r.push_back(m < 0 ? Z() : (unsigned)m < a.size() ? a[m] : b[m - a.size()]);
        sh[I] = r;
        return;
      }
      case Instruction::Alloca: {
        auto * A = cast<AllocaInst>(I);
        uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType());
        if (A->isStaticAlloca() && allocaPoint) next = allocaPoint;
        IRBuilder<> B(next);
        Value * n = B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(), I64), c64(sz));
        Value * any = B.CreateICmpNE(B.CreateLoad(I8, GAny), ConstantInt::get(I8, 0));
        Instruction * then = SplitBlockAndInsertIfThen(any, next, false);
        IRBuilder<> TB(then);
        TB.CreateCall(fClear, {A, n});
        return;
      }
      case Instruction::Br: {
        auto * Br = cast<BranchInst>(I);
        if (!Br->isConditional()) return;
        Value * s = get1(Br->getCondition());
        Value * cnd = Br->getCondition();
        if (isZ(s)) return;
        // the runtime may dictate the direction (real mode); 2 = keep the concrete one
        Value * r = guarded(I, {s}, [&](IRBuilder<> & B) -> Value * {
          return B.CreateCall(fBranch, {s, B.CreateZExt(cnd, I32), site(I)}); });
        IRBuilder<> B(I);
        Br->setCondition(B.CreateXor(cnd, B.CreateICmpNE(r, Z())));
        return;
      }
      case Instruction::IndirectBr: case Instruction::Switch: {
        Value * v = I->getOperand(0);
        Value * s = get1(v);
        concretise(I, v, s);
        return;
      }
      case Instruction::Ret: {
        auto * R = cast<ReturnInst>(I);
        Value * v = R->getReturnValue();
        if (!v) return;
        auto ss = get(v);
        IRBuilder<> B(I);
        bool any = false;
        for (auto * s : ss) any |= !isZ(s);
        if (!any || ss.size() > 32) { B.CreateStore(ConstantPointerNull::get(cast<PointerType>(P)), GRetTag); return; }
        for (unsigned i = 0; i < ss.size(); ++i)
          B.CreateStore(ss[i], B.CreateInBoundsGEP(GRet->getValueType(), GRet, {c64(0), c64(i)}));
        B.CreateStore(F, GRetTag);
        return;
      }
      case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I));
      case Instruction::LandingPad: case Instruction::Resume: case Instruction::Unreachable: case Instruction::Fence:
        return;
      default: {
        Shadows ss;
        for (auto & o : I->operands())
          for (auto * s : get(o)) ss.push_back(s);
        lostAll(I, ss, I->getOpcodeName());
        return;
      }
    }
  }
  void lostAll(Instruction * I, ArrayRef<Value *> ss, StringRef what)
  {
    for (auto * s : ss)
      guarded(I, {s}, [&](IRBuilder<> & B) {
        B.CreateCall(fLost, {s, c64(0), str(("unsupported:" + what).str())});
        return (Value *)nullptr; }, false);
  }
  void concretise(Instruction * I, Value * v, Value * s)
  {
    if (isZ(s)) return;
    guarded(I, {s}, [&](IRBuilder<> & B) {
      B.CreateCall(fConc, {s, bits(B, v), site(I)});
      return (Value *)nullptr; }, false);
  }
  template <class Fn>
  void elementwise(Instruction * I, Value * a, Value * b, Fn mk)
  {
    auto sa = get(a), sb = get(b);
    SmallVector<Leaf, 4> ls;
    leaves(a->getType(), 0, {}, ls);
    Shadows r;
    for (unsigned i = 0; i < ls.size(); ++i) {
      if (isZ(sa[i]) && isZ(sb[i])) { r.push_back(Z()); continue; }
      if (!scalarOk(ls[i].ty)) { lostAll(I, {sa[i], sb[i]}, "wide-type"); r.push_back(Z()); continue; }
      r.push_back(guarded(I->getNextNode(), {sa[i], sb[i]}, [&](IRBuilder<> & B) {
        return mk(B, extractLeaf(B, a, ls[i]), sa[i], extractLeaf(B, b, ls[i]), sb[i]); }));
    }
    sh[I] = r;
  }
  void bin(Instruction * I, int op)
  {
    elementwise(I, I->getOperand(0), I->getOperand(1), [&](IRBuilder<> & B, Value * a, Value * sa, Value * b, Value * sb) -> Value * {
      if (a->getType()->isFloatingPointTy())
        return B.CreateCall(fFBin, {c32(op), c32(tyOf(a->getType())), sa, bits(B, a), sb, bits(B, b)});
      return B.CreateCall(fBin, {c32(op), c32(widthOf(a->getType())), sa, bits(B, a), sb, bits(B, b)});
    });
  }
  void un(Instruction * I, Value * x, int op)
  {
    auto sa = get(x);
    SmallVector<Leaf, 4> ls;
    leaves(x->getType(), 0, {}, ls);
    Shadows r;
    Instruction * at = afterCall(I);
    for (unsigned i = 0; i < ls.size(); ++i) {
      if (!scalarOk(ls[i].ty)) { r.push_back(Z()); continue; }
      r.push_back(guarded(at, {sa[i]}, [&](IRBuilder<> & B) {
        Value * a = extractLeaf(B, x, ls[i]);
        return B.CreateCall(fFUn, {c32(op), c32(tcode(a->getType())), sa[i], bits(B, a)}); }));
    }
    sh[I] = r;
  }
  void icmp(ICmpInst * I)
  {
    int op; bool swap = false, neg = false;
    switch (I->getPredicate()) {
      case CmpInst::ICMP_EQ: op = OP_EQ; break;
      case CmpInst::ICMP_NE: op = OP_EQ; neg = true; break;
      case CmpInst::ICMP_ULT: op = OP_ULT; break;
      case CmpInst::ICMP_ULE: op = OP_ULE; break;
      case CmpInst::ICMP_UGT: op = OP_ULT; swap = true; break;
      case CmpInst::ICMP_UGE: op = OP_ULE; swap = true; break;
      case CmpInst::ICMP_SLT: op = OP_SLT; break;
      case CmpInst::ICMP_SLE: op = OP_SLE; break;
      case CmpInst::ICMP_SGT: op = OP_SLT; swap = true; break;
      default: op = OP_SLE; swap = true; break;
    }
    elementwise(I, I->getOperand(0), I->getOperand(1), [&](IRBuilder<> & B, Value * a, Value * sa, Value * b, Value * sb) -> Value * {
      if (swap) { std::swap(a, b); std::swap(sa, sb); }
      return B.CreateCall(fBin, {c32(op | (neg ? 256 : 0)), c32(widthOf(a->getType())), sa, bits(B, a), sb, bits(B, b)});
    });
  }
  void castI(CastInst * I)
  {
    Value * x = I->getOperand(0);
    auto ss = get(x);
    bool any = false;
    for (auto * s : ss) any |= !isZ(s);
    unsigned n = nleaves(I->getType());
    if (!any) { sh[I] = Shadows(n, Z()); return; }
    if (ss.size() != n) {  // bitcast between vector and scalar of the same size
      lostAll(I, ss, "bitcast-vector");
      sh[I] = Shadows(n, Z());
      return;
    }
    SmallVector<Leaf, 4> ls, ld;
    leaves(x->getType(), 0, {}, ls);
    leaves(I->getType(), 0, {}, ld);
    Shadows r;
    for (unsigned i = 0; i < n; ++i) {
      Type *st = ls[i].ty, *dt = ld[i].ty;
      if (!scalarOk(st) || !scalarOk(dt)) { lostAll(I, {ss[i]}, "wide-cast"); r.push_back(Z()); continue; }
      int op;
      switch (I->getOpcode()) {
        case Instruction::ZExt: op = OP_ZEXT; break;
        case Instruction::SExt: op = OP_SEXT; break;
        case Instruction::Trunc: op = OP_EXTRACT; break;
        case Instruction::FPToSI: op = OP_FPTOSI; break;
        case Instruction::FPToUI: op = OP_FPTOUI; break;
        case Instruction::SIToFP: op = OP_SITOFP; break;
        case Instruction::UIToFP: op = OP_UITOFP; break;
        case Instruction::FPExt: op = OP_FPEXT; break;
        case Instruction::FPTrunc: op = OP_FPTRUNC; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
          op = widthOf(dt) > widthOf(st) ? OP_ZEXT : widthOf(dt) < widthOf(st) ? OP_EXTRACT : OP_NONE; break;
        default: op = tyOf(st) == tyOf(dt) ? OP_NONE : tyOf(st) == TY_BV ? OP_BITS2F : OP_F2BITS; break;
      }
      if (op == OP_NONE) { r.push_back(ss[i]); continue; }
      r.push_back(guarded(I->getNextNode(), {ss[i]}, [&](IRBuilder<> & B) {
        Value * a = extractLeaf(B, x, ls[i]);
        return B.CreateCall(fCast, {c32(op), c32(tcode(st)), c32(tcode(dt)), ss[i], bits(B, a)}); }));
    }
    sh[I] = r;
  }
  void select(SelectInst * I)
  {
    Value *c = I->getCondition(), *a = I->getTrueValue(), *b = I->getFalseValue();
    auto sa = get(a), sb = get(b), sc = get(c);
    SmallVector<Leaf, 4> ls;
    leaves(a->getType(), 0, {}, ls);
    Shadows r;
    for (unsigned i = 0; i < ls.size(); ++i) {
      Value * sci = sc.size() == 1 ? sc[0] : sc[i];
      if (isZ(sci) && isZ(sa[i]) && isZ(sb[i])) { r.push_back(Z()); continue; }
      if (!scalarOk(ls[i].ty)) { lostAll(I, {sci, sa[i], sb[i]}, "wide-select"); r.push_back(Z()); continue; }
      r.push_back(guarded(I->getNextNode(), {sci, sa[i], sb[i]}, [&](IRBuilder<> & B) {
        Value * ci = sc.size() == 1 ? c : B.CreateExtractElement(c, (uint64_t)i);
        return B.CreateCall(fIte, {sci, B.CreateZExt(ci, I32), sa[i], bits(B, extractLeaf(B, a, ls[i])), sb[i],
                                   bits(B, extractLeaf(B, b, ls[i])), c32(tcode(ls[i].ty))}); }));
    }
    sh[I] = r;
  }
  void gep(GetElementPtrInst * I)
  {
    if (!I->getType()->isPointerTy()) { Shadows ss; for (auto & o : I->operands()) for (auto * s : get(o)) ss.push_back(s); lostAll(I, ss, "vector-gep"); return; }
    Value * sbase = get1(I->getPointerOperand());
    MapVector<Value *, APInt> vars;
    APInt coff(64, 0);
    Shadows ss{sbase};
    bool ok = cast<GEPOperator>(I)->collectOffset(DL, 64, vars, coff);
    if (ok)
      for (auto & kv : vars) ss.push_back(get1(kv.first));
    else {
      ss.clear();
      for (auto & o : I->operands()) for (auto * s : get(o)) ss.push_back(s);
      lostAll(I, ss, "gep");
      return;
    }
    Value * r = guarded(I->getNextNode(), ss, [&](IRBuilder<> & B) -> Value * {
      Value * s = sbase;
      Value * cur = B.CreatePtrToInt(I->getPointerOperand(), I64);
      for (auto & kv : vars) {
        Value * ix = kv.first;
        Value * six = get1(ix);
        unsigned w = widthOf(ix->getType());
        Value * ext = w < 64 ? B.CreateSExt(ix, I64) : ix;
        Value * se = w < 64 ? (Value *)B.CreateCall(fCast, {c32(OP_SEXT), c32(tcode(ix->getType())), c32(64), six, bits(B, ix)}) : six;
        Value * sm = B.CreateCall(fBin, {c32(OP_MUL), c32(64), se, ext, Z(), c64(kv.second.getSExtValue())});
        Value * m = B.CreateMul(ext, c64(kv.second.getSExtValue()));
        s = B.CreateCall(fBin, {c32(OP_ADD), c32(64), s, cur, sm, m});
        cur = B.CreateAdd(cur, m);
      }
      if (coff.getSExtValue() != 0)
        s = B.CreateCall(fBin, {c32(OP_ADD), c32(64), s, cur, Z(), c64(coff.getSExtValue())});
      return s;
    });
    set1(I, r);
  }

  Instruction * afterCall(Instruction * I)
  {
    if (auto * II = dyn_cast<InvokeInst>(I)) {
      return &*invokeDest[II]->getFirstInsertionPt();
    }
    return I->getNextNode();
  }
  DenseMap<InvokeInst *, BasicBlock *> invokeDest;

  void call(CallBase * I)
  {
    if (auto * II = dyn_cast<IntrinsicInst>(I)) return intrinsic(II);
    if (auto * ci = dyn_cast<CallInst>(I)) if (ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
    if (I->isInlineAsm()) {
      Shadows ss;
      for (auto & a : I->args()) for (auto * s : get(a)) ss.push_back(s);
      lostAll(I, ss, "asm");
      return;
    }
    Value * callee = I->getCalledOperand()->stripPointerCastsAndAliases();
    auto * D = dyn_cast<Function>(callee);
    StringRef name = D ? D->getName() : StringRef("");
    if (D && name.starts_with("_sx_")) return;
    if (D) {
      auto r = rename.find(name);
      if (r != rename.end() && !F->getName().starts_with("sxm_")) {
        auto nf = M.getOrInsertFunction(r->second, D->getFunctionType());
        I->setCalledOperand(nf.getCallee());
        I->setAttributes(AttributeList());
        D = dyn_cast<Function>(nf.getCallee());
        callee = nf.getCallee();
        name = D ? D->getName() : "";
      }
      auto m = math.find(name);
      if (m != math.end() && D->isDeclaration() && I->arg_size() == (unsigned)m->second.second &&
          I->getArgOperand(0)->getType()->isFloatingPointTy()) {
        if (m->second.second == 1) return un(I, I->getArgOperand(0), m->second.first);
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        Value *sa = get1(a), *sb = get1(b);
        set1(I, guarded(afterCall(I), {sa, sb}, [&](IRBuilder<> & B) {
          return B.CreateCall(fFBin, {c32(m->second.first), c32(tyOf(a->getType())), sa, bits(B, a), sb, bits(B, b)}); }));
        return;
      }
      if (D->isDeclaration() && (name == "memcpy" || name == "memmove" || name == "__memcpy_chk" || name == "__memmove_chk")) {
        memop(I, I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2), false);
        sh[I] = get(I->getArgOperand(0));
        return;
      }
      if (D->isDeclaration() && name == "memset") {
        memop(I, I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2), true);
        sh[I] = get(I->getArgOperand(0));
        return;
      }
      // the shape of a tree or list depends on these arguments: branch over their values
      if (name.contains("_Rb_tree_") || name.contains("_List_node_base"))
        for (auto & a : I->args()) concretise(I, a.get(), get1(a.get()));
      if (ignore.count(name)) { return; }
    }
    // generic protocol
    Value * sc = D ? Z() : get1(I->getCalledOperand());
    if (!isZ(sc)) concretise(I, I->getCalledOperand(), sc);
    Shadows as;
    bool anyByval = false;
    for (unsigned i = 0; i < I->arg_size(); ++i) {
      for (auto * s : get(I->getArgOperand(i))) as.push_back(s);
      if (I->isByValArgument(i)) anyByval = true;
    }
    bool any = anyByval;
    for (auto * s : as) any |= !isZ(s);
    if (as.size() > 64) { lostAll(I, as, "too-many-args"); any = false; }
    {
      IRBuilder<> B(I);
      if (any) {
        for (unsigned i = 0; i < as.size(); ++i)
          B.CreateStore(as[i], B.CreateInBoundsGEP(GArgs->getValueType(), GArgs, {c64(0), c64(i)}));
        if (anyByval)
          for (unsigned i = 0; i < I->arg_size() && i < 64; ++i)
            if (I->isByValArgument(i))
              B.CreateStore(I->getArgOperand(i), B.CreateInBoundsGEP(GByval->getValueType(), GByval, {c64(0), c64(i)}));
        B.CreateStore(callee, GCallee);
      }
      if (D && D->isDeclaration() && !name.starts_with("sx_") && !name.starts_with("sxm_")) {
        for (unsigned i = 0; i < I->arg_size(); ++i) {
          Value * a = I->getArgOperand(i);
          if (a->getType()->isPointerTy() && !isa<Constant>(a) && !isa<Function>(a)) {
            Value * bl = B.CreateICmpNE(bloomOf(B, a), ConstantInt::get(I8, 0));
            Instruction * then = SplitBlockAndInsertIfThen(bl, I, false);
            IRBuilder<> TB(then);
            TB.CreateCall(fOpaquePtr, {a, str(name)});
            B.SetInsertPoint(I);
          }
        }
      }
    }
    unsigned nr = nleaves(I->getType());
    bool canRet = nr > 0 && nr <= 32 && !I->doesNotReturn();
    if (!any && !canRet) return;
    if (I->doesNotReturn()) return;
    Instruction * at = afterCall(I);
    if (any) {
      IRBuilder<> B(at);
      Value * still = B.CreateICmpEQ(B.CreateLoad(P, GCallee), callee);
      Instruction * then = SplitBlockAndInsertIfThen(still, at, false);
      IRBuilder<> TB(then);
      TB.CreateCall(fLostArgs, {c32(as.size()), D ? str(name) : str("indirect@" + F->getName().str()), callee});
      at = then->getParent()->getSingleSuccessor() ? &*then->getParent()->getSingleSuccessor()->getFirstInsertionPt() : at;
    }
    if (canRet) {
      IRBuilder<> B(at);
      Value * m = B.CreateICmpEQ(B.CreateLoad(P, GRetTag), callee);
      Shadows r;
      for (unsigned i = 0; i < nr; ++i) {
        Value * v = B.CreateLoad(I32, B.CreateInBoundsGEP(GRet->getValueType(), GRet, {c64(0), c64(i)}));
        r.push_back(B.CreateSelect(m, v, Z()));
      }
      sh[I] = r;
    }
  }
  void memop(Instruction * I, Value * d, Value * s, Value * n, bool isSet)
  {
    Value * sn = get1(n);
    concretise(I, n, sn);
    Value *sd = get1(d);
    concretise(I, d, sd);
    IRBuilder<> B(I);
    if (isSet) {
      Value * sv = get1(s);
      Value * any = B.CreateICmpNE(B.CreateLoad(I8, GAny), ConstantInt::get(I8, 0));
      Instruction * then = SplitBlockAndInsertIfThen(any, I, false);
      IRBuilder<> TB(then);
      TB.CreateCall(fMemset, {d, TB.CreateZExtOrTrunc(n, I64), sv, TB.CreateZExtOrTrunc(s, I64)});
    } else {
      Value * ss = get1(s);
      concretise(I, s, ss);
      B.SetInsertPoint(I);
      Value * any = B.CreateICmpNE(B.CreateLoad(I8, GAny), ConstantInt::get(I8, 0));
      Instruction * then = SplitBlockAndInsertIfThen(any, I, false);
      IRBuilder<> TB(then);
      TB.CreateCall(fMemcpy, {d, s, TB.CreateZExtOrTrunc(n, I64)});
    }
  }
  Value * B2(Instruction * at, int op, Value * a, Value * sa, Value * b, Value * sb)
  {
    return guarded(at, {sa, sb}, [&](IRBuilder<> & B) -> Value * {
      if (a->getType()->isFloatingPointTy())
        return B.CreateCall(fFBin, {c32(op), c32(tyOf(a->getType())), sa, bits(B, a), sb, bits(B, b)});
      return B.CreateCall(fBin, {c32(op), c32(widthOf(a->getType())), sa, bits(B, a), sb, bits(B, b)});
    });
  }
  void intrinsic(IntrinsicInst * I)
  {
    Instruction * next = I->getNextNode();
    auto lostIf = [&](const char * w) {
      Shadows ss;
      for (auto & a : I->args())
        if (!a->getType()->isMetadataTy())
          for (auto * s : get(a)) ss.push_back(s);
      lostAll(I, ss, w);
    };
    auto ovf = [&](int op) {
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = get1(a), *sb = get1(b);
      if (!scalarOk(a->getType())) return lostIf("wide-ovf");
      int arith = (op >> 1) == 0 ? OP_ADD : (op >> 1) == 1 ? OP_SUB : OP_MUL;
      Value * r0 = B2(next, arith, a, sa, b, sb);
      Value * r1 = guarded(next, {sa, sb}, [&](IRBuilder<> & B) {
        return B.CreateCall(fOvf, {c32(op), c32(widthOf(a->getType())), sa, bits(B, a), sb, bits(B, b)}); });
      sh[I] = Shadows{r0, r1};
    };
    auto minmax = [&](int cmp, bool swap) {
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = get1(a), *sb = get1(b);
      if (!scalarOk(a->getType())) return lostIf("wide-minmax");
      set1(I, guarded(next, {sa, sb}, [&](IRBuilder<> & B) {
        Value *x = swap ? b : a, *y = swap ? a : b, *sx = swap ? sb : sa, *sy = swap ? sa : sb;
        Value * sc = B.CreateCall(fBin, {c32(cmp), c32(widthOf(a->getType())), sx, bits(B, x), sy, bits(B, y)});
        Value * c = cmp == OP_SLT ? B.CreateICmpSLT(x, y) : B.CreateICmpULT(x, y);
        return B.CreateCall(fIte, {sc, B.CreateZExt(c, I32), sa, bits(B, a), sb, bits(B, b), c32(tcode(a->getType()))}); }));
    };
    auto fbin = [&](int op) {
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      if (!scalarOk(a->getType())) return lostIf("wide-fbin");
      set1(I, B2(next, op, a, get1(a), b, get1(b)));
    };
    switch (I->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        return memop(I, I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2), false);
      case Intrinsic::memset: case Intrinsic::memset_inline:
        return memop(I, I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2), true);
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy:
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::arithmetic_fence:
        sh[I] = get(I->getArgOperand(0)); return;
      case Intrinsic::sqrt: return un(I, I->getArgOperand(0), OP_FSQRT);
      case Intrinsic::fabs: return un(I, I->getArgOperand(0), OP_FABS);
      case Intrinsic::floor: return un(I, I->getArgOperand(0), OP_FFLOOR);
      case Intrinsic::ceil: return un(I, I->getArgOperand(0), OP_FCEIL);
      case Intrinsic::trunc: return un(I, I->getArgOperand(0), OP_FTRUNC);
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un(I, I->getArgOperand(0), OP_FRINT);
      case Intrinsic::round: return un(I, I->getArgOperand(0), OP_FROUND);
      case Intrinsic::sin: return un(I, I->getArgOperand(0), OP_SIN);
      case Intrinsic::cos: return un(I, I->getArgOperand(0), OP_COS);
      case Intrinsic::exp: return un(I, I->getArgOperand(0), OP_EXP);
      case Intrinsic::log: return un(I, I->getArgOperand(0), OP_LOG);
      case Intrinsic::pow: return fbin(OP_POW);
      case Intrinsic::minnum: case Intrinsic::minimum: return fbin(OP_FMIN);
      case Intrinsic::maxnum: case Intrinsic::maximum: return fbin(OP_FMAX);
      case Intrinsic::copysign: return fbin(OP_FCOPYSIGN);
      case Intrinsic::powi: {
        Value * a = I->getArgOperand(0);
        Value * sa = get1(a);
        Value * b = I->getArgOperand(1);
        concretise(I, b, get1(b));
        set1(I, guarded(next, {sa}, [&](IRBuilder<> & B) {
          return B.CreateCall(fFBin, {c32(OP_POW), c32(tyOf(a->getType())), sa, bits(B, a), Z(), bits(B, B.CreateSIToFP(b, a->getType()))}); }));
        return;
      }
      case Intrinsic::fmuladd: case Intrinsic::fma: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *c = I->getArgOperand(2);
        Value *sa = get1(a), *sb = get1(b), *sc = get1(c);
        if (!scalarOk(a->getType())) return lostIf("wide-fma");
        set1(I, guarded(next, {sa, sb, sc}, [&](IRBuilder<> & B) {
          Value * sm = B.CreateCall(fFBin, {c32(OP_FMUL), c32(tyOf(a->getType())), sa, bits(B, a), sb, bits(B, b)});
          Value * m = B.CreateFMul(a, b);
          return B.CreateCall(fFBin, {c32(OP_FADD), c32(tyOf(a->getType())), sm, bits(B, m), sc, bits(B, c)}); }));
        return;
      }
      case Intrinsic::uadd_with_overflow: return ovf(0);
      case Intrinsic::sadd_with_overflow: return ovf(1);
      case Intrinsic::usub_with_overflow: return ovf(2);
      case Intrinsic::ssub_with_overflow: return ovf(3);
      case Intrinsic::umul_with_overflow: return ovf(4);
      case Intrinsic::smul_with_overflow: return ovf(5);
      case Intrinsic::smin: return minmax(OP_SLT, false);
      case Intrinsic::smax: return minmax(OP_SLT, true);
      case Intrinsic::umin: return minmax(OP_ULT, false);
      case Intrinsic::umax: return minmax(OP_ULT, true);
      case Intrinsic::abs: {
        Value * a = I->getArgOperand(0);
        Value * sa = get1(a);
        if (!scalarOk(a->getType())) return lostIf("wide-abs");
        set1(I, guarded(next, {sa}, [&](IRBuilder<> & B) {
          unsigned w = widthOf(a->getType());
          Value * z = c64(0);
          Value * sn = B.CreateCall(fBin, {c32(OP_SUB), c32(w), Z(), z, sa, bits(B, a)});
          Value * neg = B.CreateNeg(a);
          Value * sc = B.CreateCall(fBin, {c32(OP_SLT), c32(w), sa, bits(B, a), Z(), z});
          Value * c = B.CreateICmpSLT(a, ConstantInt::get(a->getType(), 0));
          return B.CreateCall(fIte, {sc, B.CreateZExt(c, I32), sn, bits(B, neg), sa, bits(B, a), c32(tcode(a->getType()))}); }));
        return;
      }
      case Intrinsic::usub_sat: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = get1(a), *sb = get1(b);
        if (!scalarOk(a->getType())) return lostIf("wide-sat");
        set1(I, guarded(next, {sa, sb}, [&](IRBuilder<> & B) {
          unsigned w = widthOf(a->getType());
          Value * sd = B.CreateCall(fBin, {c32(OP_SUB), c32(w), sa, bits(B, a), sb, bits(B, b)});
          Value * d = B.CreateSub(a, b);
          Value * sc = B.CreateCall(fBin, {c32(OP_ULT), c32(w), sa, bits(B, a), sb, bits(B, b)});
          Value * c = B.CreateICmpULT(a, b);
          return B.CreateCall(fIte, {sc, B.CreateZExt(c, I32), Z(), c64(0), sd, bits(B, d), c32(tcode(a->getType()))}); }));
        return;
      }
      case Intrinsic::uadd_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: return lostIf("sat");
      case Intrinsic::fshl: case Intrinsic::fshr: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        auto * k = dyn_cast<ConstantInt>(I->getArgOperand(2));
        if (!k || !scalarOk(a->getType())) return lostIf("fsh");
        unsigned w = widthOf(a->getType());
        uint64_t sft = k->getZExtValue() % w;
        if (I->getIntrinsicID() == Intrinsic::fshr) sft = (w - sft) % w;
        Value *sa = get1(a), *sb = get1(b);
        if (sft == 0) { set1(I, I->getIntrinsicID() == Intrinsic::fshr ? sb : sa); return; }
        set1(I, guarded(next, {sa, sb}, [&](IRBuilder<> & B) {
          Value * s1 = B.CreateCall(fBin, {c32(OP_SHL), c32(w), sa, bits(B, a), Z(), c64(sft)});
          Value * v1 = B.CreateShl(a, sft);
          Value * s2 = B.CreateCall(fBin, {c32(OP_LSHR), c32(w), sb, bits(B, b), Z(), c64(w - sft)});
          Value * v2 = B.CreateLShr(b, w - sft);
          return B.CreateCall(fBin, {c32(OP_OR), c32(w), s1, bits(B, v1), s2, bits(B, v2)}); }));
        return;
      }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
        Value * a = I->getArgOperand(0);
        if (!scalarOk(a->getType())) return lostIf("wide-bits");
        int op = I->getIntrinsicID() == Intrinsic::ctpop ? OP_CTPOP : I->getIntrinsicID() == Intrinsic::ctlz ? OP_CTLZ
               : I->getIntrinsicID() == Intrinsic::cttz ? OP_CTTZ : OP_BSWAP;
        Value * sa = get1(a);
        set1(I, guarded(next, {sa}, [&](IRBuilder<> & B) {
          return B.CreateCall(fFUn, {c32(op), c32(tcode(a->getType())), sa, bits(B, a)}); }));
        return;
      }
      case Intrinsic::is_fpclass: {
        Value * a = I->getArgOperand(0);
        Value * sa = get1(a);
        if (isZ(sa)) return;
        if (!scalarOk(a->getType())) return lostIf("fpclass");
        unsigned mask = cast<ConstantInt>(I->getArgOperand(1))->getZExtValue();
        set1(I, guarded(next, {sa}, [&](IRBuilder<> & B) {
          return B.CreateCall(fFUn, {c32(1000 + mask), c32(tcode(a->getType())), sa, bits(B, a)}); }));
        return;
      }
      case Intrinsic::lround: case Intrinsic::llround: {
        Value * a = I->getArgOperand(0);
        Value * sa = get1(a);
        set1(I, guarded(next, {sa}, [&](IRBuilder<> & B) {
          Value * s = B.CreateCall(fFUn, {c32(OP_FROUND), c32(tcode(a->getType())), sa, bits(B, a)});
          Value * v = B.CreateUnaryIntrinsic(Intrinsic::round, a);
          return B.CreateCall(fCast, {c32(OP_FPTOSI), c32(tcode(a->getType())), c32(widthOf(I->getType())), s, bits(B, v)}); }));
        return;
      }
      case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: return lostIf("fptoint-sat");
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::assume: case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::trap: case Intrinsic::ubsantrap:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
      case Intrinsic::objectsize: case Intrinsic::is_constant: case Intrinsic::vastart: case Intrinsic::vaend:
      case Intrinsic::vacopy: case Intrinsic::dbg_label: case Intrinsic::returnaddress: case Intrinsic::threadlocal_address:
        return;
      default: lostIf(Intrinsic::getBaseName(I->getIntrinsicID()).data()); return;
    }
  }

  void runFunction(Function & f, std::vector<std::pair<Function *, GlobalVariable *>> & regs)
  {
    F = &f;
    sh.clear(); phis.clear(); invokeDest.clear();
    removeUnreachableBlocks(f);
    {
      SmallVector<InvokeInst *, 16> iv;
      for (auto & bb : f) if (auto * II = dyn_cast<InvokeInst>(bb.getTerminator())) iv.push_back(II);
      for (auto * II : iv) {
        BasicBlock * d = II->getNormalDest();
        BasicBlock * e = BasicBlock::Create(C, "sx.inv", &f, d);
        auto * br = BranchInst::Create(d, e);
        br->setDebugLoc(II->getDebugLoc());
        II->setNormalDest(e);
        d->replacePhiUsesWith(II->getParent(), e);
        invokeDest[II] = e;
      }
    }
    // static allocas first, so that splitting the entry block leaves them static
    Instruction * firstNonAlloca = nullptr;
    {
      SmallVector<AllocaInst *, 16> as;
      for (auto & i : f.getEntryBlock())
        if (auto * a = dyn_cast<AllocaInst>(&i)) if (a->isStaticAlloca()) as.push_back(a);
      Instruction * pos = &*f.getEntryBlock().getFirstInsertionPt();
      for (auto * a : as) {
        if (a == pos) { pos = pos->getNextNode(); continue; }
        a->moveBefore(pos);
      }
      firstNonAlloca = pos;
    }
    allocaPoint = firstNonAlloca;
    touched = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8, 0), "sx.touched");
    regs.push_back({&f, touched});
    {  // executed: bit 1; handled a symbolic value: bit 0
      IRBuilder<> EB(allocaPoint);
      EB.CreateStore(EB.CreateOr(EB.CreateLoad(I8, touched), ConstantInt::get(I8, 2)), touched);
    }

    // RPO order over the original blocks
    SmallVector<Instruction *, 256> order;
    {
      SmallVector<BasicBlock *, 32> rpo;
      DenseMap<BasicBlock *, bool> seen;
      std::function<void(BasicBlock *)> dfs;
      // iterative post-order
      SmallVector<std::pair<BasicBlock *, unsigned>, 32> st;
      st.push_back({&f.getEntryBlock(), 0});
      seen[&f.getEntryBlock()] = true;
      while (!st.empty()) {
        auto & [bb, i] = st.back();
        auto * t = bb->getTerminator();
        if (i < t->getNumSuccessors()) {
          auto * s = t->getSuccessor(i++);
          if (!seen[s]) { seen[s] = true; st.push_back({s, 0}); }
        } else { rpo.push_back(bb); st.pop_back(); }
      }
      for (auto it = rpo.rbegin(); it != rpo.rend(); ++it)
        for (auto & i : **it) order.push_back(&i);
    }
    // phi placeholders
    for (auto * i : order)
      if (auto * p = dyn_cast<PHINode>(i)) {
        unsigned n = nleaves(p->getType());
        Shadows s;
        SmallVector<PHINode *, 2> ps;
        for (unsigned k = 0; k < n; ++k) {
          auto * np = PHINode::Create(I32, p->getNumIncomingValues(), "", p);
          s.push_back(np);
          ps.push_back(np);
        }
        sh[p] = s;
        phis.push_back({p, ps});
      }
    // arguments
    {
      unsigned total = 0;
      bool byval = false;
      for (auto & a : f.args()) { total += nleaves(a.getType()); byval |= a.hasByValAttr(); }
      Instruction * ip = firstNonAlloca;
      if (total > 0 && total <= 64) {
        IRBuilder<> B(ip);
        Value * m = B.CreateICmpEQ(B.CreateLoad(P, GCallee), &f);
        unsigned k = 0;
        for (auto & a : f.args()) {
          unsigned n = nleaves(a.getType());
          Shadows s;
          for (unsigned j = 0; j < n; ++j, ++k) {
            if (a.use_empty()) { s.push_back(Z()); continue; }
            Value * v = B.CreateLoad(I32, B.CreateInBoundsGEP(GArgs->getValueType(), GArgs, {c64(0), c64(k)}));
            s.push_back(B.CreateSelect(m, v, Z()));
          }
          sh[&a] = s;
        }
        if (byval) {
          for (auto & a : f.args())
            if (a.hasByValAttr()) {
              Value * src = B.CreateLoad(P, B.CreateInBoundsGEP(GByval->getValueType(), GByval, {c64(0), c64(a.getArgNo())}));
              Value * any = B.CreateICmpNE(B.CreateLoad(I8, GAny), ConstantInt::get(I8, 0));
              Value * sel = B.CreateSelect(m, src, &a);
              Instruction * then = SplitBlockAndInsertIfThen(any, ip, false);
              IRBuilder<> TB(then);
              // src == dst: the runtime clears (no known caller)
              TB.CreateCall(fMemcpy, {&a, sel, c64(DL.getTypeAllocSize(a.getParamByValType()))});
              B.SetInsertPoint(ip);
            }
        }
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(P)), GCallee);
      }
    }
    for (auto * i : order) visit(i);
    for (auto & [p, ps] : phis) {
      for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
        auto s = get(p->getIncomingValue(i));
        for (unsigned k = 0; k < ps.size(); ++k) ps[k]->addIncoming(s[k], p->getIncomingBlock(i));
      }
    }
    // all-zero phi networks are cleaned by nothing; drop the trivially constant ones
    bool changed = true;
    while (changed) {
      changed = false;
      for (auto & [p, ps] : phis)
        for (auto *& np : ps) {
          if (!np) continue;
          bool allz = true;
          for (auto & v : np->incoming_values()) if (!(isZ(v) || v == np)) { allz = false; break; }
          if (allz) { np->replaceAllUsesWith(Z()); np->eraseFromParent(); np = nullptr; changed = true; }
        }
    }
  }

  void run()
  {
    std::vector<std::pair<Function *, GlobalVariable *>> regs;
    std::vector<Function *> fs;
    for (auto & f : M)
      if (!f.isDeclaration() && !f.getName().starts_with("_sx_") && !f.getName().starts_with("sx.") &&
          !f.hasAvailableExternallyLinkage() && !f.hasFnAttribute(Attribute::Naked))
        fs.push_back(&f);
    for (auto & f : M)
      if (f.hasAvailableExternallyLinkage() && !f.isDeclaration()) f.deleteBody();
    for (auto * f : fs) runFunction(*f, regs);
    // registration table: {name, flag}
    auto * st = StructType::get(C, {P, P});
    std::vector<Constant *> e;
    for (auto & [f, g] : regs) e.push_back(ConstantStruct::get(st, {str(f->getName()), g}));
    if (e.empty()) return;
    auto * at = ArrayType::get(st, e.size());
    auto * tab = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, e), "sx.table");
    auto * ft = FunctionType::get(V, false);
    auto * ctor = Function::Create(ft, GlobalValue::InternalLinkage, "sx.ctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "e", ctor));
    B.CreateCall(fReg, {tab, B.CreateIntToPtr(c64(e.size()), P), ConstantPointerNull::get(cast<PointerType>(P))});
    B.CreateRetVoid();
    appendToGlobalCtors(M, ctor, 1);
  }
};

// One branch per distinct successor (LowerSwitch builds a binary search that reaches the default on many paths,
// which multiplies the symbolic paths).
struct GroupSwitch : PassInfoMixin<GroupSwitch>
{
  PreservedAnalyses run(Function & F, FunctionAnalysisManager &)
  {
    SmallVector<SwitchInst *, 8> sw;
    for (auto & B : F)
      if (auto * s = dyn_cast<SwitchInst>(B.getTerminator())) sw.push_back(s);
    for (auto * s : sw) {
      BasicBlock * head = s->getParent();
      BasicBlock * def = s->getDefaultDest();
      bool unreachableDefault = isa<UnreachableInst>(def->getFirstNonPHIOrDbg());
      MapVector<BasicBlock *, std::vector<APInt>> groups;
      for (auto & c : s->cases())
        if (c.getCaseSuccessor() != def) groups[c.getCaseSuccessor()].push_back(c.getCaseValue()->getValue());
      if (unreachableDefault && !groups.empty()) {
        bool caseToDef = false;
        for (auto & c : s->cases()) caseToDef |= c.getCaseSuccessor() == def;
        if (!caseToDef) {
          // the last group becomes the default
          for (auto & phi : def->phis())
            while (phi.getBasicBlockIndex(head) >= 0) phi.removeIncomingValue(head, false);
          def = groups.back().first;
          groups.pop_back();
        }
      }
      auto fix = [&](BasicBlock * succ, BasicBlock * pred) {
        for (auto & phi : succ->phis()) {
          int i = phi.getBasicBlockIndex(head);
          Value * v = phi.getIncomingValue(i);
          while (phi.getBasicBlockIndex(head) >= 0) phi.removeIncomingValue(head, false);
          phi.addIncoming(v, pred);
        }
      };
      Value * v = s->getCondition();
      BasicBlock * cur = head;
      DebugLoc dl = s->getDebugLoc();
      SmallVector<std::pair<BasicBlock *, BasicBlock *>, 8> edges;
      s->eraseFromParent();
      for (auto & g : groups) {
        auto & vals = g.second;
        std::sort(vals.begin(), vals.end(), [](const APInt & a, const APInt & b) { return a.ult(b); });
        IRBuilder<> B(cur);
        B.SetCurrentDebugLocation(dl);
        Value * cond = nullptr;
        for (size_t i = 0; i < vals.size();) {
          size_t j = i;
          while (j + 1 < vals.size() && vals[j + 1] == vals[j] + 1) ++j;
          Value * one;
          if (i == j) one = B.CreateICmpEQ(v, B.getInt(vals[i]));
          else one = B.CreateICmpULE(B.CreateSub(v, B.getInt(vals[i])), B.getInt(vals[j] - vals[i]));
          cond = cond ? B.CreateOr(cond, one) : one;
          i = j + 1;
        }
        BasicBlock * next = BasicBlock::Create(F.getContext(), "sx.switch", &F);
        B.CreateCondBr(cond, g.first, next);
        edges.push_back({g.first, cur});
        cur = next;
      }
      IRBuilder<> B(cur);
      B.SetCurrentDebugLocation(dl);
      B.CreateBr(def);
      edges.push_back({def, cur});
      // an entry keyed by `head` may be legitimately needed for the first edge: fix the others first
      for (auto & e : llvm::reverse(edges)) fix(e.first, e.second);
    }
    return sw.empty() ? PreservedAnalyses::all() : PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

struct SxModulePass : PassInfoMixin<SxModulePass>
{
  PreservedAnalyses run(Module & M, ModuleAnalysisManager &)
  {
    Sx(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder & PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager & MPM, OptimizationLevel) {
              FunctionPassManager fpm;
              fpm.addPass(GroupSwitch());
              ScalarizerPassOptions o;
              o.ScalarizeLoadStore = true;
              o.ScalarizeVariableInsertExtract = true;
              fpm.addPass(ScalarizerPass(o));
              MPM.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
              MPM.addPass(SxModulePass());
            });
          }};
}
