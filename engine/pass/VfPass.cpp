// LLVM 18 pass plugin: replaces floating-point (double) operations by calls into the vfsym runtime.
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <string>
#include <vector>
using namespace llvm;
namespace {
struct VfPass : PassInfoMixin<VfPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C), *I1 = Type::getInt1Ty(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C);
    Type *V = Type::getVoidTy(C), *I8 = Type::getInt8Ty(C);
    Type *P = PointerType::getUnqual(C);
    auto fn2 = [&](const char *n) { return M.getOrInsertFunction(n, D, D, D); };
    auto fn1 = [&](const char *n) { return M.getOrInsertFunction(n, D, D); };
    std::map<std::string, std::pair<const char *, int>> lib = {
        {"fabs", {"vf_fabs", 1}}, {"sqrt", {"vf_sqrt", 1}}, {"fmax", {"vf_fmax", 2}}, {"fmin", {"vf_fmin", 2}},
        {"pow", {"vf_pow", 2}},   {"log", {"vf_log", 1}}, {"logl", {"vf_log", 1}},   {"log10", {"vf_log10", 1}}, {"exp", {"vf_exp", 1}},
        {"floor", {"vf_floor", 1}}, {"ceil", {"vf_ceil", 1}}, {"sin", {"vf_sin", 1}}, {"cos", {"vf_cos", 1}},
        {"trunc", {"vf_trunc", 1}}, {"round", {"vf_round", 1}}, {"rint", {"vf_round", 1}}, {"hypot", {"vf_hypot", 2}},
        {"copysign", {"vf_copysign", 2}}, {"log1p", {"vf_log1p", 1}}, {"fmod", {"vf_frem", 2}}};
    bool bad = false;
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      if (F.getName().starts_with("vf_")) continue;
      std::vector<Instruction *> work;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      std::vector<Instruction *> dead;
      auto isVecD = [&](Type *t) { return t->isVectorTy() && t->getScalarType()->isDoubleTy(); };
      auto isD = [&](Type *t) { return t->isDoubleTy(); };
      auto vecerr = [&](Instruction *I) {
        errs() << "VFPASS: unsupported vector FP op in " << F.getName() << ": " << *I << "\n";
        bad = true;
      };
      for (Instruction *I : work) {
        IRBuilder<> B(I);
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
          const char *n = nullptr;
          switch (BO->getOpcode()) {
          case Instruction::FAdd: n = "vf_fadd"; break;
          case Instruction::FSub: n = "vf_fsub"; break;
          case Instruction::FMul: n = "vf_fmul"; break;
          case Instruction::FDiv: n = "vf_fdiv"; break;
          case Instruction::FRem: n = "vf_frem"; break;
          default: break;
          }
          if (!n) continue;
          if (isVecD(BO->getType())) {
            auto *VT = dyn_cast<FixedVectorType>(BO->getType());
            if (!VT) { vecerr(I); continue; }
            Value *R = PoisonValue::get(VT);
            for (unsigned k = 0; k < VT->getNumElements(); k++) {
              Value *a = B.CreateExtractElement(BO->getOperand(0), k), *b = B.CreateExtractElement(BO->getOperand(1), k);
              R = B.CreateInsertElement(R, B.CreateCall(fn2(n), {a, b}), k);
            }
            I->replaceAllUsesWith(R);
            dead.push_back(I);
            continue;
          }
          if (!isD(BO->getType())) continue;
          Value *r = B.CreateCall(fn2(n), {BO->getOperand(0), BO->getOperand(1)});
          I->replaceAllUsesWith(r);
          dead.push_back(I);
        } else if (auto *UO = dyn_cast<UnaryOperator>(I)) {
          if (UO->getOpcode() != Instruction::FNeg) continue;
          if (isVecD(UO->getType())) {
            auto *VT = dyn_cast<FixedVectorType>(UO->getType());
            if (!VT) { vecerr(I); continue; }
            Value *R = PoisonValue::get(VT);
            for (unsigned k = 0; k < VT->getNumElements(); k++)
              R = B.CreateInsertElement(R, B.CreateCall(fn1("vf_fneg"), {B.CreateExtractElement(UO->getOperand(0), k)}), k);
            I->replaceAllUsesWith(R);
            dead.push_back(I);
            continue;
          }
          if (!isD(UO->getType())) continue;
          Value *r = B.CreateCall(fn1("vf_fneg"), {UO->getOperand(0)});
          I->replaceAllUsesWith(r);
          dead.push_back(I);
        } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
          if (isVecD(FC->getOperand(0)->getType())) {
            auto *VT = dyn_cast<FixedVectorType>(FC->getOperand(0)->getType());
            if (!VT) { vecerr(I); continue; }
            Value *R = PoisonValue::get(FC->getType());
            FunctionCallee f = M.getOrInsertFunction("vf_fcmp", I1, I32, D, D);
            for (unsigned k = 0; k < VT->getNumElements(); k++) {
              Value *a = B.CreateExtractElement(FC->getOperand(0), k), *b = B.CreateExtractElement(FC->getOperand(1), k);
              R = B.CreateInsertElement(R, B.CreateCall(f, {B.getInt32(FC->getPredicate()), a, b}), k);
            }
            I->replaceAllUsesWith(R);
            dead.push_back(I);
            continue;
          }
          if (!isD(FC->getOperand(0)->getType())) continue;
          Value *pred = B.getInt32(FC->getPredicate());
          // fcmp whose single use is a select of doubles: no branch needed
          SelectInst *S = nullptr;
          if (FC->hasOneUse()) S = dyn_cast<SelectInst>(FC->user_back());
          if (S && S->getCondition() == FC && isD(S->getType())) {
            IRBuilder<> B2(S);
            FunctionCallee f = M.getOrInsertFunction("vf_fcmp_select", D, I32, D, D, D, D);
            Value *r = B2.CreateCall(f, {pred, FC->getOperand(0), FC->getOperand(1), S->getTrueValue(), S->getFalseValue()});
            S->replaceAllUsesWith(r);
            dead.push_back(S);
            dead.push_back(FC);
            continue;
          }
          FunctionCallee f = M.getOrInsertFunction("vf_fcmp", I1, I32, D, D);
          Value *r = B.CreateCall(f, {pred, FC->getOperand(0), FC->getOperand(1)});
          I->replaceAllUsesWith(r);
          dead.push_back(I);
        } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
          if (!isD(I->getOperand(0)->getType())) { if (isVecD(I->getOperand(0)->getType())) vecerr(I); continue; }
          Value *r = B.CreateCall(M.getOrInsertFunction("vf_fptosi", I64, D), {I->getOperand(0)});
          r = B.CreateTruncOrBitCast(r, I->getType());
          I->replaceAllUsesWith(r);
          dead.push_back(I);
        } else if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
          if (isD(I->getOperand(0)->getType())) B.CreateCall(M.getOrInsertFunction("vf_escape", V, D), {I->getOperand(0)});
        } else if (auto *CI = dyn_cast<CallBase>(I)) {
          Function *cf = CI->getCalledFunction();
          if (!cf) continue;
          std::string n = cf->getName().str();
          auto rep = [&](const char *tgt, int na) {
            if (isVecD(CI->getType())) { vecerr(I); return; }
            if (!isD(CI->getType())) return;
            std::vector<Value *> args;
            for (int k = 0; k < na; k++) args.push_back(CI->getArgOperand(k));
            Value *r = B.CreateCall(na == 1 ? fn1(tgt) : fn2(tgt), args);
            CI->replaceAllUsesWith(r);
            if (auto *II = dyn_cast<InvokeInst>(CI)) { BranchInst::Create(II->getNormalDest(), II); II->getUnwindDest()->removePredecessor(II->getParent()); }
            dead.push_back(CI);
          };
          if (auto *II = dyn_cast<IntrinsicInst>(CI)) {
            switch (II->getIntrinsicID()) {
            case Intrinsic::fabs: rep("vf_fabs", 1); break;
            case Intrinsic::sqrt: rep("vf_sqrt", 1); break;
            case Intrinsic::maxnum: rep("vf_fmax", 2); break;
            case Intrinsic::minnum: rep("vf_fmin", 2); break;
            case Intrinsic::maximum: rep("vf_fmax", 2); break;
            case Intrinsic::minimum: rep("vf_fmin", 2); break;
            case Intrinsic::pow: rep("vf_pow", 2); break;
            case Intrinsic::log: rep("vf_log", 1); break;
            case Intrinsic::log10: rep("vf_log10", 1); break;
            case Intrinsic::exp: rep("vf_exp", 1); break;
            case Intrinsic::floor: rep("vf_floor", 1); break;
            case Intrinsic::ceil: rep("vf_ceil", 1); break;
            case Intrinsic::trunc: rep("vf_trunc", 1); break;
            case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: rep("vf_round", 1); break;
            case Intrinsic::sin: rep("vf_sin", 1); break;
            case Intrinsic::cos: rep("vf_cos", 1); break;
            case Intrinsic::copysign: rep("vf_copysign", 2); break;
            case Intrinsic::powi: {
              if (!isD(CI->getType())) { vecerr(I); break; }
              Value *e = B.CreateSIToFP(CI->getArgOperand(1), D);
              Value *r = B.CreateCall(fn2("vf_pow"), {CI->getArgOperand(0), e});
              CI->replaceAllUsesWith(r); dead.push_back(CI); break;
            }
            case Intrinsic::fma: case Intrinsic::fmuladd: {
              if (!isD(CI->getType())) { vecerr(I); break; }
              Value *m = B.CreateCall(fn2("vf_fmul"), {CI->getArgOperand(0), CI->getArgOperand(1)});
              Value *r = B.CreateCall(fn2("vf_fadd"), {m, CI->getArgOperand(2)});
              CI->replaceAllUsesWith(r); dead.push_back(CI); break;
            }
            case Intrinsic::is_fpclass: {
              if (!isD(CI->getArgOperand(0)->getType())) break;
              FunctionCallee f = M.getOrInsertFunction("vf_fpclass", I1, D, I32);
              Value *r = B.CreateCall(f, {CI->getArgOperand(0), CI->getArgOperand(1)});
              CI->replaceAllUsesWith(r); dead.push_back(CI); break;
            }
            default: break;
            }
          } else {
            auto it = lib.find(n);
            if (it != lib.end()) rep(it->second.first, it->second.second);
          }
        } else if (auto *S = dyn_cast<SelectInst>(I)) {
          (void)S;
        }
      }
      for (Instruction *I : dead) { I->dropAllReferences(); }
      for (Instruction *I : dead) { if (!I->use_empty()) I->replaceAllUsesWith(PoisonValue::get(I->getType())); I->eraseFromParent(); }
      // coverage of functions executed symbolically
      StringRef nm = F.getName();
      if (nm.contains("hiop") || nm.starts_with("vfcov_")) {
        IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
        GlobalVariable *flag = new GlobalVariable(M, I8, false, GlobalValue::InternalLinkage, ConstantInt::get(I8, 0), "vf_cov_flag");
        Constant *name = B.CreateGlobalStringPtr(nm, "vf_cov_name");
        B.CreateCall(M.getOrInsertFunction("vf_cov", V, P, P), {flag, name});
      }
    }
    if (bad) report_fatal_error("VFPASS: unsupported constructs", false);
    return PreservedAnalyses::none();
  }
};
} // namespace
extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "VfPass", "v1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(VfPass()); });
          }};
}
