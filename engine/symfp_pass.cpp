// LLVM pass plugin: rebinds every double-precision operation of a module to the symbolic runtime.
// Values stay in ordinary `double` storage: a symbolic value is a NaN-boxed handle, so loads, stores,
// phis, selects, memcpy, containers and calls need no instrumentation.  Run on *unoptimised* IR, so the
// operations and their order are those of the source.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
struct SymFP : PassInfoMixin<SymFP> {
  static bool isRequired() { return true; }

  const std::map<std::string, std::string> lib1 = {
      {"sqrt", "sqrt"}, {"fabs", "fabs"}, {"sin", "sin"}, {"cos", "cos"}, {"tan", "tan"},
      {"acos", "acos"}, {"asin", "asin"}, {"atan", "atan"}, {"floor", "floor"}, {"ceil", "ceil"},
      {"round", "round"}, {"trunc", "trunc"}, {"exp", "exp"}, {"log", "log"}, {"rint", "round"},
      {"nearbyint", "round"}, {"log2","log2"}, {"log10","log10"}, {"cbrt","cbrt"}};
  const std::map<std::string, std::string> lib2 = {
      {"pow", "pow"}, {"atan2", "atan2"}, {"fmod", "fmod"}, {"hypot", "hypot"},
      {"fmax", "fmax"}, {"fmin", "fmin"}, {"copysign", "copysign"}, {"remainder","remainder"}};

  Value *scalar1(IRBuilder<> &B, Module &M, StringRef n, Value *a) {
    Type *D = Type::getDoubleTy(M.getContext());
    return B.CreateCall(M.getOrInsertFunction(("__sym_" + n).str(), D, D), {a});
  }
  Value *scalar2(IRBuilder<> &B, Module &M, StringRef n, Value *a, Value *b) {
    Type *D = Type::getDoubleTy(M.getContext());
    return B.CreateCall(M.getOrInsertFunction(("__sym_" + n).str(), D, D, D), {a, b});
  }
  bool isF(Type *T) { return T->isDoubleTy() || T->isFloatTy() || T->isX86_FP80Ty(); }
  Value *toD(IRBuilder<> &B, Value *v) {
    Type *D = Type::getDoubleTy(B.getContext());
    if (v->getType()->isDoubleTy()) return v;
    return B.CreateFPCast(v, D);
  }

  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *I1 = Type::getInt1Ty(C);
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      if (F.getName().starts_with("__sym_")) continue;
      if (F.getName().contains("5LNLib") || F.getName().starts_with("LNLIB_")) {
        std::string dn = demangle(F.getName().str()); size_t par = dn.find('('); if (par != std::string::npos && dn.find("operator()") == std::string::npos) dn = dn.substr(0, par);
        if (dn.find("std::") == std::string::npos && dn.find("Eigen::") == std::string::npos) {
          IRBuilder<> EB(&*F.getEntryBlock().getFirstInsertionPt());
          auto *flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::InternalLinkage, ConstantInt::get(Type::getInt8Ty(C), 0), "__symfn_flag");
          auto *name = EB.CreateGlobalStringPtr(dn, "__symfn_name");
          EB.CreateCall(M.getOrInsertFunction("__sym_fn", Type::getVoidTy(C), PointerType::get(C, 0), PointerType::get(C, 0)), {name, flag});
        }
      }
      std::vector<Instruction *> work;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      for (Instruction *I : work) {
        IRBuilder<> B(I);
        Value *R = nullptr;
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
          Type *T = BO->getType();
          if (T->isVectorTy() && cast<VectorType>(T)->getElementType()->isDoubleTy()) {
            unsigned n = cast<FixedVectorType>(T)->getNumElements();
            const char *nm = opname(BO->getOpcode());
            if (!nm) continue;
            R = PoisonValue::get(T);
            for (unsigned k = 0; k < n; k++)
              R = B.CreateInsertElement(R, scalar2(B, M, nm, B.CreateExtractElement(BO->getOperand(0), k),
                                                   B.CreateExtractElement(BO->getOperand(1), k)), k);
          } else if (T->isDoubleTy()) {
            const char *nm = opname(BO->getOpcode());
            if (!nm) continue;
            R = scalar2(B, M, nm, BO->getOperand(0), BO->getOperand(1));
          } else if (T->isFloatingPointTy()) {
            warn(F, "non-double FP arithmetic", *I);
            continue;
          } else continue;
        } else if (auto *UO = dyn_cast<UnaryOperator>(I)) {
          if (UO->getOpcode() == Instruction::FNeg && UO->getType()->isDoubleTy())
            R = scalar1(B, M, "neg", UO->getOperand(0));
          else { if (UO->getOpcode()==Instruction::FNeg) warn(F, "fneg type", *I); continue; }
        } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
          Type *T = FC->getOperand(0)->getType();
          if (!T->isDoubleTy()) { warn(F, "fcmp type", *I); continue; }
          auto f = M.getOrInsertFunction("__sym_fcmp", I32, I32, D, D);
          Value *c = B.CreateCall(f, {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
          R = B.CreateICmpNE(c, ConstantInt::get(I32, 0));
        } else if (auto *CI = dyn_cast<CastInst>(I)) {
          unsigned op = CI->getOpcode();
          if (op == Instruction::FPToSI || op == Instruction::FPToUI) {
            if (!CI->getSrcTy()->isDoubleTy()) { warn(F, "fptosi type", *I); continue; }
            auto f = M.getOrInsertFunction("__sym_toint", I64, D);
            Value *v = B.CreateCall(f, {CI->getOperand(0)});
            R = B.CreateIntCast(v, CI->getDestTy(), true);
          } else if (op == Instruction::FPTrunc || op == Instruction::FPExt) {
            // float / long double are concrete-only: force a plain value first
            if (op == Instruction::FPTrunc && CI->getSrcTy()->isDoubleTy()) {
              auto f = M.getOrInsertFunction("__sym_concretize", D, D);
              I->setOperand(0, B.CreateCall(f, {CI->getOperand(0)}));
            } else if (op == Instruction::FPExt && CI->getSrcTy()->isDoubleTy()) {
              auto f = M.getOrInsertFunction("__sym_concretize", D, D);
              I->setOperand(0, B.CreateCall(f, {CI->getOperand(0)}));
            }
            continue;
          } else if (op == Instruction::BitCast && CI->getSrcTy()->isDoubleTy() && CI->getDestTy()->isIntegerTy()) {
            warn(F, "bitcast double->int", *I);
            continue;
          } else continue;
        } else if (auto *CB = dyn_cast<CallBase>(I)) {
          Function *Cal = CB->getCalledFunction();
          if (!Cal) continue;
          std::string n = Cal->getName().str();
          if (auto *II = dyn_cast<IntrinsicInst>(I)) {
            switch (II->getIntrinsicID()) {
            case Intrinsic::fabs: n = "fabs"; break;
            case Intrinsic::sqrt: n = "sqrt"; break;
            case Intrinsic::sin: n = "sin"; break;
            case Intrinsic::cos: n = "cos"; break;
            case Intrinsic::floor: n = "floor"; break;
            case Intrinsic::ceil: n = "ceil"; break;
            case Intrinsic::trunc: n = "trunc"; break;
            case Intrinsic::round: n = "round"; break;
            case Intrinsic::rint: case Intrinsic::nearbyint: n = "round"; break;
            case Intrinsic::exp: n = "exp"; break;
            case Intrinsic::log: n = "log"; break;
            case Intrinsic::pow: n = "pow"; break;
            case Intrinsic::maxnum: n = "fmax"; break;
            case Intrinsic::minnum: n = "fmin"; break;
            case Intrinsic::copysign: n = "copysign"; break;
            case Intrinsic::powi: {
              if (!II->getType()->isDoubleTy()) continue;
              Value *e = B.CreateSIToFP(II->getArgOperand(1), D);
              R = scalar2(B, M, "pow", II->getArgOperand(0), e);
              break;
            }
            case Intrinsic::fmuladd: case Intrinsic::fma:
              if (!II->getType()->isDoubleTy()) { warn(F, "fma type", *I); continue; }
              R = scalar2(B, M, "add", scalar2(B, M, "mul", II->getArgOperand(0), II->getArgOperand(1)), II->getArgOperand(2));
              break;
            case Intrinsic::is_fpclass: {
              if (!II->getArgOperand(0)->getType()->isDoubleTy()) { warn(F, "fpclass type", *I); continue; }
              auto f = M.getOrInsertFunction("__sym_fpclass", I32, D, I32);
              Value *c = B.CreateCall(f, {II->getArgOperand(0), II->getArgOperand(1)});
              R = B.CreateICmpNE(c, ConstantInt::get(I32, 0));
              break;
            }
            default: continue;
            }
          }
          if (!R) {
            if (n == "fma" && CB->arg_size() == 3 && CB->getType()->isDoubleTy())
              R = scalar2(B, M, "add", scalar2(B, M, "mul", CB->getArgOperand(0), CB->getArgOperand(1)), CB->getArgOperand(2));
            else if (lib1.count(n)) {
              if (CB->arg_size() != 1 || !CB->getType()->isDoubleTy()) { warn(F, "libm type", *I); continue; }
              R = scalar1(B, M, lib1.at(n), CB->getArgOperand(0));
            } else if (lib2.count(n)) {
              if (CB->arg_size() != 2 || !CB->getType()->isDoubleTy()) { warn(F, "libm type", *I); continue; }
              R = scalar2(B, M, lib2.at(n), CB->getArgOperand(0), CB->getArgOperand(1));
            } else if (n == "sincos" || n == "modf" || n == "frexp" || n == "ldexp") { warn(F, "unmodelled libm call", *I); continue; }
            else continue;
          }
          if (auto *Inv = dyn_cast<InvokeInst>(I)) B.CreateBr(Inv->getNormalDest());
        } else continue;
        if (!I->getType()->isVoidTy()) { I->replaceAllUsesWith(R); }
        if (auto *Inv = dyn_cast<InvokeInst>(I)) Inv->getUnwindDest()->removePredecessor(Inv->getParent());
        I->eraseFromParent();
      }
      (void)I1;
    }
    return PreservedAnalyses::none();
  }
  const char *opname(unsigned op) {
    switch (op) {
    case Instruction::FAdd: return "add";
    case Instruction::FSub: return "sub";
    case Instruction::FMul: return "mul";
    case Instruction::FDiv: return "div";
    case Instruction::FRem: return "fmod";
    default: return nullptr;
    }
  }
  void warn(Function &F, const char *m, Instruction &I) {
    if (getenv("SYMFP_WARN")) errs() << "symfp: " << m << " in " << F.getName() << ": " << I << "\n";
  }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "symfp") { MPM.addPass(SymFP()); return true; }
              return false;
            });
          }};
}
