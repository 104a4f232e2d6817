// LLVM pass plugin: rewrites every double-precision operation of a module into a
// call to the verification runtime (hpv_rt.cpp).  It is run at the very start of
// the pipeline, on the IR clang produced from the unmodified sources of /repo.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <string>
#include <vector>
using namespace llvm;

namespace {
const std::map<std::string, std::string> &libm() {
    static std::map<std::string, std::string> m;
    if (m.empty()) {
        for (const char *n :
             {"sqrt", "fabs", "sin",   "cos",   "tan",   "exp",   "log",
              "log2", "log10", "asin", "acos",  "atan",  "sinh",  "cosh",
              "tanh", "floor", "ceil", "round", "trunc", "cbrt",  "expm1",
              "log1p", "erf",  "exp2", "rint",  "nearbyint", "j0", "j1", "y0", "y1",
              "lgamma", "tgamma"})
            m[n] = std::string("__hpv_m_") + n;
        for (const char *n : {"pow", "atan2", "hypot", "fmod", "fmax", "fmin",
                              "copysign", "remainder", "fdim"})
            m[n] = std::string("__hpv_m_") + n;
        m["cabs"] = "__hpv_m_hypot";
        m["carg"] = "__hpv_m_carg";
    }
    return m;
}

struct HpvPass : PassInfoMixin<HpvPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        LLVMContext &C = M.getContext();
        Type *D = Type::getDoubleTy(C);
        Type *I1 = Type::getInt1Ty(C);
        Type *I32 = Type::getInt32Ty(C);
        Type *I64 = Type::getInt64Ty(C);
        Type *V = Type::getVoidTy(C);
        auto fn = [&](const std::string &n, Type *r, std::vector<Type *> a) {
            return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        };
        bool changed = false;
        for (Function &F : M) {
            if (F.isDeclaration()) continue;
            std::vector<Instruction *> work;
            for (Instruction &I : instructions(F)) work.push_back(&I);
            for (Instruction *I : work) {
                IRBuilder<> B(I);
                Value *R = nullptr;
                if (auto *BO = dyn_cast<BinaryOperator>(I)) {
                    const char *n = nullptr;
                    switch (BO->getOpcode()) {
                        case Instruction::FAdd: n = "__hpv_add"; break;
                        case Instruction::FSub: n = "__hpv_sub"; break;
                        case Instruction::FMul: n = "__hpv_mul"; break;
                        case Instruction::FDiv: n = "__hpv_div"; break;
                        case Instruction::FRem: n = "__hpv_m_fmod"; break;
                        default: break;
                    }
                    if (!n) continue;
                    if (BO->getType() == D) {
                        R = B.CreateCall(fn(n, D, {D, D}),
                                         {BO->getOperand(0), BO->getOperand(1)});
                    } else if (BO->getType()->isVectorTy() &&
                               BO->getType()->getScalarType() == D) {
                        errs() << "HPV: vector fp op in " << F.getName() << "\n";
                        B.CreateCall(fn("__hpv_unsupported", V, {}), {});
                        continue;
                    } else
                        continue;
                } else if (I->getOpcode() == Instruction::FNeg &&
                           I->getType() == D) {
                    R = B.CreateCall(fn("__hpv_neg", D, {D}), {I->getOperand(0)});
                } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
                    if (FC->getOperand(0)->getType() != D) continue;
                    Value *r = B.CreateCall(
                        fn("__hpv_fcmp", I32, {I32, D, D}),
                        {ConstantInt::get(I32, FC->getPredicate()),
                         FC->getOperand(0), FC->getOperand(1)});
                    R = B.CreateTrunc(r, I1);
                } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
                    if (I->getOperand(0)->getType() != D) continue;
                    bool s = isa<FPToSIInst>(I);
                    Value *r = B.CreateCall(
                        fn(s ? "__hpv_fptosi" : "__hpv_fptoui", I64, {D}),
                        {I->getOperand(0)});
                    R = B.CreateTruncOrBitCast(r, I->getType());
                } else if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
                    if (I->getOperand(0)->getType() != D) continue;
                    B.CreateCall(fn("__hpv_check", V, {D}), {I->getOperand(0)});
                    changed = true;
                    continue;
                } else if (isa<BitCastInst>(I) &&
                           I->getOperand(0)->getType() == D) {
                    B.CreateCall(fn("__hpv_check", V, {D}), {I->getOperand(0)});
                    changed = true;
                    continue;
                } else if (auto *CB = dyn_cast<CallBase>(I)) {
                    Function *Callee = CB->getCalledFunction();
                    if (!Callee) continue;
                    std::string name = Callee->getName().str();
                    std::string target;
                    if (Callee->isIntrinsic()) {
                        if (CB->getType() != D) {
                            switch (Callee->getIntrinsicID()) {
                                case Intrinsic::lround:
                                case Intrinsic::llround:
                                case Intrinsic::lrint:
                                case Intrinsic::llrint:
                                case Intrinsic::is_fpclass:
                                    if (CB->getArgOperand(0)->getType() == D) {
                                        B.CreateCall(
                                            fn("__hpv_check", V, {D}),
                                            {CB->getArgOperand(0)});
                                        changed = true;
                                    }
                                    break;
                                default: break;
                            }
                            continue;
                        }
                        switch (Callee->getIntrinsicID()) {
                            case Intrinsic::fabs: target = "__hpv_m_fabs"; break;
                            case Intrinsic::sqrt: target = "__hpv_m_sqrt"; break;
                            case Intrinsic::pow: target = "__hpv_m_pow"; break;
                            case Intrinsic::sin: target = "__hpv_m_sin"; break;
                            case Intrinsic::cos: target = "__hpv_m_cos"; break;
                            case Intrinsic::exp: target = "__hpv_m_exp"; break;
                            case Intrinsic::exp2: target = "__hpv_m_exp2"; break;
                            case Intrinsic::log: target = "__hpv_m_log"; break;
                            case Intrinsic::log10: target = "__hpv_m_log10"; break;
                            case Intrinsic::log2: target = "__hpv_m_log2"; break;
                            case Intrinsic::floor: target = "__hpv_m_floor"; break;
                            case Intrinsic::ceil: target = "__hpv_m_ceil"; break;
                            case Intrinsic::trunc: target = "__hpv_m_trunc"; break;
                            case Intrinsic::round: target = "__hpv_m_round"; break;
                            case Intrinsic::rint: target = "__hpv_m_rint"; break;
                            case Intrinsic::nearbyint: target = "__hpv_m_nearbyint"; break;
                            case Intrinsic::maxnum: target = "__hpv_m_fmax"; break;
                            case Intrinsic::minnum: target = "__hpv_m_fmin"; break;
                            case Intrinsic::copysign: target = "__hpv_m_copysign"; break;
                            case Intrinsic::powi: target = "__hpv_powi"; break;
                            case Intrinsic::fmuladd:
                            case Intrinsic::fma: target = "__hpv_fma"; break;
                            default:
                                errs() << "HPV: unsupported intrinsic " << name << "\n";
                                continue;
                        }
                    } else if (Callee->isDeclaration()) {
                        if (name == "fma") target = "__hpv_fma";
                        else if (name == "__divdc3" || name == "__muldc3" || name == "cexp") {
                            FunctionCallee nf = M.getOrInsertFunction(
                                name == "__divdc3"   ? "__hpv_divdc3"
                                : name == "__muldc3" ? "__hpv_muldc3"
                                                     : "__hpv_cexp",
                                Callee->getFunctionType());
                            CB->setCalledFunction(nf);
                            changed = true;
                            continue;
                        } else {
                            auto it = libm().find(name);
                            if (it != libm().end() && CB->getType() == D)
                                target = it->second;
                        }
                    }
                    if (target.empty()) continue;
                    FunctionCallee nf =
                        M.getOrInsertFunction(target, CB->getFunctionType());
                    std::vector<Value *> args(CB->arg_begin(), CB->arg_end());
                    if (auto *II = dyn_cast<InvokeInst>(CB)) {
                        CB->setCalledFunction(nf);
                        changed = true;
                        continue;
                    }
                    R = B.CreateCall(nf, args);
                }
                if (R) {
                    I->replaceAllUsesWith(R);
                    I->eraseFromParent();
                    changed = true;
                }
            }
        }
        return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
    }
    static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "HpvPass", "1", [](PassBuilder &PB) {
                PB.registerPipelineStartEPCallback(
                    [](ModulePassManager &MPM, OptimizationLevel) {
                        MPM.addPass(HpvPass());
                    });
            }};
}
