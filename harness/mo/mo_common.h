// Front end, dialects and passes of /repo, ready to use.
#pragma once
#include "marco/Codegen/Conversion/BaseModelicaToCF/BaseModelicaToCF.h"
#include "marco/Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.h"
#include "marco/Codegen/Lowering/BaseModelica/Bridge.h"
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "marco/Dialect/BaseModelica/Transforms/AllInterfaces.h"
#include "marco/Dialect/BaseModelica/Transforms/Passes.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticIDs.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/SourceManager.h"
#include "mlir/Dialect/Bufferization/IR/Bufferization.h"
#include "mlir/Dialect/ControlFlow/IR/ControlFlow.h"
#include "mlir/Dialect/DLTI/DLTI.h"
#include "mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Func/Extensions/AllExtensions.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Pass/PassRegistry.h"
#include "mlir/Transforms/Passes.h"

namespace mlir::bmodelica {
// Not part of what is checked (it is written for another LLVM).
inline void noBufferization() {}
} // namespace mlir::bmodelica

namespace mo {
inline void registerPasses() {
  using namespace mlir::bmodelica;
  mlir::registerCanonicalizerPass();
  mlir::registerCSEPass();
  mlir::registerPass([] { return mlir::createBaseModelicaToRuntimeConversionPass(); });
  mlir::registerPass([] { return mlir::createBaseModelicaToCFConversionPass(); });
  registerAccessReplacementTestPass();
  registerAutomaticDifferentiationPass();
  registerBindingEquationConversionPass();
  registerCallCSEPass();
  registerDerivativeChainRulePass();
  registerDerivativesInitializationPass();
  registerDerivativesMaterializationPass();
  registerDivOpDistributionPass();
  registerEquationAccessSplitPass();
  registerEquationExplicitationPass();
  registerEquationExplicitationTestPass();
  registerEquationInductionsExplicitationPass();
  registerEquationSidesSplitPass();
  registerEquationTemplatesCreationPass();
  registerEulerForwardPass();
  registerExplicitCastInsertionPass();
  registerExplicitInitialEquationsInsertionPass();
  registerExplicitStartValueInsertionPass();
  registerFunctionDefaultValuesConversionPass();
  registerFunctionManglingPass();
  registerFunctionScalarizationPass();
  registerFunctionUnwrapPass();
  registerInitialConditionsSolvingPass();
  registerMatchingPass();
  registerModelAlgorithmConversionPass();
  registerMulOpDistributionPass();
  registerNegateOpDistributionPass();
  registerPantelidesPass();
  registerPureFunctionInliningPass();
  registerRangeBoundariesInferencePass();
  registerReadOnlyVariablesPropagationPass();
  registerRecordInliningPass();
  registerRungeKuttaPass();
  registerSCCAbsenceVerificationPass();
  registerSCCDetectionPass();
  registerSCCSolvingBySubstitutionPass();
  registerScalarRangesEquationSplitPass();
  registerScheduleParallelizationPass();
  registerSchedulersInstantiationPass();
  registerSchedulingPass();
  registerSingleValuedInductionEliminationPass();
  registerVariablesPromotionPass();
  registerVariablesPruningPass();
  registerViewAccessFoldingPass();
}

inline void registerDialects(mlir::DialectRegistry &r) {
  r.insert<mlir::bmodelica::BaseModelicaDialect, mlir::modeling::ModelingDialect, mlir::runtime::RuntimeDialect,
           mlir::DLTIDialect, mlir::cf::ControlFlowDialect, mlir::LLVM::LLVMDialect, mlir::arith::ArithDialect, mlir::tensor::TensorDialect,
           mlir::func::FuncDialect, mlir::linalg::LinalgDialect, mlir::bufferization::BufferizationDialect,
           mlir::memref::MemRefDialect, mlir::scf::SCFDialect>();
  mlir::func::registerAllExtensions(r);
  mlir::bmodelica::registerAllDialectInterfaceImplementations(r);
}
} // namespace mo
