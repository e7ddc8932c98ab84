// Playground: mo_cli FILE(.mo|.mlir) [pipeline]
#include "mo_common.h"
using namespace marco;
using namespace marco::ast::bmodelica;
int main(int argc, char **argv) {
  mo::registerPasses();
  mlir::DialectRegistry reg;
  mo::registerDialects(reg);
  mlir::MLIRContext ctx(reg, mlir::MLIRContext::Threading::DISABLED);
  ctx.loadAllAvailableDialects();
  std::string name = argv[1];
  auto buf = std::move(*llvm::MemoryBuffer::getFile(name));
  std::unique_ptr<mlir::ModuleOp> module;
  if (llvm::StringRef(name).ends_with(".mlir")) {
    auto m = mlir::parseSourceString<mlir::ModuleOp>(buf->getBuffer(), &ctx);
    if (!m) return 3;
    module = std::make_unique<mlir::ModuleOp>(m.release());
  } else {
    auto file = std::make_shared<SourceFile>("test.mo");
    file->setMemoryBuffer(buf.get());
    llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs> diagIDs(new clang::DiagnosticIDs());
    llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions> opts(new clang::DiagnosticOptions());
    clang::IgnoringDiagConsumer cons;
    clang::DiagnosticsEngine diags(diagIDs, &*opts, &cons, false);
    clang::SourceManagerForFile sm("test.mo", buf->getBuffer());
    parser::bmodelica::Parser parser(diags, sm.get(), file);
    auto root = parser.parseRoot();
    if (!root || !*root) { llvm::errs() << "parse error\n"; return 3; }
    codegen::lowering::bmodelica::Bridge bridge(ctx);
    if (!bridge.lower(*(*root)->cast<Root>())) { llvm::errs() << "lowering failed\n"; return 4; }
    module = std::move(bridge.getMLIRModule());
  }
  if (mlir::failed(mlir::verify(*module))) { llvm::errs() << "verify failed\n"; }
  if (argc > 2) {
    mlir::PassManager pm(&ctx);
    pm.enableVerifier(false);
    if (mlir::failed(mlir::parsePassPipeline(argv[2], pm))) return 5;
    bool ok = mlir::succeeded(pm.run(*module));
    if (!ok) llvm::errs() << "pipeline failed\n";
  }
  module->print(llvm::outs());
}
