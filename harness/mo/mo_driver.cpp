// Compiles Modelica models with /repo's front end, lowering and passes, and dumps the IR.
#include "serial.h"
#include "drv.h"
using namespace marco;
using namespace marco::ast::bmodelica;
using namespace drv;

namespace {
struct Collect : public clang::DiagnosticConsumer {
  int errors = 0;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level l, const clang::Diagnostic &d) override {
    if (l >= clang::DiagnosticsEngine::Error)
      ++errors;
  }
};
std::unique_ptr<mlir::MLIRContext> ctx;

std::unique_ptr<mlir::ModuleOp> lower(llvm::StringRef text, std::string &stage, int &errors) {
  auto file = std::make_shared<SourceFile>("test.mo");
  auto buf = llvm::MemoryBuffer::getMemBufferCopy(text, "test.mo");
  file->setMemoryBuffer(buf.get());
  llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs> diagIDs(new clang::DiagnosticIDs());
  llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions> opts(new clang::DiagnosticOptions());
  Collect cons;
  clang::DiagnosticsEngine diags(diagIDs, &*opts, &cons, false);
  clang::SourceManagerForFile sm("test.mo", buf->getBuffer());
  parser::bmodelica::Parser parser(diags, sm.get(), file);
  auto root = parser.parseRoot();
  errors += cons.errors;
  stage = "parse";
  if (!root || !*root)
    return nullptr;
  stage = "lower";
  codegen::lowering::bmodelica::Bridge bridge(*ctx);
  if (!bridge.lower(*(*root)->cast<ast::bmodelica::Root>()))
    return nullptr;
  stage = "verify";
  auto m = std::move(bridge.getMLIRModule());
  if (mlir::failed(mlir::verify(*m)))
    return nullptr;
  return m;
}

void handle(const json::Object &in, json::Object &out) {
  std::string op = str(in, "op");
  if (op == "reset")
    return;
  if (!ctx) {
    mlir::DialectRegistry reg;
    mo::registerDialects(reg);
    reg.insert<mlir::affine::AffineDialect>();
    ctx = std::make_unique<mlir::MLIRContext>(reg, mlir::MLIRContext::Threading::DISABLED);
    ctx->loadAllAvailableDialects();
  }
  int errors = 0;
  std::string first;
  auto hid = ctx->getDiagEngine().registerHandler([&](mlir::Diagnostic &d) {
    if (getenv("SERIAL_SHOW"))
      llvm::errs() << d.getLocation() << " " << d.str() << "\n";
    if (d.getSeverity() == mlir::DiagnosticSeverity::Error) {
      ++errors;
      if (first.empty())
        first = d.str();
    }
    return mlir::success();
  });
  if (op == "compile") {
    // text, then pipelines: the IR is dumped after the lowering (if "keep" asks
    // for it) and after each of the pipelines.
    std::string stage;
    auto m = lower(str(in, "text"), stage, errors);
    out["ok"] = false;
    out["ir"] = json::Array();
    json::Array irs;
    if (m) {
      bool ok = true;
      auto take = [&](int64_t k) {
        mo::Dump d;
        auto o = d.module(*m);
        if (d.unknown)
          out["unknown"] = d.what;
        irs.push_back(std::move(o));
      };
      const auto &pipes = arr(in, "pipes");
      const auto &keep = arr(in, "keep");
      if (i(keep[0]))
        take(0);
      for (size_t k = 0; ok && k < pipes.size(); ++k) {
        mlir::PassManager pm(ctx.get());
        pm.enableVerifier(true);
        stage = pipes[k].getAsString()->str();
        if (mlir::failed(mlir::parsePassPipeline(stage, pm))) {
          llvm::errs() << "bad pipeline " << stage << "\n";
          exit(2);
        }
        ok = mlir::succeeded(pm.run(*m));
        if (ok && i(keep[k + 1]))
          take(k + 1);
      }
      out["ok"] = ok;
      if (ok)
        stage = "";
      out["ir"] = std::move(irs);
      if (ok && num(in, "serial")) {
        
        out["before"] = mo::look(*m, true);
        out["chan"] = mo::channels(*m, true, true, errors);
      }
      m->erase();
    }
    out["stage"] = stage;
  } else if (op == "annot") {
    // "text" is a module in the textual form, whose parts are given by "parts".
    std::string text = str(in, "head");
    size_t k = 0;
    for (auto &t : arr(in, "toks")) {
      auto &o = *t.getAsArray();
      llvm::StringRef what = *o[0].getAsString();
      text += arr(in, "gaps")[k++].getAsString()->str();
      text += what == "int" ? std::to_string(i(o[1])) : what == "@" ? "@" + o[1].getAsString()->str() : what == "id" ? o[1].getAsString()->str() : what.str();
    }
    text += str(in, "tail");
    mlir::ParserConfig cfg(ctx.get(), false);
    auto m = mlir::parseSourceString<mlir::ModuleOp>(text, cfg);
    out["ok"] = (bool)m;
    out["errs"] = errors;
    out["val"] = json::Object();
    out["chan"] = json::Array();
    if (m) {
      
      out["val"] = mo::look(*m, false);
      out["chan"] = mo::channels(*m, false, false, errors);
    }
  }
  out["errors"] = errors;
  out["first"] = first;
  ctx->getDiagEngine().eraseHandler(hid);
}
} // namespace

int main(int argc, char **argv) {
  mo::registerPasses();
  return run(argc, argv, handle);
}
