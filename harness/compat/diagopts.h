// VariableFilter.cpp is written for a clang whose DiagnosticOptions are passed
// by reference; the installed one takes reference-counted pointers.
#ifndef VERIF_COMPAT_DIAGOPTS_H
#define VERIF_COMPAT_DIAGOPTS_H
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
namespace clang {
struct VerifDiagnosticOptions {
  bool ShowColors = false;
  llvm::IntrusiveRefCntPtr<DiagnosticOptions> held{new DiagnosticOptions()};
  operator DiagnosticOptions *() { return held.get(); }
  operator llvm::IntrusiveRefCntPtr<DiagnosticOptions>() { return held; }
};
} // namespace clang
#define DiagnosticOptions VerifDiagnosticOptions
#endif
