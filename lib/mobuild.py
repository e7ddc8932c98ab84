"""Build the compiler proper (dialects, transforms, lowering) against the installed LLVM 20.

The repository's own build cannot: it is written for a slightly newer LLVM.  The few
differences are bridged by patched *copies* of LLVM headers (an overlay in the build
directory); the repository's sources are compiled as they are."""
import fcntl, glob, os, re, subprocess, time
from core import REPO, VERIF, BUILD, CheckError, log

MB = os.path.join(BUILD, "mo")
LL = "/usr/lib/llvm-20/include"
SRC = os.path.join(VERIF, "harness")


def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def _patch(rel, *subs):
    with open(os.path.join(LL, rel)) as f:
        s = f.read()
    for a, b in subs:
        if a not in s:
            raise CheckError("overlay: cannot patch %s" % rel)
        s = s.replace(a, b, 1)
    _write(os.path.join(MB, "ov", rel), s)


def overlay():
    _patch("mlir/IR/AttrTypeBase.td", ("// For standard ArrayRefs, which require allocation.\n", '''
class APIntParameter<string desc> :
    AttrOrTypeParameter<"::llvm::APInt", desc> {
  let comparator = "$_lhs.getBitWidth() == $_rhs.getBitWidth() && $_lhs == $_rhs";
}
// For standard ArrayRefs, which require allocation.
'''))
    _patch("mlir/Transforms/GreedyPatternRewriteDriver.h", ("  bool cseConstants = true;\n", '''  bool cseConstants = true;
  GreedyRewriteConfig &enableFolding(bool v = true) { fold = v; return *this; }
  GreedyRewriteConfig &setListener(RewriterBase::Listener *l) { listener = l; return *this; }
  GreedyRewriteConfig &setUseTopDownTraversal(bool v = true) { useTopDownTraversal = v; return *this; }
  GreedyRewriteConfig &setRegionSimplificationLevel(GreedySimplifyRegionLevel v) { enableRegionSimplification = v; return *this; }
  GreedyRewriteConfig &setMaxIterations(int64_t v) { maxIterations = v; return *this; }
  GreedyRewriteConfig &setMaxNumRewrites(int64_t v) { maxNumRewrites = v; return *this; }
  GreedyRewriteConfig &setScope(Region *v) { scope = v; return *this; }
  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness v) { strictMode = v; return *this; }
  GreedyRewriteConfig &enableConstantCSE(bool v = true) { cseConstants = v; return *this; }
'''))
    _patch("mlir/IR/SymbolTable.h", ("class SymbolTableCollection {\npublic:\n", '''class SymbolTableCollection {
public:
  void invalidateSymbolTable(Operation *op) { symbolTables.erase(op); }
'''), ("class LockedSymbolTableCollection : public SymbolTableCollection {\npublic:", '''// The collection is virtual in newer versions. Here everything runs in one thread.
class LockedSymbolTableCollection {
  SymbolTableCollection &all;
public:
  explicit LockedSymbolTableCollection(SymbolTableCollection &c) : all(c) {}
  operator SymbolTableCollection &() { return all; }
  template <typename T, typename NameT>
  T lookupSymbolIn(Operation *op, NameT &&name) { return all.lookupSymbolIn<T>(op, std::forward<NameT>(name)); }
  Operation *lookupSymbolIn(Operation *op, StringAttr name) { return all.lookupSymbolIn(op, name); }
  Operation *lookupSymbolIn(Operation *op, SymbolRefAttr name) { return all.lookupSymbolIn(op, name); }
  SymbolTable &getSymbolTable(Operation *op) { return all.getSymbolTable(op); }
};
class UnusedLockedSymbolTableCollection : public SymbolTableCollection {
public:'''), ("explicit LockedSymbolTableCollection(SymbolTableCollection &collection)\n      : collection(collection) {}", "explicit UnusedLockedSymbolTableCollection(SymbolTableCollection &collection)\n      : collection(collection) {}"))
    _patch("llvm/ADT/MapVector.h", ("  ValueT lookup(const KeyT &Key) const {", '''  ArrayRef<std::pair<KeyT, ValueT>> getArrayRef() const { return Vector; }
  ValueT lookup(const KeyT &Key) const {'''), ('#include "llvm/ADT/SmallVector.h"', '#include "llvm/ADT/SmallVector.h"\n#include "llvm/ADT/ArrayRef.h"'))
    _write(os.path.join(MB, "ov/compat20.h"), '''#pragma once
#include "mlir/Interfaces/FunctionImplementation.h"
namespace mlir { namespace call_interface_impl { using mlir::function_interface_impl::addArgAndResultAttrs; } }
''')
    _write(os.path.join(MB, "ov/pch_ir.h"), '''#pragma once
#include "compat20.h"
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "marco/Dialect/BaseModelica/IR/Ops.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "mlir/Transforms/DialectConversion.h"
''')
    _write(os.path.join(MB, "ov/pch_ast.h"), '''#pragma once
#include "marco/AST/BaseModelica/AST.h"
#include "marco/Parser/BaseModelica/Parser.h"
''')


FLAGS = ("-std=c++17 -O0 -DNDEBUG -w -fPIC -fno-exceptions -fno-rtti -funwind-tables -DMARCO_VERSION=\\\"dev\\\" -DMARCO_VERIF_HOOKS "
         "-I{mb}/ov -I{mb}/inc -I{src}/compat -I{src} -I{repo}/include -I" + LL).format(mb=MB, src=SRC, repo=REPO)

SKIP = {"BufferizableOpInterfaceImpl.cpp", "IDA.cpp", "SCCSolvingWithKINSOL.cpp", "SUNDIALS.cpp", "Passes.cpp"}


def groups():
    L = REPO + "/lib/"
    g = {}
    g["ir0"] = sorted(glob.glob(L + "Dialect/Modeling/IR/*.cpp"))
    g["ir"] = sorted(glob.glob(L + "Dialect/BaseModelica/IR/*.cpp"))
    g["rt"] = sorted(glob.glob(L + "Dialect/Runtime/IR/*.cpp"))
    g["tr"] = sorted(f for f in glob.glob(L + "Dialect/BaseModelica/Transforms/**/*.cpp", recursive=True)
                     if os.path.basename(f) not in SKIP) + sorted(glob.glob(L + "Dialect/BaseModelica/Analysis/*.cpp"))
    g["low"] = sorted(glob.glob(L + "Codegen/Lowering/*.cpp"))
    g["mod"] = sorted(glob.glob(L + "Modeling/*.cpp"))
    g["fe"] = sorted(glob.glob(L + "AST/*.cpp") + glob.glob(L + "AST/BaseModelica/*.cpp")) + [L + "Parser/BaseModelica/Parser.cpp"]
    g["cv"] = [L + "Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.cpp", L + "Codegen/Conversion/BaseModelicaToCF/BaseModelicaToCF.cpp"]
    g["st"] = [SRC + "/mo/stubs.cpp"]
    g["fe0"] = [L + "Lexer/Location.cpp", L + "Parser/BaseModelica/StateMachine.cpp", L + "Parser/BaseModelica/Token.cpp"] + \
        sorted(f for f in glob.glob(L + "VariableFilter/*.cpp"))
    return g


DRIVERS = {"ir_driver": ("ir0 ir rt mod".split(), SRC + "/mo/ir_driver.cpp", "ir"),
           "mo_cli": ("ir0 ir rt tr cv low mod fe fe0 st".split(), SRC + "/mo/mo_cli.cpp", None),
           "mo_driver": ("ir0 ir rt tr cv low mod fe fe0 st".split(), SRC + "/mo/mo_driver.cpp", None)}


def ninja():
    o = ["builddir = " + MB, "rule cc", "  command = clang++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule pch", "  command = clang++ $flags -fpch-instantiate-templates -MMD -MF $out.d -x c++-header $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule tg", "  command = /usr/lib/llvm-20/bin/mlir-tblgen -I%s/ov -I%s/include -I%s -I$dir $args $in -o $out -d $out.d --write-if-changed" % (MB, REPO, LL),
         "  depfile = $out.d", "  restat = 1",
         "rule link", "  command = clang++ $in -o $out -L/usr/lib/llvm-20/lib -lMLIR -lLLVM-20 /usr/lib/llvm-20/lib/libclang-cpp.so.20.1 -lpthread -Wl,-rpath,/usr/lib/llvm-20/lib"]
    incs = []
    for d in ("Dialect/Modeling/IR", "Dialect/BaseModelica/IR", "Dialect/BaseModelica/Transforms", "Dialect/Runtime/IR", "Dialect/IDA/IR",
              "Dialect/KINSOL/IR", "Dialect/SUNDIALS/IR", "Codegen/Conversion"):
        full = "%s/include/marco/%s" % (REPO, d)
        td = None
        for line in open(full + "/CMakeLists.txt"):
            m = re.match(r"set\(LLVM_TARGET_DEFINITIONS (\S+)\)", line)
            if m:
                td = m.group(1)
            m = re.match(r"mlir_tablegen\((\S+) (.*)\)", line)
            if m:
                out = "%s/inc/marco/%s/%s" % (MB, d, m.group(1))
                incs.append(out)
                o += ["build %s: tg %s/%s" % (out, full, td), "  dir = " + full, "  args = " + m.group(2)]
    o.append("build incs: phony " + " ".join(incs))
    flags = FLAGS
    for p in ("ir", "ast"):
        o += ["build %s/pch_%s.pch: pch %s/ov/pch_%s.h || incs" % (MB, p, MB, p), "  flags = " + flags]
    objs = {}
    pch = {"ir0": None, "ir": "ir", "rt": "ir", "tr": "ir", "cv": "ir", "low": "ir", "mod": None, "st": None, "fe": "ast", "fe0": None}

    def obj(src, p, extra=""):
        out = "%s/obj/%s.o" % (MB, os.path.relpath(src, "/").replace("/", "_"))
        dep = " | %s/pch_%s.pch" % (MB, p) if p else ""
        o.append("build %s: cc %s%s || incs" % (out, src, dep))
        o.append("  flags = " + flags + (" -include-pch %s/pch_%s.pch" % (MB, p) if p else "") + extra)
        return out
    for g, fs in groups().items():
        objs[g] = [obj(f, pch[g], " -include %s/compat/diagopts.h" % SRC if f.endswith("VariableFilter.cpp") else "") for f in fs]
    for d, (gs, main, p) in DRIVERS.items():
        if os.path.exists(main):
            m = obj(main, p)
            o += ["build %s/%s: link %s %s" % (MB, d, m, " ".join(" ".join(objs[g]) for g in gs))]
    _write(MB + "/build.ninja", "\n".join(o) + "\n")


def build(*drivers):
    os.makedirs(MB, exist_ok=True)
    with open(os.path.join(BUILD, ".molock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        overlay()
        ninja()
        r = subprocess.run(["ninja", "-f", MB + "/build.ninja", "-k", "20"] + [MB + "/" + d for d in drivers], cwd=MB,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
    log("built %s in %.1fs" % (" ".join(drivers), time.time() - t0))


if __name__ == "__main__":
    import sys
    build(*sys.argv[1:])
