// Access functions out of JSON.
#ifndef VERIF_AFIO_H
#define VERIF_AFIO_H
#include "jsonio.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionRotoTranslation.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessDiv.h"
#include "marco/Modeling/DimensionAccessIndices.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/DimensionAccessSub.h"
#include "mlir/IR/AffineMap.h"
#include "mlir/IR/MLIRContext.h"

using namespace drv;
using namespace marco::modeling;
static mlir::MLIRContext *ctx;
using AF = std::unique_ptr<AccessFunction>;
using Spaces = std::vector<std::shared_ptr<IndexSet>>;

static std::unique_ptr<DimensionAccess> dim(const json::Object &e, const Spaces &sp) {
  std::string k = str(e, "k");
  if (k == "const")
    return std::make_unique<DimensionAccessConstant>(ctx, num(e, "v"));
  if (k == "dim")
    return std::make_unique<DimensionAccessDimension>(ctx, num(e, "d"));
  if (k == "range")
    return std::make_unique<DimensionAccessRange>(ctx, Range(num(e, "lo"), num(e, "hi")));
  if (k == "idx") {
    llvm::SetVector<uint64_t> deps;
    for (const auto &d : arr(e, "dep"))
      deps.insert(i(d));
    return std::make_unique<DimensionAccessIndices>(ctx, sp[num(e, "s")], num(e, "d"), deps);
  }
  auto a = dim(*e.getObject("a"), sp), b = dim(*e.getObject("b"), sp);
  if (k == "add")
    return *a + *b;
  if (k == "sub")
    return *a - *b;
  if (k == "mul")
    return *a * *b;
  return *a / *b;
}
static mlir::AffineExpr aff(const json::Object &e) {
  std::string k = str(e, "k");
  if (k == "const")
    return mlir::getAffineConstantExpr(num(e, "v"), ctx);
  if (k == "dim")
    return mlir::getAffineDimExpr(num(e, "d"), ctx);
  auto a = aff(*e.getObject("a")), b = aff(*e.getObject("b"));
  if (k == "add")
    return a + b;
  if (k == "sub")
    return a - b;
  if (k == "mul")
    return a * b;
  return a.floorDiv(b);
}
static AF fun(const json::Object &cmd, llvm::StringRef key) {
  const json::Object &f = *cmd.getObject(key);
  std::string via = str(f, "via");
  AF r;
  if (via == "affine") {
    llvm::SmallVector<mlir::AffineExpr> res;
    for (const auto &e : arr(f, "res"))
      res.push_back(aff(*e.getAsObject()));
    r = AccessFunction::build(mlir::AffineMap::get(num(f, "dims"), 0, res, ctx));
  } else {
    Spaces sp;
    for (const auto &s : arr(f, "spaces"))
      sp.push_back(std::make_shared<IndexSet>(toSet(*s.getAsArray())));
    llvm::SmallVector<std::unique_ptr<DimensionAccess>> res;
    for (const auto &e : arr(f, "res"))
      res.push_back(dim(*e.getAsObject(), sp));
    r = AccessFunction::build(ctx, num(f, "dims"), res);
  }
  if (via == "clone")
    r = r->clone();
  return r;
}
#endif
