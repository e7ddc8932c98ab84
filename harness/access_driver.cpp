// Access functions: scripts of calls on the real classes.
#include "afio.h"

static json::Array points(const IndexSet &s) { return fromSetPoints(s); }

static void handle(const json::Object &cmd, json::Object &out) {
  std::string op = str(cmd, "op");
  if (op == "reset")
    return;
  AF f = fun(cmd, "f");
  auto forEachPoint = [&](auto fn) {
    json::Array a;
    for (const auto &p : arr(cmd, "ps"))
      a.push_back(fn(toPoint(p)));
    return a;
  };
  if (op == "mapp") {
    out["out"] = points(f->map(toPoint(*cmd.get("p"))));
  } else if (op == "maps") {
    out["out"] = points(f->map(toSet(arr(cmd, "s"))));
  } else if (op == "inv") {
    out["out"] = points(f->inverseMap(toSet(arr(cmd, "acc")), toSet(arr(cmd, "par"))));
  } else if (op == "inverse") {
    AF g = f->inverse();
    out["invertible"] = f->isInvertible();
    out["roto"] = f->isa<AccessFunctionRotoTranslation>();
    out["has"] = g != nullptr;
    out["back"] = forEachPoint([&](Point p) { return g ? points(g->map(f->map(p))) : json::Array(); });
    out["fwd"] = forEachPoint([&](Point p) { return g ? points(f->map(g->map(p))) : json::Array(); });
  } else if (op == "combine") {
    AF g = fun(cmd, "g");
    AF h = f->combine(*g);
    out["dims"] = (int64_t)h->getNumOfDims();
    out["results"] = (int64_t)h->getNumOfResults();
    out["out"] = forEachPoint([&](Point p) { return points(h->map(p)); });
  } else if (op == "given") {
    AF h = f->getWithGivenDimensions(num(cmd, "n"));
    out["dims"] = (int64_t)h->getNumOfDims();
    out["results"] = (int64_t)h->getNumOfResults();
    out["out"] = forEachPoint([&](Point p) { return points(h->map(p)); });
  } else if (op == "pred") {
    out["dims"] = (int64_t)f->getNumOfDims();
    out["results"] = (int64_t)f->getNumOfResults();
    out["isConst"] = f->isConstant();
    out["isId"] = f->isIdentity();
    out["isInv"] = f->isInvertible();
    out["roto"] = f->isa<AccessFunctionRotoTranslation>();
    bool a = f->isAffine();
    out["isAffine"] = a;
    AF c = f->clone();
    out["cloneEq"] = *f == *c && !(*f != *c);
    out["aff"] = forEachPoint([&](Point p) {
      json::Array r;
      if (a) {
        llvm::SmallVector<int64_t> v(p.begin(), p.end());
        for (int64_t x : f->getAffineMap().compose(v))
          r.push_back(x);
      }
      return r;
    });
  } else if (op == "eq") {
    AF g = fun(cmd, "g");
    out["eq"] = *f == *g;
    out["ne"] = *f != *g;
    out["sym"] = *g == *f;
  }
}

int main(int argc, char **argv) {
  mlir::MLIRContext c;
  ctx = &c;
  return run(argc, argv, handle);
}
