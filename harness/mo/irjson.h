// The IR as JSON: declarations, equations as expression trees, functions as statements.
#pragma once
#include "mo_common.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "llvm/Support/JSON.h"
#include <cmath>
#include <map>
#include <set>

namespace mo {
inline double num(double d) { return d; }
inline double num(const llvm::APFloat &d) { return d.convertToDouble(); }
inline int64_t inum(int64_t d) { return d; }
inline int64_t inum(const llvm::APInt &d) { return d.getSExtValue(); }
namespace json = llvm::json;
using namespace mlir::bmodelica;
constexpr int64_t P = 46337;

inline int64_t powmod(int64_t b, int64_t e) {
  int64_t r = 1;
  b = ((b % P) + P) % P;
  for (; e > 0; e >>= 1, b = b * b % P)
    if (e & 1)
      r = r * b % P;
  return r;
}

// The residue of the rational number that a double stands for: the one with a
// small denominator that it is the rounding of, or else its exact value.
inline int64_t residue(double v) {
  if (std::isnan(v) || std::isinf(v))
    return -1;
  double x = std::fabs(v);
  // Continued fraction.
  long double h0 = 0, h1 = 1, k0 = 1, k1 = 0, y = x;
  for (int n = 0; n < 40; ++n) {
    long double a = floorl(y);
    long double h = a * h1 + h0, k = a * k1 + k0;
    if (k > 30000 || h > 2e9)
      break;
    h0 = h1, h1 = h, k0 = k1, k1 = k;
    if (std::fabs((double)(h / k - x)) <= 1e-13 * x) {
      int64_t r = ((int64_t)h % P) * powmod((int64_t)k % P, P - 2) % P;
      return v < 0 ? (P - r) % P : r;
    }
    if (y == a)
      break;
    y = 1 / (y - a);
  }
  int e;
  double m = std::frexp(x, &e);
  int64_t mi = (int64_t)std::ldexp(m, 53);
  e -= 53;
  int64_t r = (mi % P) * (e >= 0 ? powmod(2, e) : powmod((P + 1) / 2, -e)) % P;
  return v < 0 ? (P - r) % P : r;
}

inline mlir::Type elementOf(mlir::Type t) {
  if (auto x = mlir::dyn_cast<mlir::ShapedType>(t))
    return elementOf(x.getElementType());
  if (auto x = mlir::dyn_cast<ArrayType>(t))
    return elementOf(x.getElementType());
  if (auto x = mlir::dyn_cast<VariableType>(t))
    return elementOf(x.getElementType());
  return t;
}
inline std::string code(mlir::Type t) {
  t = elementOf(t);
  if (mlir::isa<RealType>(t) || mlir::isa<mlir::FloatType>(t))
    return "r";
  if (mlir::isa<BooleanType>(t) || t.isInteger(1))
    return "b";
  if (mlir::isa<IntegerType>(t) || mlir::isa<mlir::IndexType>(t) || mlir::isa<mlir::IntegerType>(t))
    return "i";
  if (auto r = mlir::dyn_cast<RecordType>(t))
    return "record";
  if (mlir::isa<RangeType>(t))
    return "g";
  return "?";
}
inline json::Array shapeOf(mlir::Type t) {
  json::Array a;
  if (auto x = mlir::dyn_cast<VariableType>(t))
    for (auto d : x.getShape())
      a.push_back(mlir::ShapedType::isDynamic(d) ? -1 : d);
  else if (auto x = mlir::dyn_cast<mlir::ShapedType>(t))
    for (auto d : x.getShape())
      a.push_back(mlir::ShapedType::isDynamic(d) ? -1 : d);
  else if (auto x = mlir::dyn_cast<ArrayType>(t))
    for (auto d : x.getShape())
      a.push_back(mlir::ShapedType::isDynamic(d) ? -1 : d);
  return a;
}
inline std::string symStr(mlir::SymbolRefAttr s) { return s.getLeafReference().str(); }
inline std::string symPath(mlir::SymbolRefAttr s) {
  std::string r = s.getRootReference().str();
  for (auto x : s.getNestedReferences())
    r += "." + x.getValue().str();
  return r;
}
inline json::Array points(const mlir::bmodelica::IndexSet &s) {
  json::Array out;
  std::vector<std::vector<int64_t>> all;
  for (auto p : s) {
    std::vector<int64_t> q;
    for (size_t k = 0; k < p.rank(); ++k)
      q.push_back(p[k]);
    all.push_back(q);
  }
  std::sort(all.begin(), all.end());
  for (auto &q : all)
    out.push_back(json::Array(q));
  return out;
}

struct Dump {
  std::map<void *, int64_t> tmps;
  std::map<void *, int64_t> inds;
  int64_t next = 1;
  size_t budget = 60000;
  bool unknown = false;
  std::string what;

  json::Value no(llvm::StringRef w) {
    unknown = true;
    if (what.empty())
      what = w.str();
    return json::Object{{"o", "?"}, {"t", "r"}, {"a", json::Array()}};
  }
  json::Value attrValue(mlir::Attribute v, mlir::Type type) {
    json::Object o{{"o", "const"}, {"t", code(type)}, {"a", json::Array()}};
    auto scalar = [&](mlir::Attribute a) -> json::Value {
      if (auto x = mlir::dyn_cast<RealAttr>(a))
        return residue(x.getValue().convertToDouble());
      if (auto x = mlir::dyn_cast<mlir::FloatAttr>(a))
        return residue(x.getValue().convertToDouble());
      if (auto x = mlir::dyn_cast<IntegerAttr>(a))
        return x.getValue().getSExtValue();
      if (auto x = mlir::dyn_cast<BooleanAttr>(a))
        return x.getValue() ? 1 : 0;
      if (auto x = mlir::dyn_cast<mlir::BoolAttr>(a))
        return x.getValue() ? 1 : 0;
      if (auto x = mlir::dyn_cast<mlir::IntegerAttr>(a))
        return x.getValue().getSExtValue();
      return no("constant");
    };
    auto list = [&](json::Array l, mlir::Type t) {
      o["o"] = "consts";
      o["sh"] = shapeOf(t);
      o["x"] = std::move(l);
      return json::Value(std::move(o));
    };
    if (auto x = mlir::dyn_cast<DenseRealElementsAttr>(v)) {
      json::Array l;
      for (const auto &d : x.getValues())
        l.push_back(residue(num(d)));
      return list(std::move(l), type);
    }
    if (auto x = mlir::dyn_cast<DenseIntegerElementsAttr>(v)) {
      json::Array l;
      for (const auto &d : x.getValues())
        l.push_back(inum(d));
      return list(std::move(l), type);
    }
    if (auto x = mlir::dyn_cast<DenseBooleanElementsAttr>(v)) {
      json::Array l;
      for (bool d : x.getValues())
        l.push_back(d ? 1 : 0);
      return list(std::move(l), type);
    }
    if (auto x = mlir::dyn_cast<IntegerRangeAttr>(v)) {
      o["o"] = "grange";
      o["x"] = json::Array{x.getLowerBound(), x.getUpperBound(), x.getStep()};
      return json::Value(std::move(o));
    }
    o["x"] = scalar(v);
    return json::Value(std::move(o));
  }

  // The operations the specification gives a meaning to.
  static const std::set<llvm::StringRef> &understood() {
    static const std::set<llvm::StringRef> names = {
        "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log10",
        "sqrt", "floor", "ceil", "pow", "atan2", "mod", "rem", "integer", "div_trunc", "neg", "cast",
        "not", "abs", "sign", "add", "sub", "mul", "div", "eq", "neq", "gt", "gte", "lt", "lte", "and",
        "or", "max", "min", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew", "range", "time", "der",
        "tensor_view", "tensor_extract", "subscription", "load", "array_to_tensor", "array_cast",
        "tensor_from_elements", "array_from_elements", "tensor_broadcast", "array_broadcast",
        "tensor_concat", "sum", "product", "size", "dim", "ndims", "zeros", "ones", "fill",
        "identity", "diagonal", "linspace", "transpose", "symmetric", "unbounded_range"};
    return names;
  }

  json::Value affine(mlir::AffineExpr e, mlir::ValueRange ops, unsigned dims) {
    auto two = [&](llvm::StringRef o, mlir::AffineBinaryOpExpr b) -> json::Value {
      return json::Object{{"o", o}, {"t", "i"}, {"sh", json::Array()},
                          {"a", json::Array{affine(b.getLHS(), ops, dims), affine(b.getRHS(), ops, dims)}}};
    };
    if (auto d = mlir::dyn_cast<mlir::AffineDimExpr>(e))
      return expr(ops[d.getPosition()]);
    if (auto d = mlir::dyn_cast<mlir::AffineSymbolExpr>(e))
      return expr(ops[dims + d.getPosition()]);
    if (auto c = mlir::dyn_cast<mlir::AffineConstantExpr>(e))
      return json::Object{{"o", "const"}, {"t", "i"}, {"x", c.getValue()}, {"a", json::Array()}};
    if (auto b = mlir::dyn_cast<mlir::AffineBinaryOpExpr>(e)) {
      if (e.getKind() == mlir::AffineExprKind::Add)
        return two("add", b);
      if (e.getKind() == mlir::AffineExprKind::Mul)
        return two("mul", b);
    }
    return no("affine expression");
  }

  json::Array exprs(mlir::ValueRange vs) {
    json::Array a;
    for (auto v : vs)
      a.push_back(expr(v));
    return a;
  }

  json::Value expr(mlir::Value v) {
    if (budget == 0)
      return no("too large");
    --budget;
    std::string t = code(v.getType());
    if (auto it = tmps.find(v.getAsOpaquePointer()); it != tmps.end())
      return json::Object{{"o", "tmp"}, {"t", t}, {"k", it->second}, {"a", json::Array()}};
    if (auto it = inds.find(v.getAsOpaquePointer()); it != inds.end())
      return json::Object{{"o", "ind"}, {"t", t}, {"k", it->second}, {"a", json::Array()}};
    auto *op = v.getDefiningOp();
    if (!op)
      return no("block argument");
    json::Object o{{"t", t}};
    if (auto x = mlir::dyn_cast<ConstantOp>(op))
      return attrValue(mlir::cast<mlir::Attribute>(x.getValue()), v.getType());
    if (auto x = mlir::dyn_cast<mlir::arith::ConstantOp>(op))
      return attrValue(x.getValue(), v.getType());
    if (auto x = mlir::dyn_cast<VariableGetOp>(op)) {
      o["o"] = "var", o["n"] = x.getVariable(), o["a"] = json::Array();
      return o;
    }
    if (auto x = mlir::dyn_cast<QualifiedVariableGetOp>(op)) {
      o["o"] = mlir::isa<ArrayType>(v.getType()) ? "ref" : "var";
      o["n"] = symStr(x.getVariable()), o["a"] = json::Array();
      return o;
    }
    if (auto x = mlir::dyn_cast<GlobalVariableGetOp>(op)) {
      o["o"] = mlir::isa<ArrayType>(v.getType()) ? "ref" : "var";
      o["n"] = "$" + x.getVariable().str(), o["a"] = json::Array();
      return o;
    }
    if (auto x = mlir::dyn_cast<ComponentGetOp>(op)) {
      o["o"] = "comp", o["n"] = x.getComponentName(), o["a"] = json::Array{expr(x.getVariable())};
      return o;
    }
    if (auto x = mlir::dyn_cast<CallOp>(op)) {
      o["o"] = "call", o["n"] = symStr(x.getCallee()), o["a"] = exprs(x.getArgs());
      o["k"] = (int64_t)mlir::cast<mlir::OpResult>(v).getResultNumber();
      if (x.getArgNames() && !x.getArgNames()->empty()) {
        json::Array names;
        for (auto n : *x.getArgNames())
          names.push_back(mlir::cast<mlir::FlatSymbolRefAttr>(n).getValue());
        o["names"] = std::move(names);
      }
      return o;
    }
    if (auto x = mlir::dyn_cast<SelectOp>(op)) {
      auto k = mlir::cast<mlir::OpResult>(v).getResultNumber();
      o["o"] = "select";
      o["a"] = json::Array{expr(x.getCondition()), expr(x.getTrueValues()[k]), expr(x.getFalseValues()[k])};
      return o;
    }
    if (auto x = mlir::dyn_cast<ReductionOp>(op)) {
      auto *b = &x.getExpressionRegion().front();
      json::Array ks;
      for (auto arg : b->getArguments()) {
        tmps[arg.getAsOpaquePointer()] = next;
        ks.push_back(next++);
      }
      o["o"] = "reduction", o["n"] = x.getAction(), o["a"] = exprs(x.getIterables());
      o["ks"] = std::move(ks);
      o["e"] = expr(b->getTerminator()->getOperand(0));
      return o;
    }
    if (op->getNumRegions() || op->getNumResults() != 1)
      return no(op->getName().getStringRef());
    if (auto x = mlir::dyn_cast<mlir::affine::AffineApplyOp>(op)) {
      auto m = x.getAffineMap();
      if (m.getNumResults() != 1)
        return no("affine map");
      return affine(m.getResult(0), x.getMapOperands(), m.getNumDims());
    }
    auto name = op->getName().getStringRef();
    static const std::map<llvm::StringRef, llvm::StringRef> arith = {
        {"bmodelica.tensor_to_array", "copy"}, {"arith.addi", "add"},      {"arith.subi", "sub"}, {"arith.muli", "mul"},
        {"arith.index_cast", "copy"}, {"arith.divsi", "div"}};
    if (auto it = arith.find(name); it != arith.end())
      name = it->second;
    else if (!name.consume_front("bmodelica.") || !understood().count(name))
      return no(name);
    o["o"] = name;
    o["sh"] = shapeOf(v.getType());
    o["a"] = exprs(op->getOperands());
    return o;
  }

  // ------------------------------------------------------------ statements
  int64_t bind(mlir::Value v) { return tmps[v.getAsOpaquePointer()] = next++; }

  bool allOk(mlir::Block *b) { return true; }

  json::Array stmts(mlir::Block &b) {
    json::Array out;
    for (auto &op : b) {
      auto let = [&](llvm::StringRef kind = "let") {
        if (op.getNumResults() > 1) {
          json::Array ks, es;
          for (auto r : op.getResults()) {
            es.push_back(expr(r));
          }
          for (auto r : op.getResults())
            ks.push_back(bind(r));
          out.push_back(json::Object{{"s", "lets"}, {"ks", std::move(ks)}, {"es", std::move(es)}});
          return;
        }
        auto e = expr(op.getResult(0));
        out.push_back(json::Object{{"s", "let"}, {"k", bind(op.getResult(0))}, {"e", std::move(e)}});
      };
      if (mlir::isa<CallOp>(op) && op.getNumResults() == 0) {
        auto x = mlir::cast<CallOp>(op);
        out.push_back(json::Object{{"s", "proc"}, {"n", symStr(x.getCallee())}, {"a", exprs(x.getArgs())}});
      } else if (auto x = mlir::dyn_cast<mlir::func::CallOp>(op)) {
        if (op.getNumResults())
          no("func.call");
        out.push_back(json::Object{{"s", "proc"}, {"n", x.getCallee()}, {"a", exprs(x.getOperands())}});
      } else if (auto x = mlir::dyn_cast<mlir::runtime::SchedulerRunOp>(op)) {
        out.push_back(json::Object{{"s", "sched_run"}, {"n", x.getScheduler()}});
      } else if (auto x = mlir::dyn_cast<mlir::runtime::SchedulerCreateOp>(op)) {
        out.push_back(json::Object{{"s", "sched_create"}, {"n", x.getScheduler()}});
      } else if (auto x = mlir::dyn_cast<mlir::runtime::SchedulerDestroyOp>(op)) {
        out.push_back(json::Object{{"s", "sched_destroy"}, {"n", x.getScheduler()}});
      } else if (auto x = mlir::dyn_cast<mlir::runtime::SchedulerAddEquationOp>(op)) {
        out.push_back(json::Object{{"s", "sched_add"}, {"n", x.getScheduler()}, {"f", x.getFunction()}, {"bx", boxes(x.getProperties().indices)}, {"par", x.getIndependentIndices()}});
      } else if (auto x = mlir::dyn_cast<EquationCallOp>(op)) {
        out.push_back(json::Object{{"s", "eq"}, {"f", x.getCallee()}, {"bx", boxes(x.getProperties().indices)}, {"par", x.getParallelizable()}});
      } else if (auto x = mlir::dyn_cast<mlir::runtime::ReturnOp>(op)) {
        if (x.getValues().size() == 1)
          out.push_back(json::Object{{"s", "result"}, {"e", expr(x.getValues()[0])}});
      } else if (mlir::isa<VariableGetOp, CallOp, LoadOp, ArrayToTensorOp>(op)) {
        let();
      } else if (mlir::isa<QualifiedVariableGetOp, GlobalVariableGetOp>(op)) {
        if (!mlir::isa<ArrayType>(op.getResult(0).getType()))
          let();
      } else if (mlir::isa<AllocaOp, AllocOp>(op)) {
        out.push_back(json::Object{{"s", "alloc"}, {"k", bind(op.getResult(0))}, {"t", code(op.getResult(0).getType())}, {"sh", shapeOf(op.getResult(0).getType())}});
      } else if (auto x = mlir::dyn_cast<StoreOp>(op)) {
        out.push_back(json::Object{{"s", "store"}, {"m", expr(x.getArray())}, {"ix", exprs(x.getIndices())}, {"e", expr(x.getValue())}});
      } else if (auto x = mlir::dyn_cast<VariableSetOp>(op)) {
        out.push_back(json::Object{{"s", "set"}, {"n", x.getVariable()}, {"ix", exprs(x.getIndices())}, {"e", expr(x.getValue())}});
      } else if (auto x = mlir::dyn_cast<QualifiedVariableSetOp>(op)) {
        out.push_back(json::Object{{"s", "set"}, {"n", symStr(x.getVariable())}, {"ix", exprs(x.getIndices())}, {"e", expr(x.getValue())}});
      } else if (auto x = mlir::dyn_cast<VariableComponentSetOp>(op)) {
        no("variable_component_set");
      } else if (auto x = mlir::dyn_cast<ArrayCopyOp>(op)) {
        out.push_back(json::Object{{"s", "copy"}, {"e", expr(x.getSource())}, {"m", expr(x.getDestination())}});
      } else if (auto x = mlir::dyn_cast<ArrayFillOp>(op)) {
        out.push_back(json::Object{{"s", "fill"}, {"e", expr(x.getValue())}, {"m", expr(x.getArray())}});
      } else if (auto x = mlir::dyn_cast<IfOp>(op)) {
        auto c = expr(x.getCondition());
        json::Array els;
        auto th = stmts(*x.thenBlock());
        if (!x.getElseRegion().empty())
          els = stmts(*x.elseBlock());
        out.push_back(json::Object{{"s", "if"}, {"e", std::move(c)}, {"b", std::move(th)}, {"c", std::move(els)}});
      } else if (auto x = mlir::dyn_cast<WhileOp>(op)) {
        auto &cb = x.getConditionRegion().front();
        auto pre = stmts(cb);
        auto c = expr(mlir::cast<ConditionOp>(cb.getTerminator()).getCondition());
        out.push_back(json::Object{{"s", "loop"}, {"pre", std::move(pre)}, {"e", std::move(c)}, {"b", stmts(x.getBodyRegion().front())}, {"c", json::Array()}});
      } else if (auto x = mlir::dyn_cast<ForOp>(op)) {
        auto &cb = x.getConditionRegion().front();
        auto pre = stmts(cb);
        auto c = expr(mlir::cast<ConditionOp>(cb.getTerminator()).getCondition());
        auto body = stmts(x.getBodyRegion().front());
        out.push_back(json::Object{{"s", "loop"}, {"pre", std::move(pre)}, {"e", std::move(c)}, {"b", std::move(body)}, {"c", stmts(x.getStepRegion().front())}});
      } else if (auto x = mlir::dyn_cast<mlir::scf::ForOp>(op)) {
        auto lb = expr(x.getLowerBound()), ub = expr(x.getUpperBound()), st = expr(x.getStep());
        int64_t k = bind(x.getInductionVar());
        out.push_back(json::Object{{"s", "for"}, {"k", k}, {"lb", std::move(lb)}, {"ub", std::move(ub)}, {"st", std::move(st)}, {"b", stmts(*x.getBody())}});
      } else if (auto x = mlir::dyn_cast<mlir::affine::AffineForOp>(op)) {
        auto bound = [&](mlir::AffineMap m, mlir::ValueRange ops) -> json::Value {
          if (m.getNumResults() == 1)
            return affine(m.getResult(0), ops, m.getNumDims());
          return no("affine bound");
        };
        auto lb = bound(x.getLowerBoundMap(), x.getLowerBoundOperands()), ub = bound(x.getUpperBoundMap(), x.getUpperBoundOperands());
        json::Value st = json::Object{{"o", "const"}, {"t", "i"}, {"x", x.getStepAsInt()}, {"a", json::Array()}};
        int64_t k = bind(x.getInductionVar());
        out.push_back(json::Object{{"s", "for"}, {"k", k}, {"lb", std::move(lb)}, {"ub", std::move(ub)}, {"st", std::move(st)}, {"b", stmts(*x.getBody())}});
      } else if (mlir::isa<BreakOp>(op)) {
        out.push_back(json::Object{{"s", "break"}});
      } else if (mlir::isa<ReturnOp>(op)) {
        out.push_back(json::Object{{"s", "return"}});
      } else if (auto x = mlir::dyn_cast<RunScheduleOp>(op)) {
        out.push_back(json::Object{{"s", "run"}, {"n", symStr(x.getSchedule())}});
      } else if (mlir::isa<AssertOp>(op)) {
        no("assert");
      } else if (op.getNumResults() == 0 &&
                 !mlir::isa<YieldOp, ConditionOp, FreeOp, mlir::scf::YieldOp, mlir::affine::AffineYieldOp, mlir::runtime::YieldOp, mlir::func::ReturnOp>(op)) {
        no(op.getName().getStringRef());
      }
    }
    return out;
  }

  // -------------------------------------------------------------- equations
  void sides(mlir::Block *b, json::Object &o) {
    auto s = mlir::cast<EquationSidesOp>(b->getTerminator());
    o["l"] = exprs(s.getLhsValues());
    o["r"] = exprs(s.getRhsValues());
  }
  void equations(mlir::Block &b, json::Array &out, std::vector<ForEquationOp> fors) {
    for (auto &op : b) {
      if (auto x = mlir::dyn_cast<ForEquationOp>(op)) {
        auto f = fors;
        f.push_back(x);
        equations(*x.bodyBlock(), out, f);
      } else if (auto x = mlir::dyn_cast<EquationOp>(op)) {
        json::Object o;
        json::Array pts;
        std::vector<int64_t> cur;
        inds.clear();
        for (size_t k = 0; k < fors.size(); ++k)
          inds[fors[k].induction().getAsOpaquePointer()] = k + 1;
        std::function<void(size_t)> rec = [&](size_t k) {
          if (k == fors.size()) {
            pts.push_back(json::Array(cur));
            return;
          }
          int64_t from = fors[k].getFrom().getSExtValue(), to = fors[k].getTo().getSExtValue(), step = fors[k].getStep().getSExtValue();
          for (int64_t v = from; step > 0 ? v <= to : v >= to; v += step) {
            cur.push_back(v);
            rec(k + 1);
            cur.pop_back();
            if (step == 0)
              break;
          }
        };
        rec(0);
        o["ix"] = std::move(pts);
        sides(&x.getBodyRegion().front(), o);
        out.push_back(std::move(o));
      } else if (auto x = mlir::dyn_cast<EquationInstanceOp>(op)) {
        json::Object o;
        auto tmpl = x.getTemplate();
        inds.clear();
        for (auto [k, arg] : llvm::enumerate(tmpl.getBody()->getArguments()))
          inds[arg.getAsOpaquePointer()] = k + 1;
        if (tmpl.getBody()->getNumArguments() == 0)
          o["ix"] = json::Array{json::Array()};
        else
          o["ix"] = points(x.getProperties().indices);
        sides(tmpl.getBody(), o);
        if (x.getProperties().match) {
          o["mv"] = symPath(x.getProperties().match.name);
          o["mi"] = points(x.getProperties().match.indices);
        }
        out.push_back(std::move(o));
      } else if (auto x = mlir::dyn_cast<SCCOp>(op)) {
        equations(x.getBodyRegion().front(), out, fors);
      } else if (auto x = mlir::dyn_cast<SCCGroupOp>(op)) {
        equations(x.getBodyRegion().front(), out, fors);
      } else if (mlir::isa<AlgorithmOp>(op)) {
        // listed apart
      } else {
        no(op.getName().getStringRef());
      }
    }
  }

  json::Array varsList(const VariablesList &l) {
    json::Array a;
    for (auto &v : l)
      a.push_back(json::Object{{"n", symPath(v.name)}, {"ix", points(v.indices)}});
    return a;
  }
  json::Array boxes(const mlir::bmodelica::IndexSet &s) {
    json::Array out;
    for (const auto &r : llvm::make_range(s.rangesBegin(), s.rangesEnd())) {
      json::Array bx;
      for (size_t k = 0; k < r.rank(); ++k) {
        bx.push_back(r[k].getBegin());
        bx.push_back(r[k].getEnd());
      }
      out.push_back(std::move(bx));
    }
    return out;
  }
  json::Object block(ScheduleBlockOp b) {
    json::Array calls;
    for (auto &op : *b.getBody()) {
      if (auto x = mlir::dyn_cast<EquationCallOp>(op)) {
        calls.push_back(json::Object{{"f", x.getCallee()}, {"bx", boxes(x.getProperties().indices)}, {"par", x.getParallelizable()}});
      } else if (!mlir::isa<YieldOp>(op)) {
        no(op.getName().getStringRef());
      }
    }
    return json::Object{{"calls", std::move(calls)}, {"par", b.getParallelizable()},
                        {"w", varsList(b.getProperties().writtenVariables)}, {"r", varsList(b.getProperties().readVariables)}};
  }
  json::Array groups(mlir::Block &b) {
    json::Array out;
    for (auto &op : b) {
      if (auto x = mlir::dyn_cast<ScheduleBlockOp>(op))
        out.push_back(json::Object{{"par", false}, {"bs", json::Array{block(x)}}});
      else if (auto x = mlir::dyn_cast<ParallelScheduleBlocksOp>(op)) {
        json::Array bs;
        for (auto &o2 : *x.getBody())
          if (auto y = mlir::dyn_cast<ScheduleBlockOp>(o2))
            bs.push_back(block(y));
        out.push_back(json::Object{{"par", true}, {"bs", std::move(bs)}});
      } else
        no(op.getName().getStringRef());
    }
    return out;
  }

  json::Object variable(VariableOp x) {
    auto t = x.getVariableType();
    json::Object o{{"n", x.getSymName()}, {"t", code(t)}, {"sh", shapeOf(t)}};
    if (auto r = mlir::dyn_cast<RecordType>(elementOf(t)))
      o["rec"] = symStr(r.getName());
    o["vb"] = t.isConstant() ? "constant" : t.isParameter() ? "parameter" : t.isDiscrete() ? "discrete" : "none";
    o["io"] = t.isInput() ? "input" : t.isOutput() ? "output" : "none";
    return o;
  }

  json::Object model(ModelOp m) {
    json::Array vars, starts, bindings, init, dyn, ialg, dalg, ders, scheds;
    for (auto &op : *m.getBody()) {
      if (auto x = mlir::dyn_cast<VariableOp>(op))
        vars.push_back(variable(x));
      else if (auto x = mlir::dyn_cast<StartOp>(op)) {
        if (x.getBodyRegion().empty() || x.getBodyRegion().front().empty())
          continue; // moved into the equations
        auto *b = &x.getBodyRegion().front();
        starts.push_back(json::Object{{"n", symPath(x.getVariable())}, {"each", x.getEach()}, {"fixed", x.getFixed()}, {"implicit", x.getImplicit()}, {"e", expr(b->getTerminator()->getOperand(0))}});
      } else if (auto x = mlir::dyn_cast<BindingEquationOp>(op)) {
        auto *b = &x.getBodyRegion().front();
        bindings.push_back(json::Object{{"n", x.getVariable()}, {"e", expr(b->getTerminator()->getOperand(0))}});
      } else if (auto x = mlir::dyn_cast<InitialOp>(op)) {
        equations(x.getBodyRegion().front(), init, {});
        x.getBodyRegion().front().walk([&](AlgorithmOp a) { ialg.push_back(stmts(*a.getBody())); });
      } else if (auto x = mlir::dyn_cast<DynamicOp>(op)) {
        equations(x.getBodyRegion().front(), dyn, {});
        x.getBodyRegion().front().walk([&](AlgorithmOp a) { dalg.push_back(stmts(*a.getBody())); });
      } else if (auto x = mlir::dyn_cast<ScheduleOp>(op)) {
        json::Array g;
        for (auto &o2 : *x.getBody()) {
          mlir::Block *b = nullptr;
          if (auto i = mlir::dyn_cast<InitialOp>(o2))
            b = &i.getBodyRegion().front();
          else if (auto d = mlir::dyn_cast<DynamicOp>(o2))
            b = &d.getBodyRegion().front();
          else {
            no(o2.getName().getStringRef());
            continue;
          }
          for (auto &v : groups(*b))
            g.push_back(std::move(v));
        }
        scheds.push_back(json::Object{{"n", x.getSymName()}, {"g", std::move(g)}});
      } else if (mlir::isa<EquationTemplateOp>(op)) {
      } else
        no(op.getName().getStringRef());
    }
    auto &dm = m.getProperties().derivativesMap;
    for (auto &v : dm.getDerivedVariables()) {
      auto d = dm.getDerivative(v);
      auto ix = dm.getDerivedIndices(v);
      ders.push_back(json::Object{{"n", symPath(v)}, {"d", d ? symPath(*d) : ""}, {"ix", ix ? points(ix->get()) : json::Array()}});
    }
    return json::Object{{"vars", std::move(vars)}, {"starts", std::move(starts)}, {"bindings", std::move(bindings)}, {"init", std::move(init)}, {"dyn", std::move(dyn)},
                        {"ialg", std::move(ialg)}, {"dalg", std::move(dalg)}, {"der", std::move(ders)}, {"scheds", std::move(scheds)}};
  }

  json::Object function(FunctionOp f) {
    json::Array vars, body, defs;
    for (auto &op : *f.getBody()) {
      if (auto x = mlir::dyn_cast<VariableOp>(op))
        vars.push_back(variable(x));
      else if (auto x = mlir::dyn_cast<AlgorithmOp>(op)) {
        for (auto &s : stmts(*x.getBody()))
          body.push_back(std::move(s));
      } else if (auto x = mlir::dyn_cast<DefaultOp>(op)) {
        defs.push_back(json::Object{{"n", x.getVariable()}, {"e", expr(x.getBodyRegion().front().getTerminator()->getOperand(0))}});
      } else
        no(op.getName().getStringRef());
    }
    return json::Object{{"n", f.getSymName()}, {"vars", std::move(vars)}, {"defs", std::move(defs)}, {"b", std::move(body)}};
  }

  // What is left after the conversion to the runtime: memory, procedures, the
  // steps of the life of the program, and what it says of its variables.
  json::Object program(mlir::ModuleOp m) {
    json::Array globals, procs, funcs, scheds, icb, ice, dyb, dye, init, names, ranks, printable, dermap, getters;
    json::Object rt;
    auto proc = [&](llvm::StringRef n, mlir::Region &r) {
      json::Array ks;
      for (auto a : r.getArguments())
        ks.push_back(bind(a));
      procs.push_back(json::Object{{"n", n}, {"ks", std::move(ks)}, {"b", stmts(r.front())}});
    };
    auto append = [&](json::Array &to, mlir::Block &b) {
      for (auto &s : stmts(b))
        to.push_back(std::move(s));
    };
    rt["start"] = json::Array(), rt["end"] = json::Array();
    for (auto &op : *m.getBody()) {
      if (auto x = mlir::dyn_cast<GlobalVariableOp>(op))
        globals.push_back(json::Object{{"n", "$" + x.getSymName().str()}, {"t", code(x.getType())}, {"sh", shapeOf(x.getType())}});
      else if (auto x = mlir::dyn_cast<mlir::runtime::FunctionOp>(op)) {
        if (!x.isDeclaration())
          proc(x.getSymName(), x->getRegion(0));
      } else if (auto x = mlir::dyn_cast<mlir::runtime::EquationFunctionOp>(op))
        proc(x.getSymName(), x.getBody());
      else if (auto x = mlir::dyn_cast<EquationFunctionOp>(op))
        proc(x.getSymName(), x.getBody());
      else if (auto x = mlir::dyn_cast<mlir::func::FuncOp>(op))
        proc(x.getSymName(), x.getBody());
      else if (auto x = mlir::dyn_cast<mlir::runtime::VariableGetterOp>(op))
        proc(x.getSymName(), x.getBodyRegion());
      else if (auto x = mlir::dyn_cast<FunctionOp>(op))
        funcs.push_back(function(x));
      else if (auto x = mlir::dyn_cast<mlir::runtime::SchedulerOp>(op))
        scheds.push_back(x.getSymName());
      else if (auto x = mlir::dyn_cast<mlir::runtime::ICModelBeginOp>(op))
        append(icb, *x.getBody());
      else if (auto x = mlir::dyn_cast<mlir::runtime::ICModelEndOp>(op))
        append(ice, *x.getBody());
      else if (auto x = mlir::dyn_cast<mlir::runtime::DynamicModelBeginOp>(op))
        append(dyb, *x.getBody());
      else if (auto x = mlir::dyn_cast<mlir::runtime::DynamicModelEndOp>(op))
        append(dye, *x.getBody());
      else if (auto x = mlir::dyn_cast<mlir::runtime::InitFunctionOp>(op))
        append(init, x.getBodyRegion().front());
      else if (auto x = mlir::dyn_cast<mlir::runtime::ModelNameOp>(op))
        rt["name"] = x.getName();
      else if (auto x = mlir::dyn_cast<mlir::runtime::NumberOfVariablesOp>(op))
        rt["count"] = (int64_t)x.getNumberOfVariables();
      else if (auto x = mlir::dyn_cast<mlir::runtime::StartTimeOp>(op)) {
        if (auto t = x.getStartTimeAttr())
          rt["start"] = json::Array{residue(t.getValueAsDouble())};
      } else if (auto x = mlir::dyn_cast<mlir::runtime::EndTimeOp>(op)) {
        if (auto t = x.getEndTimeAttr())
          rt["end"] = json::Array{residue(t.getValueAsDouble())};
      } else if (auto x = mlir::dyn_cast<mlir::runtime::VariableNamesOp>(op)) {
        for (auto a : x.getNames().getAsRange<mlir::StringAttr>())
          names.push_back(a.getValue());
      } else if (auto x = mlir::dyn_cast<mlir::runtime::VariableRanksOp>(op)) {
        for (auto a : x.getRanks().getAsRange<mlir::IntegerAttr>())
          ranks.push_back(a.getInt());
      } else if (auto x = mlir::dyn_cast<mlir::runtime::DerivativesMapOp>(op)) {
        for (auto a : x.getDerivatives().getAsRange<mlir::IntegerAttr>())
          dermap.push_back(a.getInt());
      } else if (auto x = mlir::dyn_cast<mlir::runtime::VariableGettersOp>(op)) {
        for (auto a : x.getNames().getAsRange<mlir::FlatSymbolRefAttr>())
          getters.push_back(a.getValue());
      } else if (auto x = mlir::dyn_cast<mlir::runtime::PrintableIndicesOp>(op)) {
        for (const auto &i : x.getProperties().indices) {
          if (i.isa<bool>())
            printable.push_back(json::Object{{"scalar", true}, {"on", i.get<bool>()}, {"ix", json::Array()}});
          else
            printable.push_back(json::Object{{"scalar", false}, {"on", false}, {"ix", points(i.get<mlir::runtime::IndexSet>())}});
        }
      } else if (!mlir::isa<mlir::runtime::DeinitFunctionOp, RecordOp>(op))
        no(op.getName().getStringRef());
    }
    procs.push_back(json::Object{{"n", "#init"}, {"ks", json::Array()}, {"b", std::move(init)}});
    procs.push_back(json::Object{{"n", "#icBegin"}, {"ks", json::Array()}, {"b", std::move(icb)}});
    procs.push_back(json::Object{{"n", "#icEnd"}, {"ks", json::Array()}, {"b", std::move(ice)}});
    procs.push_back(json::Object{{"n", "#dynBegin"}, {"ks", json::Array()}, {"b", std::move(dyb)}});
    procs.push_back(json::Object{{"n", "#dynEnd"}, {"ks", json::Array()}, {"b", std::move(dye)}});
    rt["names"] = std::move(names), rt["ranks"] = std::move(ranks), rt["printable"] = std::move(printable);
    rt["dermap"] = std::move(dermap), rt["getters"] = std::move(getters);
    rt["globals"] = std::move(globals), rt["procs"] = std::move(procs), rt["funcs"] = std::move(funcs), rt["scheds"] = std::move(scheds);
    return rt;
  }

  json::Object module(mlir::ModuleOp m) {
    bool rest = false;
    m.walk([&](mlir::runtime::ModelNameOp) { rest = true; });
    if (rest)
      return program(m);
    json::Array models, funcs, eqf, rtf, recs;
    m.walk([&](mlir::Operation *op) {
      if (auto x = mlir::dyn_cast<ModelOp>(op))
        models.push_back(model(x));
      else if (auto x = mlir::dyn_cast<FunctionOp>(op))
        funcs.push_back(function(x));
      else if (auto x = mlir::dyn_cast<RecordOp>(op)) {
        json::Array vars;
        for (auto &o2 : *x.getBody())
          if (auto y = mlir::dyn_cast<VariableOp>(o2))
            vars.push_back(variable(y));
        recs.push_back(json::Object{{"n", x.getSymName()}, {"vars", std::move(vars)}});
      } else if (auto x = mlir::dyn_cast<EquationFunctionOp>(op)) {
        json::Array ks;
        for (auto a : x.getBody().getArguments())
          ks.push_back(bind(a));
        eqf.push_back(json::Object{{"n", x.getSymName()}, {"ks", std::move(ks)}, {"b", stmts(x.getBody().front())}});
      } else if (auto x = mlir::dyn_cast<mlir::runtime::FunctionOp>(op)) {
        if (x.isDeclaration())
          return;
        json::Array ks;
        for (auto a : x->getRegion(0).getArguments())
          ks.push_back(bind(a));
        rtf.push_back(json::Object{{"n", x.getSymName()}, {"ks", std::move(ks)}, {"b", stmts(x->getRegion(0).front())}});
      }
    });
    return json::Object{{"models", std::move(models)}, {"funcs", std::move(funcs)}, {"eqf", std::move(eqf)}, {"rtf", std::move(rtf)}, {"recs", std::move(recs)}};
  }
};
} // namespace mo
