// Programs written as text (two styles) and bytecode, read back, and looked at.
#pragma once
#include "irjson.h"
#include "mlir/Bytecode/BytecodeWriter.h"
#include <cstring>
#include <map>

namespace mo {
inline std::string bits(const llvm::APFloat &v) { return llvm::toString(v.bitcastToAPInt(), 16, false); }
inline json::Object setJson(const mlir::bmodelica::IndexSet &s) {
  auto p = points(s);
  return json::Object{{"n", (int64_t)p.size()}, {"p", std::move(p)}};
}

// The annotations of the operations that carry some, one entry per operation.
inline json::Array annotations(mlir::ModuleOp m) {
  using namespace mlir::bmodelica;
  json::Array out;
  m->walk<mlir::WalkOrder::PreOrder>([&](mlir::Operation *op) {
    json::Array sets, names, words;
    std::string k;
    auto add = [&](const Variable &v) {
      names.push_back(v.name ? symPath(v.name) : std::string());
      sets.push_back(setJson(v.indices));
    };
    if (auto x = mlir::dyn_cast<mlir::runtime::SchedulerAddEquationOp>(op)) {
      k = "add_equation";
      sets.push_back(setJson(x.getProperties().indices));
      words.push_back(x.getIndependentIndices() ? "true" : "false");
    } else if (auto x = mlir::dyn_cast<EquationCallOp>(op)) {
      k = "equation_call";
      sets.push_back(setJson(x.getProperties().indices));
      words.push_back(x.getParallelizable() ? "true" : "false");
    } else if (auto x = mlir::dyn_cast<EquationInstanceOp>(op)) {
      k = "equation_instance";
      sets.push_back(setJson(x.getProperties().indices));
      add(x.getProperties().match);
      for (auto s : x.getProperties().schedule)
        words.push_back(s == Schedule::Any ? "any" : s == Schedule::Forward ? "forward" : s == Schedule::Backward ? "backward" : "unknown");
    } else if (auto x = mlir::dyn_cast<ScheduleBlockOp>(op)) {
      k = "schedule_block";
      for (auto &v : x.getProperties().writtenVariables)
        add(v);
      names.push_back("|");
      for (auto &v : x.getProperties().readVariables)
        add(v);
      words.push_back(x.getParallelizable() ? "true" : "false");
    } else if (auto x = mlir::dyn_cast<mlir::runtime::PrintableIndicesOp>(op)) {
      k = "printable_indices";
      for (auto &p : x.getProperties().indices) {
        words.push_back(p.isa<bool>() ? (p.get<bool>() ? "true" : "false") : "set");
        if (!p.isa<bool>())
          sets.push_back(setJson(p.get<mlir::runtime::IndexSet>()));
      }
    } else if (auto x = mlir::dyn_cast<ModelOp>(op)) {
      auto &d = x.getProperties().derivativesMap;
      k = "model";
      std::map<std::string, mlir::SymbolRefAttr> vars;
      for (auto v : d.getDerivedVariables())
        vars[symPath(v)] = v;
      for (auto &[n, v] : vars) {
        auto der = d.getDerivative(v);
        auto back = d.getDerivedVariable(*der);
        names.push_back(n);
        names.push_back(symPath(*der));
        names.push_back(back ? symPath(*back) : std::string());
        auto ix = d.getDerivedIndices(v);
        sets.push_back(setJson(ix ? ix->get() : mlir::bmodelica::IndexSet()));
      }
      if (vars.empty() && !op->hasAttr("mark"))
        return;
    } else
      return;
    out.push_back(json::Object{{"k", k}, {"sets", std::move(sets)}, {"names", std::move(names)}, {"words", std::move(words)}});
  });
  return out;
}

// An attribute, without relying on its own printer where the values are of interest.
inline std::string attrText(mlir::Attribute a) {
  using namespace mlir::bmodelica;
  std::string s;
  llvm::raw_string_ostream os(s);
  auto range = [&](const mlir::modeling::Range &r) { os << r.getBegin() << ".." << r.getEnd(); };
  if (auto x = mlir::dyn_cast<BooleanAttr>(a))
    os << "bool " << (x.getValue() ? 1 : 0) << " " << x.getType();
  else if (auto x = mlir::dyn_cast<IntegerAttr>(a))
    os << "int " << x.getValue().getSExtValue() << " " << x.getType();
  else if (auto x = mlir::dyn_cast<RealAttr>(a))
    os << "real " << bits(x.getValue()) << " " << x.getType();
  else if (auto x = mlir::dyn_cast<DenseBooleanElementsAttr>(a)) {
    os << "bools";
    for (bool v : x.getValues())
      os << " " << (v ? 1 : 0);
    os << " " << x.getType();
  } else if (auto x = mlir::dyn_cast<DenseIntegerElementsAttr>(a)) {
    os << "ints";
    for (auto v : x.getValues())
      os << " " << v;
    os << " " << x.getType();
  } else if (auto x = mlir::dyn_cast<DenseRealElementsAttr>(a)) {
    os << "reals";
    for (auto &v : x.getValues())
      os << " " << bits(v);
    os << " " << x.getType();
  } else if (auto x = mlir::dyn_cast<IntegerRangeAttr>(a))
    os << "irange " << x.getLowerBound() << " " << x.getUpperBound() << " " << x.getStep() << " " << x.getType();
  else if (auto x = mlir::dyn_cast<RealRangeAttr>(a))
    os << "rrange " << bits(x.getLowerBound()) << " " << bits(x.getUpperBound()) << " " << bits(x.getStep()) << " " << x.getType();
  else if (auto x = mlir::dyn_cast<EquationPathAttr>(a)) {
    os << "path " << (x.getValue().getEquationSide() == EquationPath::LEFT ? "L" : "R");
    for (auto v : x.getValue())
      os << " " << v;
  } else if (auto x = mlir::dyn_cast<FunctionDerivativeAttr>(a))
    os << "func_der " << x.getName() << " " << x.getOrder();
  else if (auto x = mlir::dyn_cast<mlir::modeling::RangeAttr>(a)) {
    os << "range ";
    range(x.getValue());
  } else if (auto x = mlir::dyn_cast<mlir::modeling::MultidimensionalRangeAttr>(a)) {
    os << "box";
    for (size_t d = 0; d < x.getValue().rank(); ++d) {
      os << " ";
      range(x.getValue()[d]);
    }
  } else if (auto x = mlir::dyn_cast<mlir::ArrayAttr>(a)) {
    os << "[";
    for (auto e : x)
      os << attrText(e) << "; ";
    os << "]";
  } else
    os << a;
  return s;
}

// Everything of a program but its annotations: one line per operation.
struct Structure {
  json::Array lines;
  llvm::DenseMap<mlir::Value, int64_t> ids;
  int64_t next = 0;
  std::string id(mlir::Value v) { return std::to_string(ids.try_emplace(v, ids.size()).first->second); }
  void op(mlir::Operation *o, int depth) {
    std::string s;
    llvm::raw_string_ostream os(s);
    os << depth << " " << o->getName().getStringRef();
    for (auto v : o->getOperands())
      os << " %" << id(v);
    os << " ->";
    for (auto v : o->getResults())
      os << " %" << id(v) << ":" << v.getType();
    static const char *apart[] = {"indices", "match", "schedule", "writtenVariables", "readVariables", "derivativesMap"};
    for (auto a : o->getAttrDictionary()) {
      auto n = a.getName().getValue();
      if (n == "operandSegmentSizes" || n == "resultSegmentSizes" || std::any_of(std::begin(apart), std::end(apart), [&](const char *x) { return n == x; }))
        continue;
      os << " " << n << "=" << attrText(a.getValue());
    }
    for (auto *b : o->getSuccessors())
      os << " ^" << std::distance(b->getParent()->begin(), b->getIterator());
    lines.push_back(s);
    int64_t k = 0;
    for (auto &r : o->getRegions()) {
      for (auto &b : r) {
        std::string h = std::to_string(depth) + " region " + std::to_string(k);
        for (auto v : b.getArguments()) {
          std::string t;
          llvm::raw_string_ostream ts(t);
          ts << v.getType();
          h += " %" + id(v) + ":" + t;
        }
        lines.push_back(h);
        for (auto &x : b)
          op(&x, depth + 1);
      }
      ++k;
    }
  }
};

inline json::Object look(mlir::ModuleOp m, bool structure) {
  json::Object o;
  o["ann"] = annotations(m);
  json::Array attrs;
  for (auto a : m->getDiscardableAttrs())
    attrs.push_back(a.getName().str() + " " + attrText(a.getValue()));
  o["attrs"] = std::move(attrs);
  if (structure) {
    Structure s;
    s.op(m, 0);
    o["lines"] = std::move(s.lines);
  } else
    o["lines"] = json::Array();
  return o;
}

// Writes the program in three ways and reads it again.
inline json::Array channels(mlir::ModuleOp m, bool structure, bool verify, int &errors) {
  json::Array out;
  for (const char *n : {"pretty", "generic", "bytecode"}) {
    std::string text;
    llvm::raw_string_ostream os(text);
    bool written = true;
    int before = errors;
    if (!strcmp(n, "bytecode"))
      written = mlir::succeeded(mlir::writeBytecodeToFile(m, os));
    else {
      mlir::OpPrintingFlags f;
      f.assumeVerified();
      if (!strcmp(n, "generic"))
        f.printGenericOpForm();
      m->print(os, f);
    }
    json::Object c;
    c["n"] = n;
    mlir::ParserConfig cfg(m->getContext(), verify);
    mlir::OwningOpRef<mlir::ModuleOp> r;
    if (written)
      r = mlir::parseSourceString<mlir::ModuleOp>(text, cfg);
    c["ok"] = (bool)r;
    if (getenv("SERIAL_SHOW") && strcmp(n, "bytecode"))
      llvm::errs() << text << "\n";
    c["val"] = r ? look(*r, structure) : json::Object{{"ann", json::Array()}, {"attrs", json::Array()}, {"lines", json::Array()}};
    c["errors"] = errors - before;
    out.push_back(std::move(c));
  }
  return out;
}
} // namespace mo
