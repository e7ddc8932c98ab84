// Incidence matrices and local matching solutions.
#include "afio.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
#include "marco/Modeling/MCIM.h"
#include <map>

using namespace marco::modeling::internal;

static std::map<int64_t, MCIM> regs;

static json::Array entries(const MCIM &m) {
  json::Array a;
  for (auto it = m.indicesBegin(), e = m.indicesEnd(); it != e; ++it) {
    auto [eq, var] = *it;
    if (m.get(eq, var))
      a.push_back(json::Array{fromPoint(eq), fromPoint(var)});
  }
  return a;
}
static void show(const MCIM &m, json::Object &out) {
  int64_t cells = 0;
  for (auto it = m.indicesBegin(), e = m.indicesEnd(); it != e; ++it)
    ++cells;
  out["cells"] = cells;
  out["ent"] = entries(m);
  out["es"] = fromSetPoints(m.getEquationSpace());
  out["vs"] = fromSetPoints(m.getVariableSpace());
  out["empty"] = m.empty();
  out["rows"] = fromSetPoints(m.flattenRows());
  out["cols"] = fromSetPoints(m.flattenColumns());
}
static std::shared_ptr<const IndexSet> space(const json::Object &cmd, llvm::StringRef k) {
  return std::make_shared<const IndexSet>(toSet(arr(cmd, k)));
}
template <typename S>
static void solutions(S &sols, const IndexSet &es, const IndexSet &vs, json::Object &out) {
  json::Array a;
  bool spaces = true, again = true;
  int64_t n = sols.size();
  out["size"] = n;
  // The last one first: solutions are computed on demand.
  json::Array last;
  if (n > 0)
    last = entries(sols[n - 1]);
  for (MCIM &m : sols) {
    spaces &= m.getEquationSpace() == es && m.getVariableSpace() == vs;
    a.push_back(entries(m));
  }
  if (n > 0 && !a.empty())
    again = a.back() == json::Value(std::move(last));
  out["spaces"] = spaces;
  out["again"] = again;
  out["sols"] = std::move(a);
}

static void handle(const json::Object &cmd, json::Object &out) {
  std::string op = str(cmd, "op");
  if (op == "reset") {
    regs.clear();
    return;
  }
  int64_t r = num(cmd, "r"), a = num(cmd, "a"), b = num(cmd, "b");
  auto R = [&](int64_t k) -> MCIM & { return regs.find(k)->second; };
  auto put = [&](MCIM m) { regs.insert_or_assign(r, std::move(m)); };
  if (op == "new") {
    if (cmd.getBoolean("boxes").value_or(false))
      put(MCIM(toBox(arr(cmd, "eqs")[0]), toBox(arr(cmd, "vars")[0])));
    else
      put(MCIM(toSet(arr(cmd, "eqs")), toSet(arr(cmd, "vars"))));
  } else if (op == "copy") {
    if (regs.count(r))
      R(r) = R(a);
    else
      put(MCIM(R(a)));
  } else if (op == "move") {
    MCIM tmp(R(a));
    put(std::move(tmp));
  } else if (op == "apply") {
    IndexSet s = toSet(arr(cmd, "s"));
    AF f = fun(cmd, "f");
    if (arr(cmd, "s").size() == 1)
      R(r).apply(toBox(arr(cmd, "s")[0]), *f);
    else
      R(r).apply(s, *f);
  } else if (op == "applyAll") {
    R(r).apply(*fun(cmd, "f"));
  } else if (op == "set") {
    R(r).set(toPoint(*cmd.get("e")), toPoint(*cmd.get("v")));
  } else if (op == "unset") {
    R(r).unset(toPoint(*cmd.get("e")), toPoint(*cmd.get("v")));
  } else if (op == "addM") {
    R(r) += R(a);
  } else if (op == "subM") {
    R(r) -= R(a);
  } else if (op == "plus") {
    put(R(a) + R(b));
  } else if (op == "minus") {
    put(R(a) - R(b));
  } else if (op == "clear") {
    R(r).clear();
  } else if (op == "filterRows") {
    put(R(a).filterRows(toSet(arr(cmd, "s"))));
  } else if (op == "filterColumns") {
    put(R(a).filterColumns(toSet(arr(cmd, "s"))));
  } else if (op == "withSpace") {
    put(R(a).withSpace(space(cmd, "eqs"), space(cmd, "vars")));
  } else if (op == "setEq") {
    R(r).setEquationSpace(space(cmd, "eqs"));
  } else if (op == "setVar") {
    R(r).setVariableSpace(space(cmd, "vars"));
  } else if (op == "eq") {
    out["eq"] = R(a) == R(b);
    out["ne"] = R(a) != R(b);
    return;
  } else if (op == "split") {
    json::Array s;
    bool spaces = true;
    for (const MCIM &m : R(a).splitGroups()) {
      s.push_back(entries(m));
      spaces &= m.getEquationSpace() == R(a).getEquationSpace() &&
                m.getVariableSpace() == R(a).getVariableSpace();
    }
    out["sols"] = std::move(s);
    out["spaces"] = spaces;
    return;
  } else if (op == "solveM") {
    auto sols = solveLocalMatchingProblem(R(a));
    solutions(sols, R(a).getEquationSpace(), R(a).getVariableSpace(), out);
    return;
  } else if (op == "solve") {
    std::vector<AF> fs;
    for (const auto &f : arr(cmd, "fs")) {
      json::Object o;
      o["f"] = f;
      fs.push_back(fun(o, "f"));
    }
    IndexSet es = toSet(arr(cmd, "eqs")), vs = toSet(arr(cmd, "vars"));
    auto sols = solveLocalMatchingProblem(es, vs, fs);
    solutions(sols, es, vs, out);
    return;
  }
  show(R(r), out);
}

int main(int argc, char **argv) {
  mlir::MLIRContext c;
  ctx = &c;
  return run(argc, argv, handle, 10);
}
