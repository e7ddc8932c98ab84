// The matching problem of array equations.
#include "afio.h"
#include "marco/Modeling/Matching.h"
#include <map>

struct Var {
  int64_t id;
  IndexSet indices;
};
struct Eq {
  int64_t id;
  IndexSet indices;
  std::vector<std::pair<int64_t, std::shared_ptr<AccessFunction>>> accesses;
};
namespace marco::modeling::matching {
template <> struct VariableTraits<Var> {
  using Id = int64_t;
  static Id getId(const Var *v) { return v->id; }
  static size_t getRank(const Var *v) { return v->indices.rank(); }
  static IndexSet getIndices(const Var *v) { return v->indices; }
  static llvm::raw_ostream &dump(const Var *v, llvm::raw_ostream &os) { return os << v->id; }
};
template <> struct EquationTraits<Eq> {
  using Id = int64_t;
  using VariableType = Var;
  static Id getId(const Eq *e) { return e->id; }
  static size_t getNumOfIterationVars(const Eq *e) { return e->indices.rank(); }
  static IndexSet getIndices(const Eq *e) { return e->indices; }
  static std::vector<Access<int64_t>> getAccesses(const Eq *e) {
    std::vector<Access<int64_t>> r;
    for (const auto &a : e->accesses)
      r.emplace_back(a.first, a.second->clone());
    return r;
  }
  static llvm::raw_ostream &dump(const Eq *e, llvm::raw_ostream &os) { return os << e->id; }
};
} // namespace marco::modeling::matching

using G = MatchingGraph<Var, Eq>;
static std::vector<std::pair<bool, json::Object>> history;
static std::unique_ptr<G> graph;
static mlir::MLIRContext *single, *multi;

static void add(G &g, bool isEq, const json::Object &cmd) {
  if (!isEq) {
    g.addVariable(Var{num(cmd, "id"), toSet(arr(cmd, "s"))});
    return;
  }
  Eq e{num(cmd, "id"), toSet(arr(cmd, "s")), {}};
  for (const auto &a : arr(cmd, "acc"))
    e.accesses.emplace_back(num(*a.getAsObject(), "v"), fun(*a.getAsObject(), "f"));
  g.addEquation(std::move(e));
}
static void handle(const json::Object &cmd, json::Object &out) {
  std::string op = str(cmd, "op");
  if (op == "reset") {
    history.clear();
    graph = std::make_unique<G>(single);
  } else if (op == "var" || op == "eq") {
    history.emplace_back(op == "eq", cmd);
    add(*graph, op == "eq", cmd);
  } else if (op == "count") {
    out["ne"] = (int64_t)graph->getNumberOfScalarEquations();
    out["nv"] = (int64_t)graph->getNumberOfScalarVariables();
    json::Array es, vs;
    for (auto v : llvm::make_range(graph->variablesBegin(), graph->variablesEnd()))
      vs.push_back(((const G &)*graph).getVariable(v).getId().getBaseId());
    for (auto v : llvm::make_range(graph->equationsBegin(), graph->equationsEnd()))
      es.push_back(graph->getEquation(v).getId().getBaseId());
    out["es"] = std::move(es);
    out["vs"] = std::move(vs);
  } else if (op == "match") {
    // Every attempt starts from a graph of its own.
    mlir::MLIRContext *c = cmd.getBoolean("threads").value_or(false) ? multi : single;
    mlir::MLIRContext *saved = ctx;
    ctx = c;
    G g(c);
    for (const auto &h : history)
      add(g, h.first, h.second);
    matching::MatchingOptions o;
    o.enableLeafNodesSimplification = cmd.getBoolean("leaf").value_or(true);
    o.enableScalarization = cmd.getBoolean("scal").value_or(true);
    o.scalarAccessThreshold = num(cmd, "thr", 50) / 100.0;
    llvm::SmallVector<G::MatchingSolution> r;
    bool ok = g.match(r, o);
    ctx = saved;
    out["ok"] = ok;
    json::Array sol;
    if (ok)
      for (const auto &s : r)
        sol.push_back(json::Object{{"e", s.getEquation()},
                                   {"ei", fromSetPoints(s.getEquationIndices())},
                                   {"v", s.getVariable()},
                                   {"vi", fromSetPoints(s.getVariableIndices())}});
    out["sol"] = std::move(sol);
  }
}
int main(int argc, char **argv) {
  mlir::MLIRContext c(mlir::MLIRContext::Threading::DISABLED), m;
  ctx = single = &c;
  multi = &m;
  return run(argc, argv, handle, 20);
}
