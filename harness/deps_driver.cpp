// Dependencies among array equations, their cycles and their schedules.
#include "afio.h"
#include "marco/Modeling/ArrayVariablesDependencyGraph.h"
#include "marco/Modeling/DependencyGraph.h"
#include "marco/Modeling/Scheduling.h"

struct Var {
  int64_t id;
  int64_t getId() const { return id; }
};
using Fn = std::shared_ptr<AccessFunction>;
struct Eq {
  int64_t id;
  IndexSet indices;
  std::vector<std::pair<int64_t, Fn>> accesses;
  size_t own; // the access to the matched variable
  IndexSet matched() const { return accesses[own].second->map(indices); }
};
struct Group {
  std::vector<Eq *> elements;
  const std::vector<std::unique_ptr<Eq>> *all;
};
template <typename T>
static std::vector<T> accessesOf(const Eq *e, bool writes) {
  // The same classification the bridge of the compiler makes.
  std::vector<T> r;
  IndexSet m = e->matched();
  for (const auto &a : e->accesses) {
    bool w = a.first == e->accesses[e->own].first && m.contains(a.second->map(e->indices));
    if (w == writes)
      r.push_back(T(Var{a.first}, a.second->clone()));
  }
  return r;
}
namespace marco::modeling::dependency {
template <> struct VariableTraits<Var> {
  using Id = int64_t;
  static Id getId(const Var *v) { return v->id; }
};
template <> struct EquationTraits<Eq *> {
  using Id = int64_t;
  using VariableType = Var;
  using AccessProperty = internal::dependency::EmptyAccessProperty;
  using A = Access<Var, AccessProperty>;
  static Id getId(Eq *const *e) { return (*e)->id; }
  static size_t getNumOfIterationVars(Eq *const *e) { return (*e)->indices.rank(); }
  static IndexSet getIterationRanges(Eq *const *e) { return (*e)->indices; }
  static std::vector<A> getWrites(Eq *const *e) { return accessesOf<A>(*e, true); }
  static std::vector<A> getReads(Eq *const *e) { return accessesOf<A>(*e, false); }
};
template <> struct SCCTraits<Group *> {
  using ElementRef = Eq *;
  static std::vector<Eq *> getElements(Group *const *g) { return (*g)->elements; }
  static std::vector<Eq *> getDependencies(Group *const *g, Eq *e) {
    using A = EquationTraits<Eq *>::A;
    std::vector<Eq *> r;
    for (const A &read : accessesOf<A>(e, false)) {
      IndexSet region = read.getAccessFunction().map(e->indices);
      for (const auto &o : *(*g)->all)
        if (o->accesses[o->own].first == read.getVariable() && region.overlaps(o->matched()))
          r.push_back(o.get());
    }
    return r;
  }
};
} // namespace marco::modeling::dependency

struct System {
  std::vector<int64_t> vars;
  std::vector<std::unique_ptr<Eq>> eqs;
  std::vector<Eq *> ptrs() const {
    std::vector<Eq *> r;
    for (const auto &e : eqs)
      r.push_back(e.get());
    return r;
  }
};
static json::Object saved;
static mlir::MLIRContext *single, *multi;

static System load() {
  System s;
  for (const auto &v : arr(saved, "vars"))
    s.vars.push_back(i(v));
  for (const auto &ev : arr(saved, "eqs")) {
    const json::Object &o = *ev.getAsObject();
    auto e = std::make_unique<Eq>();
    e->id = num(o, "id");
    e->indices = toSet(arr(o, "s"));
    e->own = num(o, "own");
    for (const auto &a : arr(o, "acc"))
      e->accesses.emplace_back(num(*a.getAsObject(), "v"), fun(*a.getAsObject(), "f"));
    s.eqs.push_back(std::move(e));
  }
  return s;
}
static json::Object piece(const Eq &e) {
  return json::Object{{"e", e.id}, {"p", fromSetPoints(e.indices)}};
}
static const char *name(scheduling::Direction d) {
  switch (d) {
  case scheduling::Direction::Any:
    return "any";
  case scheduling::Direction::Forward:
    return "fwd";
  case scheduling::Direction::Backward:
    return "bwd";
  default:
    return "unk";
  }
}
static std::vector<std::vector<std::pair<Eq *, IndexSet>>> pieces(const System &s, mlir::MLIRContext *c) {
  DependencyGraph<Var, Eq *> g(c);
  g.addEquations(s.ptrs());
  std::vector<std::vector<std::pair<Eq *, IndexSet>>> r;
  for (const auto &scc : g.getSCCs()) {
    r.emplace_back();
    for (const auto &view : scc)
      r.back().emplace_back(g[*view], view.getIndices());
  }
  return r;
}
static void handle(const json::Object &cmd, json::Object &out) {
  std::string op = str(cmd, "op");
  if (op == "sys") {
    saved = json::Object(cmd);
    return;
  }
  ctx = cmd.getBoolean("threads").value_or(false) ? multi : single;
  System s = load();
  if (op == "graph") {
    ArrayEquationsDependencyGraph<Var, Eq *> g(ctx);
    g.addEquations(s.ptrs());
    json::Array nodes, edges, sccs;
    for (auto v : llvm::make_range(g.equationsBegin(), g.equationsEnd()))
      nodes.push_back(g[v]->id);
    for (const auto &scc : g.getSCCs()) {
      json::Array one;
      for (auto v : scc) {
        one.push_back(g[v]->id);
        using T = dependency::SCCTraits<std::decay_t<decltype(scc)>>;
        for (auto w : T::getDependencies(&scc, v))
          edges.push_back(json::Array{g[v]->id, g[w]->id});
      }
      sccs.push_back(std::move(one));
    }
    out["nodes"] = std::move(nodes);
    out["edges"] = std::move(edges);
    out["sccs"] = std::move(sccs);
    // The order of the components.
    SCCsDependencyGraph<ArrayEquationsDependencyGraph<Var, Eq *>::SCC> order;
    auto all = g.getSCCs();
    order.addSCCs(all);
    json::Array post, reverse;
    for (auto d : order.postOrder()) {
      json::Array one;
      for (auto v : order[d])
        one.push_back(g[v]->id);
      post.push_back(std::move(one));
    }
    for (auto d : order.reversePostOrder()) {
      json::Array one;
      for (auto v : order[d])
        one.push_back(g[v]->id);
      reverse.push_back(std::move(one));
    }
    out["post"] = std::move(post);
    out["rev"] = std::move(reverse);
  } else if (op == "varsgraph") {
    ArrayVariablesDependencyGraph<Var, Eq *> g(ctx);
    std::vector<Var> vs;
    for (int64_t v : s.vars)
      vs.push_back(Var{v});
    g.addVariables(vs);
    g.addEquations(s.ptrs());
    json::Array nodes, edges, sccs;
    for (auto v : llvm::make_range(g.variablesBegin(), g.variablesEnd()))
      nodes.push_back(g[v].id);
    for (const auto &scc : g.getSCCs()) {
      json::Array one;
      for (auto v : scc) {
        one.push_back(g[v].id);
        using T = dependency::SCCTraits<std::decay_t<decltype(scc)>>;
        for (auto w : T::getDependencies(&scc, v))
          edges.push_back(json::Array{g[v].id, g[w].id});
      }
      sccs.push_back(std::move(one));
    }
    out["nodes"] = std::move(nodes);
    out["edges"] = std::move(edges);
    out["sccs"] = std::move(sccs);
  } else if (op == "scalar") {
    ScalarEquationsDependencyGraph<Var, Eq *> g(ctx);
    g.addEquations(s.ptrs());
    json::Array order;
    for (auto d : g.postOrder())
      order.push_back(json::Object{{"e", g[d].getProperty()->id}, {"p", fromPoint(g[d].getIndex())}});
    out["order"] = std::move(order);
  } else if (op == "cycles") {
    json::Array sccs;
    for (const auto &scc : pieces(s, ctx)) {
      json::Array one;
      for (const auto &p : scc)
        one.push_back(json::Object{{"e", p.first->id}, {"p", fromSetPoints(p.second)}});
      sccs.push_back(std::move(one));
    }
    out["sccs"] = std::move(sccs);
  } else if (op == "sched") {
    // The equations of the components, in the state the scheduler sees them.
    std::vector<std::unique_ptr<Eq>> all;
    std::vector<std::unique_ptr<Group>> groups;
    auto group = [&](std::vector<std::pair<Eq *, IndexSet>> elements) {
      auto g = std::make_unique<Group>();
      g->all = &all;
      for (auto &p : elements) {
        auto e = std::make_unique<Eq>(*p.first);
        e->indices = p.second;
        g->elements.push_back(e.get());
        all.push_back(std::move(e));
      }
      groups.push_back(std::move(g));
    };
    if (str(cmd, "from") == "pieces") {
      for (auto &scc : pieces(s, ctx))
        group(scc);
    } else {
      ArrayEquationsDependencyGraph<Var, Eq *> g(ctx);
      g.addEquations(s.ptrs());
      for (const auto &scc : g.getSCCs()) {
        std::vector<std::pair<Eq *, IndexSet>> es;
        for (auto v : scc)
          es.emplace_back(g[v], g[v]->indices);
        group(es);
      }
    }
    if (cmd.getBoolean("rev").value_or(false))
      std::reverse(groups.begin(), groups.end());
    std::vector<Group *> ptrs;
    for (auto &g : groups)
      ptrs.push_back(g.get());
    json::Array given, sched;
    for (auto &g : groups) {
      json::Array one;
      for (Eq *e : g->elements)
        one.push_back(piece(*e));
      given.push_back(std::move(one));
    }
    for (const auto &scc : Scheduler<Var, Group *>(ctx).schedule(ptrs)) {
      json::Array one;
      for (const auto &se : scc) {
        json::Array dirs;
        for (auto d : se.getIterationDirections())
          dirs.push_back(name(d));
        one.push_back(json::Object{{"e", se.getEquation()->id}, {"p", fromSetPoints(se.getIndexes())}, {"d", std::move(dirs)}});
      }
      sched.push_back(std::move(one));
    }
    out["given"] = std::move(given);
    out["sched"] = std::move(sched);
  }
}
int main(int argc, char **argv) {
  mlir::MLIRContext c(mlir::MLIRContext::Threading::DISABLED), m;
  ctx = single = &c;
  multi = &m;
  return run(argc, argv, handle, 20);
}
