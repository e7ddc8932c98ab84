// Histories over the graph containers: Graph.h, SingleEntry*Digraph.h.
#include "jsonio.h"
#include "marco/Modeling/Graph.h"
#include "marco/Modeling/SingleEntryDigraph.h"
#include "marco/Modeling/SingleEntryWeaklyConnectedDigraph.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SCCIterator.h"
#include <map>
#include <set>
using namespace drv;
using namespace marco::modeling;
using namespace marco::modeling::internal;

struct Prop {
  int64_t id = -1, val = 0;
};
static json::Array tag(const Prop &p) { return json::Array{p.id, p.val}; }

struct Any {
  virtual ~Any() = default;
  virtual void handle(const json::Object &cmd, json::Object &out) = 0;
};

template <typename G> struct Plain : Any {
  G g;
  std::map<int64_t, typename G::VertexDescriptor> v;
  std::map<int64_t, typename G::EdgeDescriptor> e;
  using VD = typename G::VertexDescriptor;
  using ED = typename G::EdgeDescriptor;
  template <typename R> json::Array vs(R r) {
    json::Array a;
    for (VD d : r) {
      json::Array t = tag(g[d]);
      auto it = v.find(g[d].id);
      // Is it the descriptor that was given out when the vertex was added?
      t.push_back(it != v.end() && it->second == d && !(it->second != d) && hash_value(it->second) == hash_value(d));
      a.push_back(std::move(t));
    }
    return a;
  }
  template <typename R> json::Array es(R r) {
    json::Array a;
    for (ED d : r) {
      const G &c = g;
      a.push_back(json::Array{g[d.from].id, g[d.to].id, c[d].id, c[d].val});
    }
    return a;
  }
  void handle(const json::Object &cmd, json::Object &out) override {
    std::string op = str(cmd, "op");
    int64_t x = num(cmd, "x");
    if (op == "addv")
      v[x] = g.addVertex(Prop{x, num(cmd, "val")});
    else if (op == "adde")
      e[x] = g.addEdge(v.at(num(cmd, "a")), v.at(num(cmd, "b")), Prop{x, num(cmd, "val")});
    else if (op == "rmv") {
      VD d = v.at(x);
      for (auto it = e.begin(); it != e.end();)
        it = it->second.from == d || it->second.to == d ? e.erase(it) : std::next(it);
      v.erase(x);
      g.removeVertex(d);
    } else if (op == "setv")
      g[v.at(x)].val = num(cmd, "val");
    else if (op == "sete")
      g[e.at(x)].val = num(cmd, "val");
    else if (op == "getv")
      out["val"] = static_cast<const G &>(g)[v.at(x)].val;
    else if (op == "gete")
      out["val"] = static_cast<const G &>(g)[e.at(x)].val;
    else if (op == "show") {
      auto even = [](const Prop &p) { return p.val % 2 == 0; };
      out["nv"] = (int64_t)g.verticesCount();
      out["ne"] = (int64_t)g.edgesCount();
      out["v"] = vs(g.getVertices());
      out["e"] = es(g.getEdges());
      out["fv"] = vs(llvm::make_range(g.verticesBegin(even), g.verticesEnd(even)));
      out["fe"] = es(llvm::make_range(g.edgesBegin(even), g.edgesEnd(even)));
      json::Array around;
      for (auto &p : v) {
        json::Object o{{"x", p.first}};
        o["out"] = es(g.getOutgoingEdges(p.second));
        o["fout"] = es(g.getOutgoingEdges(p.second, even));
        o["link"] = vs(g.getLinkedVertices(p.second));
        o["flink"] = vs(g.getLinkedVertices(p.second, even));
        around.push_back(std::move(o));
      }
      out["around"] = std::move(around);
    }
  }
};

template <typename G> struct Single : Any {
  G g;
  std::map<int64_t, typename G::VertexDescriptor> v;
  std::map<int64_t, typename G::EdgeDescriptor> e;
  using VD = typename G::VertexDescriptor;
  int64_t idOf(VD d) { return d == g.getEntryNode() ? -1 : g[d].id; }
  VD at(int64_t x) { return x == -1 ? g.getEntryNode() : v.at(x); }
  void handle(const json::Object &cmd, json::Object &out) override {
    std::string op = str(cmd, "op");
    int64_t x = num(cmd, "x");
    if (op == "addv")
      v[x] = g.addVertex(Prop{x, num(cmd, "val")});
    else if (op == "adde")
      e[x] = g.addEdge(at(num(cmd, "a")), at(num(cmd, "b")));
    else if (op == "setv")
      g[v.at(x)].val = num(cmd, "val");
    else if (op == "getv")
      out["val"] = static_cast<const G &>(g)[v.at(x)].val;
    else if (op == "show") {
      out["nv"] = (int64_t)g.size();
      json::Array vs, es, around;
      for (VD d : llvm::make_range(g.verticesBegin(), g.verticesEnd()))
        vs.push_back(tag(g[d]));
      for (auto d : g.getEdges())
        es.push_back(json::Array{idOf(d.from), idOf(d.to)});
      out["v"] = std::move(vs);
      out["e"] = std::move(es);
      auto show = [&](int64_t id, VD d) {
        json::Array o, l;
        for (auto q : llvm::make_range(g.outgoingEdgesBegin(d), g.outgoingEdgesEnd(d)))
          o.push_back(json::Array{idOf(q.from), idOf(q.to)});
        for (auto w : llvm::make_range(g.linkedVerticesBegin(d), g.linkedVerticesEnd(d)))
          l.push_back(idOf(w));
        around.push_back(json::Object{{"x", id}, {"out", std::move(o)}, {"link", std::move(l)}});
      };
      show(-1, g.getEntryNode());
      for (auto &p : v)
        show(p.first, p.second);
      out["around"] = std::move(around);
    } else if (op == "walk") {
      const G *p = &g;
      json::Array post, sccs;
      std::set<VD> seen;
      for (VD d : llvm::post_order_ext(p, seen))
        post.push_back(idOf(d));
      for (auto it = llvm::scc_begin(p), end = llvm::scc_end(p); it != end; ++it) {
        json::Array one;
        for (VD d : *it)
          one.push_back(idOf(d));
        sccs.push_back(std::move(one));
      }
      out["post"] = std::move(post);
      out["sccs"] = std::move(sccs);
    }
  }
};

static std::unique_ptr<Any> current;
int main(int argc, char **argv) {
  return run(argc, argv, [](const json::Object &cmd, json::Object &out) {
    if (str(cmd, "op") == "new") {
      std::string k = str(cmd, "kind");
      current.reset();
      if (k == "directed")
        current = std::make_unique<Plain<DirectedGraph<Prop, Prop>>>();
      else if (k == "undirected")
        current = std::make_unique<Plain<UndirectedGraph<Prop, Prop>>>();
      else if (k == "weak")
        current = std::make_unique<Single<internal::dependency::SingleEntryWeaklyConnectedDigraph<Prop>>>();
      else
        current = std::make_unique<Single<marco::modeling::dependency::SingleEntryDigraph<Prop>>>();
      return;
    }
    current->handle(cmd, out);
  });
}
