// Drives Point / Range / MultidimensionalRange / IndexSet / RTree.
#include "jsonio.h"
#include "marco/Modeling/RTree.h"
#include "llvm/ADT/SmallBitVector.h"
#include <map>
#include <memory>

using namespace drv;

struct Tagged {
  int64_t id;
  MultidimensionalRange box;
  bool operator==(const Tagged &o) const { return id == o.id && box == o.box; }
};

namespace marco::modeling {
template <> struct RTreeInfo<Tagged> {
  static const MultidimensionalRange &getShape(const Tagged &v) { return v.box; }
  static bool isEqual(const Tagged &a, const Tagged &b) { return a == b; }
  static void dump(llvm::raw_ostream &os, const Tagged &v) { os << v.id; }
};
} // namespace marco::modeling

namespace {
using marco::modeling::r_tree::impl::RTreeCRTP;

struct TagTree : public RTreeCRTP<TagTree, Tagged> {
  using Base = RTreeCRTP<TagTree, Tagged>;
  using Base::Base;
  using Base::getRoot;
  using Base::insert;
  using Base::remove;
  using Base::contains;
  using Base::objectsBegin;
  using Base::objectsEnd;
  using Base::setFromObjects;
  using NodeT = Base::Node;
};

struct PeekSet : public IndexSet {
  using IndexSet::getRoot;
  using NodeT = IndexSet::Node;
};

json::Value objJson(const Tagged &t) {
  return json::Array{t.id, fromBox(t.box)};
}
json::Value objJson(const MultidimensionalRange &b) {
  return json::Array{0, fromBox(b)};
}

// A node is logged as [boundary, parentLinkOk, coveredSizeOk, kind, entries].
template <typename N> json::Value nodeJson(const N *n, const N *parent) {
  json::Array entries;
  bool leaf = n->children.empty();
  if (leaf)
    for (const auto &o : n->objects)
      entries.push_back(objJson(*o));
  else
    for (const auto &c : n->children)
      entries.push_back(nodeJson(c.get(), n));
  return json::Object{{"b", fromBox(n->getBoundary())},
                      {"up", n->getParent() == parent},
                      {"area", (int64_t)n->getCoveredSpaceSize()},
                      {"leaf", leaf},
                      {"mixed", !leaf && !n->objects.empty()},
                      {"e", std::move(entries)}};
}
template <typename N> json::Array treeJson(const N *root) {
  json::Array a;
  if (root)
    a.push_back(nodeJson<N>(root, nullptr));
  return a;
}

std::map<int64_t, IndexSet> regs;
std::map<int64_t, TagTree> trees;
bool wantTree = false, wantPts = true;

void dumpSet(const IndexSet &s, json::Object &out) {
  out["boxes"] = fromSetBoxes(s);
  if (wantPts)
    out["pts"] = fromSetPoints(s);
  out["size"] = (int64_t)s.size();
  out["empty"] = s.empty();
  if (wantTree)
    out["tree"] = treeJson(static_cast<const PeekSet &>(s).getRoot());
}

llvm::BitVector bits(const json::Array &a) {
  llvm::BitVector v(a.size());
  for (size_t k = 0; k < a.size(); ++k)
    if (i(a[k]))
      v.set(k);
  return v;
}
llvm::SmallBitVector sbits(const json::Array &a) {
  llvm::SmallBitVector v(a.size());
  for (size_t k = 0; k < a.size(); ++k)
    if (i(a[k]))
      v.set(k);
  return v;
}
int sgn(int64_t v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }

void handle(const json::Object &in, json::Object &out) {
  std::string op = str(in, "op");
  int64_t r = num(in, "r"), a = num(in, "a"), b = num(in, "b"), n = num(in, "n");
  auto box = [&](llvm::StringRef k = "box") { return toBox(*in.get(k)); };
  auto pt = [&](llvm::StringRef k = "p") { return toPoint(*in.get(k)); };

  if (op == "reset") {
    regs.clear();
    trees.clear();
    wantTree = num(in, "tree", 0);
    wantPts = num(in, "wp", 1);
    return;
  }
  // ---------------------------------------------------------------- index sets
  auto show = [&] { dumpSet(regs[r], out); };
  if (op == "new") {
    if (has(in, "min"))
      regs.erase(r), regs.emplace(r, IndexSet(num(in, "min"), num(in, "max")));
    else
      regs[r] = IndexSet();
    return show();
  }
  if (op == "ofPoints") {
    llvm::SmallVector<Point> p;
    for (const auto &x : arr(in, "pts0"))
      p.push_back(toPoint(x));
    regs[r] = IndexSet(llvm::ArrayRef<Point>(p));
    return show();
  }
  if (op == "ofBoxes") {
    auto bs = toBoxes(arr(in, "boxes0"));
    regs[r] = IndexSet(llvm::ArrayRef<MultidimensionalRange>(bs));
    return show();
  }
  if (op == "setBoxes") {
    auto bs = toBoxes(arr(in, "boxes0"));
    regs[r].setFromRanges(bs);
    return show();
  }
  if (op == "copy") {
    IndexSet c(regs[a]);
    regs[r] = c;
    return show();
  }
  if (op == "clear") { regs[r].clear(); return show(); }
  if (op == "addPoint") { regs[r] += pt(); return show(); }
  if (op == "addBox") { regs[r] += box(); return show(); }
  if (op == "addSet") { regs[r] += regs[a]; return show(); }
  if (op == "subPoint") { regs[r] -= pt(); return show(); }
  if (op == "subBox") { regs[r] -= box(); return show(); }
  if (op == "subSet") { regs[r] -= regs[a]; return show(); }
  if (op == "plus") { regs[r] = regs[a] + regs[b]; return show(); }
  if (op == "minus") { regs[r] = regs[a] - regs[b]; return show(); }
  if (op == "plusBox") { regs[r] = regs[a] + box(); return show(); }
  if (op == "minusBox") { regs[r] = regs[a] - box(); return show(); }
  if (op == "plusPoint") { regs[r] = regs[a] + pt(); return show(); }
  if (op == "minusPoint") { regs[r] = regs[a] - pt(); return show(); }
  if (op == "isectBox") { regs[r] = regs[a].intersect(box()); return show(); }
  if (op == "isect") { regs[r] = regs[a].intersect(regs[b]); return show(); }
  if (op == "compl") { regs[r] = regs[a].complement(box()); return show(); }
  if (op == "slice") { regs[r] = regs[a].slice(bits(arr(in, "f"))); return show(); }
  if (op == "takeFirst") { regs[r] = regs[a].takeFirstDimensions(n); return show(); }
  if (op == "takeLast") { regs[r] = regs[a].takeLastDimensions(n); return show(); }
  if (op == "takeDims") { regs[r] = regs[a].takeDimensions(sbits(arr(in, "f"))); return show(); }
  if (op == "dropFirst") { regs[r] = regs[a].dropFirstDimensions(n); return show(); }
  if (op == "dropLast") { regs[r] = regs[a].dropLastDimensions(n); return show(); }
  if (op == "prepend") { regs[r] = regs[a].prepend(regs[b]); return show(); }
  if (op == "append") { regs[r] = regs[a].append(regs[b]); return show(); }
  if (op == "show") return show();
  if (op == "q") {
    // Every observer on the pair (a, b) and on a point and a box.
    const IndexSet &x = regs[a], &y = regs[b];
    out["cp"] = x.contains(pt());
    out["cb"] = x.contains(box());
    out["cs"] = x.contains(y);
    out["ob"] = x.overlaps(box());
    out["os"] = x.overlaps(y);
    out["eq"] = x == y;
    out["ne"] = x != y;
    out["eqb"] = x == box();
    out["neb"] = x != box();
    out["eqp"] = x == pt();
    out["nep"] = x != pt();
    out["hashEq"] = hash_value(x) == hash_value(y);
    out["mapEq"] = llvm::DenseMapInfo<IndexSet>::isEqual(x, y);
    out["rankEq"] = x.rank() == y.rank();
    out["cmp0"] = x.compare(y) == 0;
    return;
  }
  if (op == "compact") {
    llvm::SmallVector<MultidimensionalRange> c;
    regs[a].getCompactRanges(c);
    out["res"] = fromBoxes(c);
    return;
  }
  // --------------------------------------------------- points, ranges and boxes
  if (op == "pair") { // two boxes of equal rank
    MultidimensionalRange x = box("x"), y = box("y");
    out["size"] = (int64_t)x.size();
    llvm::SmallVector<size_t> sizes;
    x.getSizes(sizes);
    json::Array sz;
    for (size_t s : sizes) sz.push_back((int64_t)s);
    out["sizes"] = std::move(sz);
    json::Array pts;
    for (Point p : x) pts.push_back(fromPoint(p));
    out["pts"] = std::move(pts);
    out["contains"] = x.contains(y);
    out["overlaps"] = x.overlaps(y);
    out["anyDim"] = x.anyDimensionOverlaps(y);
    out["eq"] = x == y;
    out["ne"] = x != y;
    out["lt"] = x < y;
    out["gt"] = x > y;
    out["cmp"] = sgn(x.compare(y));
    out["hashEq"] = hash_value(x) == hash_value(y);
    auto m = x.canBeMerged(y);
    out["mergeable"] = m.first;
    out["merge"] = m.first ? json::Array{fromBox(x.merge(y, m.second))} : json::Array{};
    out["isect"] = x.overlaps(y) ? json::Array{fromBox(x.intersect(y))} : json::Array{};
    out["sub"] = fromBoxes(x.subtract(y));
    return;
  }
  if (op == "box1") { // one box: projections, points
    MultidimensionalRange x = box("x");
    Point p = pt();
    out["cp"] = x.contains(p);
    out["eqp"] = x == p;
    out["nep"] = x != p;
    out["ofp"] = fromBox(MultidimensionalRange(p));
    out["tf"] = fromBox(x.takeFirstDimensions(n));
    out["tl"] = fromBox(x.takeLastDimensions(n));
    out["sl"] = fromBox(x.slice(n));
    out["sf"] = fromBox(x.slice(bits(arr(in, "f"))));
    out["td"] = fromBox(x.takeDimensions(sbits(arr(in, "f"))));
    bool drop = n < (int64_t)x.rank();
    out["df"] = drop ? json::Array{fromBox(x.dropFirstDimensions(n))} : json::Array{};
    out["dl"] = drop ? json::Array{fromBox(x.dropLastDimensions(n))} : json::Array{};
    MultidimensionalRange y = box("y");
    out["app"] = fromBox(x.append(y));
    out["pre"] = fromBox(x.prepend(y));
    return;
  }
  if (op == "range") { // two intervals and a value
    MultidimensionalRange bx = box("x"), by = box("y");
    Range x = bx[0], y = by[0];
    int64_t v = num(in, "v");
    out["size"] = (int64_t)x.size();
    out["cv"] = x.contains(v);
    out["eqv"] = x == v;
    out["nev"] = x != v;
    out["contains"] = x.contains(y);
    out["overlaps"] = x.overlaps(y);
    out["eq"] = x == y;
    out["ne"] = x != y;
    out["lt"] = x < y;
    out["gt"] = x > y;
    out["cmp"] = sgn(x.compare(y));
    out["hashEq"] = hash_value(x) == hash_value(y);
    out["mergeable"] = x.canBeMerged(y);
    out["merge"] = x.canBeMerged(y) ? json::Array{fromRange(x.merge(y))} : json::Array{};
    out["isect"] = x.overlaps(y) ? json::Array{fromRange(x.intersect(y))} : json::Array{};
    json::Array sub;
    for (const Range &s : x.subtract(y)) sub.push_back(fromRange(s));
    out["sub"] = std::move(sub);
    json::Array it;
    for (auto q : x) it.push_back(q);
    out["it"] = std::move(it);
    return;
  }
  if (op == "point") { // two points
    Point x = pt("x"), y = pt("y");
    out["eq"] = x == y;
    out["ne"] = x != y;
    out["lt"] = x < y;
    out["cmp"] = sgn(x.compare(y));
    out["hashEq"] = hash_value(x) == hash_value(y);
    out["app"] = fromPoint(x.append(y));
    out["rank"] = (int64_t)x.rank();
    out["front"] = fromPoint(x.takeFront(n));
    out["back"] = fromPoint(x.takeBack(n));
    out["sf"] = fromPoint(x.slice(bits(arr(in, "f"))));
    json::Array at;
    for (size_t k = 0; k < x.rank(); ++k) at.push_back(x[k]);
    out["at"] = std::move(at);
    return;
  }
  // ------------------------------------------------------------- tagged R-trees
  auto showT = [&](TagTree &t) {
    out["tree"] = treeJson(t.getRoot());
    json::Array it;
    for (auto p = t.objectsBegin(), e = t.objectsEnd(); p != e; ++p)
      it.push_back(objJson(*p));
    out["it"] = std::move(it);
    out["empty"] = t.empty();
    out["size"] = (int64_t)t.size();
  };
  auto obj = [&] { return Tagged{num(in, "id"), box()}; };
  if (op == "tnew") {
    trees.erase(r);
    trees.emplace(r, TagTree(num(in, "min"), num(in, "max")));
    return showT(trees.at(r));
  }
  if (op == "tload") {
    llvm::SmallVector<Tagged> o;
    for (const auto &x : arr(in, "objs")) {
      const auto &p = *x.getAsArray();
      o.push_back(Tagged{i(p[0]), toBox(p[1])});
    }
    trees.at(r).setFromObjects(o);
    return showT(trees.at(r));
  }
  if (op == "tins") { trees.at(r).insert(obj()); return showT(trees.at(r)); }
  if (op == "trem") { trees.at(r).remove(obj()); return showT(trees.at(r)); }
  if (op == "tinsAll") { trees.at(r).insert(trees.at(a)); return showT(trees.at(r)); }
  if (op == "tremAll") { trees.at(r).remove(trees.at(a)); return showT(trees.at(r)); }
  if (op == "tcopy") { TagTree c(trees.at(a)); trees.at(r) = c; return showT(trees.at(r)); }
  if (op == "tclear") { trees.at(r).clear(); return showT(trees.at(r)); }
  if (op == "tq") {
    const TagTree &t = trees.at(a);
    json::Array hits;
    t.walkOverlappingObjects(box(), [&](const Tagged &o) { hits.push_back(objJson(o)); });
    out["hits"] = std::move(hits);
    out["has"] = t.contains(obj());
    out["sub"] = t.contains(trees.at(b));
    out["eq"] = static_cast<const TagTree::Base &>(t) == trees.at(b);
    out["rankEq"] = t.rank() == trees.at(b).rank();
    return;
  }
  llvm::errs() << "unknown op " << op << "\n";
  _exit(2);
}
} // namespace

int main(int argc, char **argv) { return drv::run(argc, argv, handle); }
