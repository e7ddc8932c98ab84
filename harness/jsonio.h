// Conversions between JSON and the modeling value types.
#ifndef VERIF_JSONIO_H
#define VERIF_JSONIO_H
#include "drv.h"
#include "marco/Modeling/IndexSet.h"

namespace drv {
using marco::modeling::IndexSet;
using marco::modeling::MultidimensionalRange;
using marco::modeling::Point;
using marco::modeling::Range;

inline Point toPoint(const json::Value &v) {
  llvm::SmallVector<int64_t> c;
  for (const auto &x : *v.getAsArray())
    c.push_back(i(x));
  return Point(llvm::ArrayRef<int64_t>(c));
}
inline MultidimensionalRange toBox(const json::Value &v) {
  llvm::SmallVector<Range> r;
  for (const auto &x : *v.getAsArray())
    r.emplace_back(i((*x.getAsArray())[0]), i((*x.getAsArray())[1]));
  return MultidimensionalRange(r);
}
inline llvm::SmallVector<MultidimensionalRange> toBoxes(const json::Array &a) {
  llvm::SmallVector<MultidimensionalRange> r;
  for (const auto &x : a)
    r.push_back(toBox(x));
  return r;
}
inline IndexSet toSet(const json::Array &boxes) {
  // Built one box at a time from a list that the generators keep disjoint.
  auto b = toBoxes(boxes);
  return IndexSet(llvm::ArrayRef<MultidimensionalRange>(b));
}
inline json::Array fromPoint(const Point &p) {
  json::Array a;
  for (auto x : p)
    a.push_back(x);
  return a;
}
inline json::Array fromRange(const Range &r) {
  return json::Array{r.getBegin(), r.getEnd()};
}
inline json::Array fromBox(const MultidimensionalRange &b) {
  json::Array a;
  for (unsigned k = 0; k < b.rank(); ++k)
    a.push_back(fromRange(b[k]));
  return a;
}
template <typename C> json::Array fromBoxes(const C &c) {
  json::Array a;
  for (const auto &b : c)
    a.push_back(fromBox(b));
  return a;
}
inline json::Array fromSetBoxes(const IndexSet &s) {
  json::Array a;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it)
    a.push_back(fromBox(*it));
  return a;
}
inline json::Array fromSetPoints(const IndexSet &s) {
  json::Array a;
  for (Point p : s)
    a.push_back(fromPoint(p));
  return a;
}
} // namespace drv
#endif
