From 0a73f36963cde115c1efb9533eee82dd10f95cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 01/83] fix: remove every overlap when building an index set
 from ranges

The backward search for overlapping ranges stopped at the first range
overlapping in no dimension, although earlier ranges could still overlap.
---
 lib/Modeling/IndexSet.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..ba82d59 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -151,17 +151,17 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
   // Ensure that the ranges don't overlap.
   llvm::SmallVector<MultidimensionalRange> nonOverlappingRanges;
 
-  for (const MultidimensionalRange &current : sorted) {
-    if (nonOverlappingRanges.empty()) {
-      nonOverlappingRanges.push_back(current);
-      continue;
-    }
+  // For each position, the maximum end along the first dimension among the
+  // non-overlapping ranges up to that position.
+  llvm::SmallVector<Range::data_type> maxEnds;
 
+  for (const MultidimensionalRange &current : sorted) {
+    // Go back until all the remaining ranges end, along the first dimension,
+    // before the beginning of the current one.
     size_t possibleOverlapIndex = nonOverlappingRanges.size();
 
     while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
+           maxEnds[possibleOverlapIndex - 1] > current[0].getBegin()) {
       --possibleOverlapIndex;
     }
 
@@ -189,6 +189,14 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
     llvm::sort(
         std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
         std::end(nonOverlappingRanges));
+
+    maxEnds.resize(possibleOverlapIndex);
+
+    for (size_t i = possibleOverlapIndex, e = nonOverlappingRanges.size();
+         i < e; ++i) {
+      Range::data_type end = nonOverlappingRanges[i][0].getEnd();
+      maxEnds.push_back(i == 0 ? end : std::max(end, maxEnds[i - 1]));
+    }
   }
 
   assert(llvm::none_of(nonOverlappingRanges,
-- 
2.43.0


From fb46aaa8ecce686d0110a2e34ac423c8ee5ae188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 02/83] fix: keep the R-tree consistent while removing and
 relocating objects

Removals kept pointers to leaf nodes across tree adjustments, which may move
or delete any node, and relocation could drop the objects of a collapsed node
or use the root after its replacement. Index sets lost points or crashed.
Subtracting a set from itself iterated over the objects being removed.
---
 include/marco/Modeling/RTree.h | 186 ++++++++++++++++++---------------
 lib/Modeling/IndexSet.cpp      |  38 +++----
 2 files changed, 121 insertions(+), 103 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..dbdc77a 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -636,28 +636,24 @@ public:
     }
 
     const MultidimensionalRange &shape = getShape(obj);
-    llvm::SmallVector<Node *> overlappingLeafNodes;
 
-    walkOverlappingLeafNodes(
-        shape, [&](Node &node) { overlappingLeafNodes.push_back(&node); });
+    auto isEqualFn = [&](const Object &object) {
+      return RTreeInfo<T>::isEqual(obj, *object);
+    };
 
-    for (Node *node : overlappingLeafNodes) {
-      bool modified = false;
+    // Adjusting the tree may move or delete any node, so the search has to be
+    // restarted after each modification.
+    while (Node *node = findLeafNode(shape, isEqualFn)) {
       llvm::SmallVector<Object> newObjects;
 
       for (Object &object : node->objects) {
-        if (RTreeInfo<T>::isEqual(obj, *object)) {
-          modified = true;
-        } else {
+        if (!isEqualFn(object)) {
           newObjects.push_back(std::move(object));
         }
       }
 
       node->objects = std::move(newObjects);
-
-      if (modified) {
-        adjustTree(node);
-      }
+      adjustTree(node);
     }
   }
 
@@ -666,6 +662,11 @@ public:
       return;
     }
 
+    if (static_cast<const RTreeCRTP *>(&other) == this) {
+      clear();
+      return;
+    }
+
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
     llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
@@ -1041,94 +1042,80 @@ protected:
     return result;
   }
 
-  /// Collapse a node and its ancestors, if needed. The remaining objects and
-  /// subtrees are relocated.
+  /// Collapse a node and its ancestors, if needed. The remaining objects are
+  /// relocated.
   void collapseNodeAndPropagate(Node *node) {
-    if (node->isRoot()) {
-      return;
-    }
+    llvm::SmallVector<Object> objectsToRelocate;
+    condenseTree(node, objectsToRelocate);
 
-    // Additional nodes to be collapsed may be obtained during the process.
-    llvm::SmallVector<Node *> nodesToCollapse;
-    nodesToCollapse.push_back(node);
+    while (!objectsToRelocate.empty()) {
+      Object object = objectsToRelocate.pop_back_val();
 
-    while (!nodesToCollapse.empty()) {
-      node = nodesToCollapse.pop_back_val();
+      if (!getRoot()) {
+        setRoot(std::make_unique<Node>(nullptr, object.getBoundary()));
+      }
 
-      // Move the objects out of the node being removed.
-      // This is done only once, as the nodes that will be possibly visited
-      // later will not be leaves.
-      llvm::SmallVector<Object> objectsToRelocate = std::move(node->objects);
+      // Find the new position.
+      Node *destination = chooseLeaf(getRoot(), object.getBoundary());
 
-      while (!node->isRoot() && node->fanOut() < minElements) {
-        // The nodes to be relocated.
-        llvm::SmallVector<std::unique_ptr<Node>> nodesToRelocate;
+      // Add the value to the leaf node.
+      destination->add(std::move(object));
+      postObjectInsertionHook(*destination);
 
-        // Move the objects out of the node being removed.
-        for (auto &child : node->children) {
-          nodesToRelocate.push_back(std::move(child));
-        }
+      if (destination->fanOut() > maxElements) {
+        // Split the node.
+        splitNodeAndPropagate(destination);
+      } else {
+        // The insertion hook may have decreased the number of objects.
+        condenseTree(destination, objectsToRelocate);
+      }
+    }
+  }
 
-        // Remove the node from the list of children of the parent.
-        // The node itself will be erased, and any usage of 'node' will be
-        // invalid. Therefore, we need to store the reference to the parent
-        // elsewhere.
-        Node *parent = node->getParent();
-        removeChild(parent, node);
-
-        // Relocate the orphaned objects.
-        if (!objectsToRelocate.empty() && !parent->children.empty()) {
-          for (Object &object : objectsToRelocate) {
-            // Find the new position.
-            Node *destination = chooseLeaf(parent, object.getBoundary());
-
-            // Add the value to the leaf node.
-            destination->add(std::move(object));
-            postObjectInsertionHook(*destination);
-
-            if (destination->fanOut() > maxElements) {
-              // Split the node.
-              splitNodeAndPropagate(destination);
-            } else if (destination->fanOut() < minElements) {
-              // Schedule the node for removal.
-              nodesToCollapse.push_back(destination);
-            } else {
-              updateBoundaries(destination);
-            }
-          }
+  /// Remove a node and its ancestors from the tree, as long as they have too
+  /// few elements. The objects they contained are moved into the given list.
+  void condenseTree(Node *node, llvm::SmallVectorImpl<Object> &removedObjects) {
+    while (!node->isRoot() && node->fanOut() < minElements) {
+      moveObjects(*node, removedObjects);
 
-          objectsToRelocate.clear();
-        }
+      // The node itself will be erased, and any usage of 'node' will be
+      // invalid. Therefore, we need to store the reference to the parent
+      // elsewhere.
+      Node *parent = node->getParent();
+      removeChild(parent, node);
 
-        // Relocate the orphaned nodes.
-        for (auto &nodeToRelocate : nodesToRelocate) {
-          // Find the new position.
-          Node *destination = chooseDestinationNode(
-              parent->children, nodeToRelocate->getBoundary());
+      // Move towards the root of the tree.
+      node = parent;
+    }
 
-          // Add the value to the leaf node.
-          destination->add(std::move(nodeToRelocate));
+    if (node->fanOut() == 0) {
+      // Only the root can be empty.
+      setRoot(nullptr);
+      return;
+    }
 
-          if (destination->fanOut() > maxElements) {
-            // Split the node.
-            splitNodeAndPropagate(destination);
-          } else {
-            updateBoundaries(destination);
-          }
-        }
+    // Update the boundaries.
+    updateBoundaries(node);
 
-        // Move towards the root of the tree.
-        node = parent;
-      }
+    while (getRoot()->children.size() == 1) {
+      setRoot(std::move(getRoot()->children.front()));
+    }
+  }
 
-      // Update the boundaries.
-      updateBoundaries(node);
+  /// Move the objects of a subtree into a list.
+  static void moveObjects(Node &root, llvm::SmallVectorImpl<Object> &objects) {
+    llvm::SmallVector<Node *> nodes;
+    nodes.push_back(&root);
 
-      assert(objectsToRelocate.empty() &&
-             "Not all objects have been relocated");
+    while (!nodes.empty()) {
+      Node *node = nodes.pop_back_val();
 
-      if (getRoot() && getRoot()->children.size() == 1) {
-        setRoot(std::move(getRoot()->children.front()));
+      for (Object &object : node->objects) {
+        objects.push_back(std::move(object));
+      }
+
+      for (auto &child : node->children) {
+        nodes.push_back(child.get());
       }
     }
   }
@@ -1222,6 +1209,35 @@ protected:
     walkOverlappingLeafNodes(getRoot(), range, walkFn);
   }
 
+  /// Get a leaf node overlapping a range and containing at least one object
+  /// satisfying a condition. Return a null pointer if there is none.
+  Node *findLeafNode(const MultidimensionalRange &range,
+                     llvm::function_ref<bool(const Object &)> conditionFn) {
+    llvm::SmallVector<Node *> nodes;
+
+    if (getRoot()) {
+      nodes.push_back(getRoot());
+    }
+
+    while (!nodes.empty()) {
+      Node *node = nodes.pop_back_val();
+
+      if (!node->getBoundary().overlaps(range)) {
+        continue;
+      }
+
+      if (llvm::any_of(node->objects, conditionFn)) {
+        return node;
+      }
+
+      for (auto &child : node->children) {
+        nodes.push_back(child.get());
+      }
+    }
+
+    return nullptr;
+  }
+
 private:
   template <typename NodeT, typename ValueT>
   static void
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index ba82d59..c77949f 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -325,32 +325,34 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
-
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
+  auto overlapsFn = [&](const Object &object) {
+    return object->overlaps(other);
+  };
 
-  for (Node *node : overlappingNodes) {
-    assert(node->isLeaf());
-    bool modified = false;
+  llvm::SmallVector<MultidimensionalRange> differences;
 
-    llvm::SmallVector<Object> differences;
+  // Adjusting the tree may move or delete any node, so the search has to be
+  // restarted after each modification.
+  while (Node *node = findLeafNode(other, overlapsFn)) {
+    llvm::SmallVector<Object> remainingObjects;
 
-    for (Object &value : node->objects) {
-      if (value->overlaps(other)) {
-        modified = true;
-        llvm::append_range(differences, value->subtract(other));
+    for (Object &object : node->objects) {
+      if (overlapsFn(object)) {
+        llvm::append_range(differences, object->subtract(other));
       } else {
-        differences.emplace_back(std::move(value));
+        remainingObjects.push_back(std::move(object));
       }
     }
 
-    node->objects = std::move(differences);
+    node->objects = std::move(remainingObjects);
 
-    if (modified) {
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    // Split and collapse nodes, if necessary.
+    adjustTree(node);
+  }
+
+  // Add the points that have to be kept.
+  for (MultidimensionalRange &difference : differences) {
+    RTreeCRTP::insert(std::move(difference));
   }
 
   assert(isValid());
-- 
2.43.0


From 2b95188faab2a5267b985e2b61df640d023d741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 03/83] fix: distribute the nodes evenly when bulk-loading an
 R-tree

The last parent of a level could be left with fewer children than the minimum,
and the objects exceeding the groups could be assigned to a missing group.
---
 include/marco/Modeling/RTree.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index dbdc77a..dae46ea 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -823,7 +823,7 @@ protected:
       }
 
       for (size_t i = 0; i < remainingElements; ++i) {
-        nodes[i]->objects.push_back(
+        nodes[i % numOfGroups]->objects.push_back(
             std::move(objects[numOfGroups * minElements + i]));
       }
 
@@ -842,16 +842,20 @@ protected:
     while (nodes.size() > maxElements) {
       llvm::SmallVector<std::unique_ptr<Node>> newNodes;
 
-      for (size_t i = 0, e = nodes.size(); i < e; i += maxElements) {
-        auto &parent = newNodes.emplace_back(
-            std::make_unique<Node>(nullptr, nodes[i]->getBoundary()));
+      // Distribute the nodes evenly, so that each parent has at least the
+      // minimum number of elements.
+      size_t numOfParents = (nodes.size() + maxElements - 1) / maxElements;
+      size_t groupSize = nodes.size() / numOfParents;
+      size_t remainingNodes = nodes.size() % numOfParents;
+      size_t position = 0;
 
-        for (size_t j = 0; j < maxElements; ++j) {
-          if (i + j >= e) {
-            break;
-          }
+      for (size_t i = 0; i < numOfParents; ++i) {
+        auto &parent = newNodes.emplace_back(
+            std::make_unique<Node>(nullptr, nodes[position]->getBoundary()));
 
-          parent->add(std::move(nodes[i + j]));
+        for (size_t j = 0, e = groupSize + (i < remainingNodes ? 1 : 0); j < e;
+             ++j) {
+          parent->add(std::move(nodes[position++]));
         }
 
         parent->recalcBoundary();
-- 
2.43.0


From 099c4e1d8e168a58b7929fb7503ccd3168a843d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 04/83] fix: negate the whole comparison between a range and a
 value

A box was considered equal to any point it has as begin or end.
---
 lib/Modeling/Range.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/Range.cpp b/lib/Modeling/Range.cpp
index 0eb8da9..fc56a50 100644
--- a/lib/Modeling/Range.cpp
+++ b/lib/Modeling/Range.cpp
@@ -20,7 +20,7 @@ bool Range::operator==(const Range &other) const {
 }
 
 bool Range::operator!=(Range::data_type other) const {
-  return getBegin() != other && getEnd() != other + 1;
+  return !(*this == other);
 }
 
 bool Range::operator!=(const Range &other) const {
-- 
2.43.0


From e793042497808ba21128aa236c47be37098b0e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 05/83] fix: support modulo in access expressions

The simplification of affine expressions rewrites a - (a / b) * b into a
modulo, which could not be converted back into a dimension access.
---
 lib/Modeling/DimensionAccess.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/Modeling/DimensionAccess.cpp b/lib/Modeling/DimensionAccess.cpp
index 22b1cc6..a54fd59 100644
--- a/lib/Modeling/DimensionAccess.cpp
+++ b/lib/Modeling/DimensionAccess.cpp
@@ -90,6 +90,14 @@ DimensionAccess::build(mlir::AffineExpr expression) {
           binaryExpr.getContext(), DimensionAccess::build(binaryExpr.getLHS()),
           DimensionAccess::build(binaryExpr.getRHS()));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // Introduced by the simplification of affine expressions.
+      // a mod b = a - (a / b) * b
+      auto lhs = DimensionAccess::build(binaryExpr.getLHS());
+      auto rhs = DimensionAccess::build(binaryExpr.getRHS());
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
@@ -146,6 +154,16 @@ DimensionAccess::getDimensionAccessFromExtendedMap(
           DimensionAccess::getDimensionAccessFromExtendedMap(
               binaryExpr.getRHS(), fakeDimensionsMap));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // Introduced by the simplification of affine expressions.
+      // a mod b = a - (a / b) * b
+      auto lhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getLHS(), fakeDimensionsMap);
+      auto rhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getRHS(), fakeDimensionsMap);
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
-- 
2.43.0


From cf9b3aeddaf0bf03328d3995ceb4d949007d0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 06/83] fix: round divisions of access expressions towards
 negative infinity

The affine form of the same access uses a floor division, so that the
accessed index depended on which of the two forms was being evaluated.
---
 lib/Modeling/DimensionAccessDiv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..f0db798 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,10 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        // Round towards negative infinity, consistently with the affine
+        // expression representing the access.
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From 6acb234e8d232da2417ccf8de69cb94751156e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 07/83] fix: map and compare generic access functions properly

The results were appended twice in presence of dependent iteration spaces,
and functions with a different number of results could compare equal.
---
 lib/Modeling/AccessFunctionGeneric.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..6566b31 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -75,7 +75,8 @@ bool AccessFunctionGeneric::operator==(const AccessFunction &other) const {
 
 bool AccessFunctionGeneric::operator==(
     const AccessFunctionGeneric &other) const {
-  if (numOfDimensions != other.numOfDimensions) {
+  if (numOfDimensions != other.numOfDimensions ||
+      getNumOfResults() != other.getNumOfResults()) {
     return false;
   }
 
@@ -219,6 +220,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -249,6 +252,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From f641dbe740b1fdc3a5a61b3aeca5cf8c486b6c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 08/83] fix: preserve the iteration spaces of the left-hand
 side while combining access functions

---
 lib/Modeling/AccessFunction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..cb8cec2 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -190,6 +190,11 @@ AccessFunction::combine(const AccessFunction &other) const {
     resultFakeDimensionsMap[lhsDimension] = rhsFakeDimensionsMap[rhsDimension];
   }
 
+  // Preserve also the fake dimensions introduced by the left-hand side.
+  for (const auto &entry : lhsFakeDimensionsMap) {
+    resultFakeDimensionsMap[entry.getFirst()] = entry.getSecond();
+  }
+
   // Remove the additional dimensions.
   return AccessFunction::fromExtendedMap(combinedAffineMap,
                                          resultFakeDimensionsMap);
-- 
2.43.0


From 27fe41bf197329d3321b2f7dbe9fc6e65258ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 09/83] fix: inverse of constant accesses when more than the
 accessed indices are requested

---
 lib/Modeling/AccessFunctionAffineConstant.cpp | 3 ++-
 lib/Modeling/AccessFunctionConstant.cpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..41a025a 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -89,7 +89,8 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.empty() ||
+      expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionConstant.cpp b/lib/Modeling/AccessFunctionConstant.cpp
index fe7f6bd..5242058 100644
--- a/lib/Modeling/AccessFunctionConstant.cpp
+++ b/lib/Modeling/AccessFunctionConstant.cpp
@@ -65,7 +65,8 @@ AccessFunctionConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.empty() ||
+      expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
-- 
2.43.0


From 97de3ab0d677cf27a17c759163641b79c0336798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 10/83] fix: consider parent set and constant results in the
 inverse of roto-translations

---
 .../AccessFunctionRotoTranslation.cpp         | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..62f1a92 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -235,15 +235,39 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
         reducedDimsMap.getNumDims(), reducedDimsMap.getNumSymbols(),
         reducedResults, reducedDimsMap.getContext());
 
+    // Discard the accessed indices that are not compatible with the constant
+    // results, as they would not be considered by the reduced access.
+    IndexSet compatibleAccessedIndices;
+
+    for (const MultidimensionalRange &accessedRange : llvm::make_range(
+             accessedIndices.rangesBegin(), accessedIndices.rangesEnd())) {
+      bool isCompatible = true;
+
+      for (uint64_t res = 0, e = getNumOfResults(); res < e; ++res) {
+        if (auto constExpr = mlir::dyn_cast<mlir::AffineConstantExpr>(
+                getAffineMap().getResult(res))) {
+          isCompatible &= accessedRange[res].contains(constExpr.getValue());
+        }
+      }
+
+      if (isCompatible) {
+        compatibleAccessedIndices += accessedRange;
+      }
+    }
+
+    if (compatibleAccessedIndices.empty()) {
+      return {};
+    }
+
     auto reducedAccessFunction = AccessFunctionAffineMap::build(reducedDimsMap);
     auto reducedParentIndices = parentIndices.slice(usedDimensions);
-    auto reducedAccessedIndices = accessedIndices.slice(usedResults);
+    auto reducedAccessedIndices = compatibleAccessedIndices.slice(usedResults);
 
     IndexSet reducedInverseMap = reducedAccessFunction->inverseMap(
         reducedAccessedIndices, reducedParentIndices);
 
     if (usedDimensions.all()) {
-      return reducedInverseMap;
+      return reducedInverseMap.intersect(parentIndices);
     }
 
     // Insert the indices corresponding to the skipped dimensions.
@@ -269,7 +293,9 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       }
     }
 
-    return {mapped};
+    // The ranges have been independently combined, and may therefore contain
+    // points that do not belong to the parent set.
+    return IndexSet(mapped).intersect(parentIndices);
   }
 
   return AccessFunction::inverseMap(accessedIndices, parentIndices);
-- 
2.43.0


From a731d57c47c46d69e29b762896de8b9caaa5ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 11/83] fix: map of roto-translations using an induction
 variable more than once

---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 62f1a92..d35c742 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,15 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  llvm::SmallVector<size_t> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t usage) { return usage > 1; })) {
+    // The coordinates depending on the same induction variable are related to
+    // each other, and thus the image of a range is not a range.
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
-- 
2.43.0


From ac019fa6ca4b4da30b50ecf4a1b2a728c0222944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 12/83] fix: set and unset entries of generic incidence groups
 by comparing the accessed variable

---
 lib/Modeling/MCIMGroupGeneric.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 0ef8999..a0a79c7 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -54,17 +54,21 @@ bool MCIMGroupGeneric::has(const Point &key, const Point &value) const {
 }
 
 bool MCIMGroupGeneric::set(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  addKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (getAccessFunction().map(key) != IndexSet(value)) {
+    return false;
+  }
+
+  addKeys(IndexSet(key));
+  return true;
 }
 
 bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  removeKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (getAccessFunction().map(key) != IndexSet(value)) {
+    return false;
+  }
+
+  removeKeys(IndexSet(key));
+  return true;
 }
 
 std::unique_ptr<MCIMGroup>
-- 
2.43.0


From 5f87de9cfbbb28d3aa9a416a4963d76bf4f84dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 13/83] fix: keep the entries of incidence matrices while
 unsetting, subtracting and changing spaces

---
 lib/Modeling/MCIM.cpp | 56 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..e4b9c97 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -184,17 +184,16 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
 
   for (const MultidimensionalRange &multidimRange :
        llvm::make_range(points.rangesBegin(), points.rangesEnd())) {
-    llvm::SmallVector<Range> ranges;
-
     IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
+        multidimRange.takeLastDimensions(newVariableSpace->rank()));
 
     for (const MultidimensionalRange &intersectionMultidimRange :
          llvm::make_range(intersection.rangesBegin(),
                           intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
+      newPoints += multidimRange
+                       .takeFirstDimensions(points.rank() -
+                                            newVariableSpace->rank())
+                       .append(intersectionMultidimRange);
     }
   }
 
@@ -294,6 +293,11 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
   assert(getVariableSpace() == rhs.getVariableSpace() &&
          "Different variable ranges");
 
+  if (this == &rhs) {
+    clear();
+    return *this;
+  }
+
   std::vector<std::unique_ptr<MCIMGroup>> oldGroups;
   swap(oldGroups, groups);
 
@@ -323,8 +327,18 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
           continue;
         }
 
-        IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
-        group->removeKeys(commonKeys);
+        // Remove only the keys for which the two access functions lead to the
+        // same variables.
+        IndexSet removedKeys;
+
+        for (Point key : lhsKeys.intersect(rhsKeys)) {
+          if (rhsGroup->getAccessFunction().map(key).contains(
+                  group->getAccessFunction().map(key))) {
+            removedKeys += key;
+          }
+        }
+
+        group->removeKeys(removedKeys);
       }
     }
   }
@@ -355,6 +369,20 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
 
   points -= rhs.points;
 
+  // Remove the points that belong to the groups of the other matrix.
+  IndexSet groupedPoints;
+
+  for (Point point : points) {
+    Point equation = point.takeFront(getEquationSpace().rank());
+    Point variable = point.takeBack(getVariableSpace().rank());
+
+    if (rhs.get(equation, variable)) {
+      groupedPoints += point;
+    }
+  }
+
+  points -= groupedPoints;
+
   assert(std::all_of(rhs.indicesBegin(), rhs.indicesEnd(),
                      [&](std::pair<Point, Point> coordinates) {
                        if (rhs.get(coordinates.first, coordinates.second)) {
@@ -450,10 +478,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    group->unset(equation, variable);
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
@@ -551,7 +579,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
+    if (!newVariableSpace->contains(getVariableSpace())) {
       auto filteredGroup = group.filterValues(*newVariableSpace);
       return filteredGroup->getKeys().intersect(*newEquationSpace);
     }
@@ -569,7 +597,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
+  if (!points.empty()) {
     result.points =
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
-- 
2.43.0


From a8b3ad8e9504893d24766d9e0807918f6e140ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 14/83] fix: consider all the access functions while
 enumerating local matching solutions

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..2a549eb 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -400,7 +400,6 @@ void VAFSolutions::fetchNext() {
   if (generator == nullptr) {
     if (currentAccessFunction < accessFunctions.size()) {
       generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
     }
   }
 
@@ -455,7 +454,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
@@ -488,7 +487,9 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  // The accessed indices do not depend on the equation ones, but the image of
+  // an empty set of indices would be empty.
+  return equationIndices->size() * accessFunction.map(*equationIndices).size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From 1d909d8efd3a9427407e4f9e9f23bdd4b5fa0acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 15/83] fix: skip leaf nodes left without edges while
 simplifying the matching graph

---
 include/marco/Modeling/Matching.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index e8c3bc2..4df2d4c 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1898,6 +1898,13 @@ private:
         continue;
       }
 
+      if (getVertexVisibilityDegreeUpTo(v1, 1) == 0) {
+        // The only edge of the current node has been removed together with the
+        // opposite node, but part of the current node is still unmatched.
+        LLVM_DEBUG(llvm::dbgs() << "First vertex has no edges left\n");
+        continue;
+      }
+
       EdgeDescriptor edgeDescriptor = getFirstOutVisibleEdge(v1);
       Edge &edge = getBaseGraph()[edgeDescriptor];
 
-- 
2.43.0


From aee5af4c94de60b4c426e14201a816de70d6d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 16/83] fix: consider all the indices touched by an augmenting
 path while looking for overlaps

---
 include/marco/Modeling/Matching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index 4df2d4c..740ab91 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2349,7 +2349,7 @@ protected:
                 newVisits[curStep->getNode()] += touchedIndices;
               }
             } else {
-              newVisits[curStep->getNode()] = std::move(touchedIndices);
+              newVisits[curStep->getNode()] += touchedIndices;
             }
 
             // Move backwards inside the candidate augmenting path.
-- 
2.43.0


From 209fae07144d68a20b4d0e8b1f8a3dc577dfe347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 17/83] fix: represent the accesses to multiple variables
 exactly in incidence matrices

---
 lib/Modeling/MCIM.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index e4b9c97..339cd90 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -415,6 +415,19 @@ void MCIM::apply(const MultidimensionalRange &equations,
 void MCIM::apply(const IndexSet &equations, const AccessFunction &access) {
   assert(getEquationSpace().contains(equations));
 
+  if (!access.isAffine()) {
+    // The groups are driven by their keys, and thus can't represent the
+    // equations that access more than one variable.
+    for (Point equation : equations) {
+      for (Point variable :
+           access.map(equation).intersect(getVariableSpace())) {
+        set(equation, variable);
+      }
+    }
+
+    return;
+  }
+
   IndexSet filteredEquations = access.inverseMap(
       access.map(equations).intersect(getVariableSpace()), equations);
 
-- 
2.43.0


From 936a80f48343cfc076aea05885e8002f7461e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 18/83] fix: consider the partial overlaps between scalar reads
 and writes

The dependency between two scalar equations was recorded only when the
read indices were exactly the written ones. An access to multiple
elements of the variable thus led to no dependency at all.
---
 include/marco/Modeling/ScalarEquationsDependencyGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 040c75f..6827381 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -271,7 +271,7 @@ private:
                 const MultidimensionalRange &writtenIndices =
                     writeInfo.getWrittenVariableIndices();
 
-                if (readIndices == writtenIndices) {
+                if (readIndices.overlaps(writtenIndices)) {
                   std::lock_guard edgeLockGuard(graphMutex);
                   graph->addEdge(equationDescriptor, writeInfo.getEquation());
                 }
-- 
2.43.0


From 71a3fcd76faa1679f93f143dd45943c5d74007d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:39 +0000
Subject: [PATCH 19/83] fix: determine the cyclic components from all the
 dependencies between the parts of equations

---
 include/marco/Modeling/DependencyGraph.h | 150 +++++++++++++++--------
 1 file changed, 102 insertions(+), 48 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 1a76155..f7ba628 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -388,37 +388,82 @@ public:
 
       using Partition = typename PartitionsGraph::VertexDescriptor;
       PartitionsGraph partitionsGraph;
-      llvm::DenseMap<EquationView, Partition> partitionsMap;
+      llvm::MapVector<EquationView, Partition> partitionsMap;
+
+      // Split the indices of each equation. The cycles that have been added
+      // first may be still overlapping with the ones that have been split
+      // later, and not all the indices necessarily belong to a cycle.
+      llvm::MapVector<EquationDescriptor, llvm::SmallVector<IndexSet>>
+          equationPartitions;
+
+      for (const EquationDescriptor &equation : scc) {
+        equationPartitions[equation].push_back(
+            arrayDependencyGraph.getEquation(equation).getIterationRanges());
+      }
 
-      // Add the nodes.
       for (const Path &path : partitionedCycles) {
         for (const PathDependency &pathDependency : path) {
-          EquationView equationView(pathDependency.equation,
-                                    pathDependency.equationIndices);
+          auto &partitions = equationPartitions[pathDependency.equation];
+
+          for (size_t i = 0, e = partitions.size(); i < e; ++i) {
+            IndexSet intersection =
+                partitions[i].intersect(pathDependency.equationIndices);
 
-          if (!partitionsMap.contains(equationView)) {
-            auto vertexDescriptor = partitionsGraph.addVertex(equationView);
-            partitionsMap[equationView] = vertexDescriptor;
+            IndexSet remaining = partitions[i] - intersection;
+
+            if (!intersection.empty() && !remaining.empty()) {
+              partitions[i] = std::move(intersection);
+              partitions.push_back(std::move(remaining));
+            }
           }
         }
       }
 
-      // Add the edges.
-      for (const Path &path : partitionedCycles) {
-        EquationView first(path[0].equation, path[0].equationIndices);
-        EquationView source = first;
-
-        for (size_t i = 1, e = path.size(); i < e; ++i) {
-          EquationView destination(path[i].equation, path[i].equationIndices);
-          partitionsGraph.addEdge(partitionsMap[source],
-                                  partitionsMap[destination]);
-          source = std::move(destination);
+      // Add the nodes.
+      for (const auto &entry : equationPartitions) {
+        for (const IndexSet &indices : entry.second) {
+          EquationView equationView(entry.first, indices);
+          partitionsMap[equationView] = partitionsGraph.addVertex(equationView);
         }
+      }
 
-        partitionsGraph.addEdge(partitionsMap[source], partitionsMap[first]);
+      // Add the edges. The cycles that have been found determine only how the
+      // indices are split, while the dependencies among the partitions have to
+      // be considered all together. The write accesses may also read what is
+      // written by the other partitions of the same equation.
+      for (const auto &source : partitionsMap) {
+        llvm::MapVector<typename Access::VariableId, IndexSet> readVariables;
+
+        for (const auto *accesses : {&cachedReadAccesses[*source.first],
+                                     &cachedWriteAccesses[*source.first]}) {
+          for (const Access &access : *accesses) {
+            readVariables[access.getVariable()] +=
+                access.getAccessFunction().map(source.first.getIndices());
+          }
+        }
+
+        for (const auto &destination : partitionsMap) {
+          if (source.second == destination.second) {
+            continue;
+          }
+
+          for (const Access &access : cachedWriteAccesses[*destination.first]) {
+            auto readVariableIt = readVariables.find(access.getVariable());
+
+            if (readVariableIt == readVariables.end()) {
+              continue;
+            }
+
+            if (readVariableIt->second.overlaps(access.getAccessFunction().map(
+                    destination.first.getIndices()))) {
+              partitionsGraph.addEdge(source.second, destination.second);
+              break;
+            }
+          }
+        }
       }
 
-      // Create the cyclic SCCs.
+      // Create the SCCs.
       auto sccBeginIt = llvm::scc_begin(
           static_cast<const PartitionsGraph *>(&partitionsGraph));
 
@@ -439,22 +484,6 @@ public:
           result.push_back(std::move(partitionsSCC));
         }
       }
-
-      // Create the SCCs for the remaining indices.
-      for (const EquationDescriptor &equation : scc) {
-        IndexSet remainingEquationIndices =
-            arrayDependencyGraph.getEquation(equation).getIterationRanges();
-
-        remainingEquationIndices -= visitedEquationIndices[equation];
-
-        if (!remainingEquationIndices.empty()) {
-          std::lock_guard<std::mutex> lock(resultMutex);
-          SCC &remainingIndicesSCC = result.emplace_back();
-
-          remainingIndicesSCC.addEquation(
-              EquationView(equation, std::move(remainingEquationIndices)));
-        }
-      }
     };
 
     mlir::parallelForEach(getContext(), SCCs, processFn);
@@ -637,6 +666,22 @@ private:
                 restrictPathIndicesBackward(extendedPath,
                                             extendedPath.size() - 1);
 
+                // Discard the path if no index is left to some equation.
+                if (llvm::any_of(extendedPath,
+                                 [](const PathDependency &dependency) {
+                                   return dependency.equationIndices.empty();
+                                 })) {
+                  return;
+                }
+
+                // An equation depending directly on itself does not lead to a
+                // cycle among equations. Its other dependencies are already
+                // being explored, while going on may never end.
+                if (isSelfLoop(extendedPath, writingEquation,
+                               writingEquationIndices)) {
+                  return;
+                }
+
                 // Check if the writing equation leads to a cycle.
                 if (auto cycle =
                         extractCycleIfAny(extendedPath, writingEquation,
@@ -738,6 +783,23 @@ private:
     }
   }
 
+  /// Check whether the next equation has already been visited with some of the
+  /// given indices, without going through any other equation in the meanwhile.
+  bool isSelfLoop(const Path &path, EquationDescriptor nextEquation,
+                  const IndexSet &nextEquationIndices) const {
+    auto dependencyIt =
+        llvm::find_if(path, [&](const PathDependency &dependency) {
+          return dependency.equation == nextEquation &&
+                 dependency.equationIndices.overlaps(nextEquationIndices);
+        });
+
+    return dependencyIt != path.end() &&
+           std::all_of(dependencyIt, path.end(),
+                       [&](const PathDependency &dependency) {
+                         return dependency.equation == nextEquation;
+                       });
+  }
+
   std::optional<Path>
   extractCycleIfAny(const Path &path, EquationDescriptor nextEquation,
                     const IndexSet &nextEquationIndices) const {
@@ -757,21 +819,13 @@ private:
         });
 
     if (dependencyIt != path.end()) {
-      // Check if the path involves more than one array equation.
-      bool isSelfLoop = std::all_of(
-          dependencyIt, path.end(), [&](const PathDependency &dependency) {
-            return dependency.equation == path.begin()->equation;
-          });
-
-      if (!isSelfLoop) {
-        Path cycle;
+      Path cycle;
 
-        for (auto it = dependencyIt; it != path.end(); ++it) {
-          cycle = cycle + std::move(*it);
-        }
-
-        return cycle;
+      for (auto it = dependencyIt; it != path.end(); ++it) {
+        cycle = cycle + std::move(*it);
       }
+
+      return cycle;
     }
 
     return std::nullopt;
-- 
2.43.0


From 66c6289f261dc673cf9796a31b57455cdda76e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:27 +0000
Subject: [PATCH 20/83] fix: list the self-loops of undirected graphs only once

---
 include/marco/Modeling/Graph.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 3940429..06d22af 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -653,11 +653,9 @@ public:
 
   /// Get the number of edges.
   size_t edgesCount() const {
-    if (directed) {
-      return edges.size();
-    }
-
-    return edges.size() / 2;
+    // Each edge has its own property, even when it is undirected and thus
+    // represented by two wrappers.
+    return edgeProperties.size();
   }
 
   /// Add a vertex to the graph.
@@ -683,12 +681,12 @@ public:
       for (Edge *incomingEdge : incomingEdges.second) {
         otherVertex.removeEdge(*incomingEdge);
 
-        if (directed) {
-          // Deallocate the edge property only in case of directed graph. In
-          // case of undirected graph, the edge property will be deallocated
-          // while visiting the outgoing edges (in an undirected graph the edge
-          // property is shared between the wrapper, and a double deallocation
-          // would otherwise occur).
+        if (directed || &otherVertex == &vertex) {
+          // Deallocate the edge property only in case of directed graph or
+          // self-loop. In case of undirected graph, the edge property will be
+          // deallocated while visiting the outgoing edges (in an undirected
+          // graph the edge property is shared between the wrapper, and a
+          // double deallocation would otherwise occur).
           edgeProperties.remove(**incomingEdge);
           delete **incomingEdge;
         }
@@ -782,7 +780,7 @@ public:
     assert(edgeInsertion);
     dest.addIncomingEdge(&src, ptr);
 
-    if (!directed) {
+    if (!directed && &src != &dest) {
       // If the graph is undirected, add also the edge going from the
       // destination to the source.
       auto *inversePtr = new Edge(src, edgeProperty);
-- 
2.43.0


From 35b6114286cf41e7ac0117bc259f7b2bfa5b3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 21/83] fix: let the linked vertices of a graph be filtered

---
 include/marco/Modeling/Graph.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 06d22af..8001f6e 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -501,11 +501,14 @@ private:
   using BaseEdgeIterator = typename GraphTraits::BaseEdgeIterator;
 
 public:
-  using iterator_category = std::forward_iterator_tag;
+  using iterator_category = std::input_iterator_tag;
   using value_type = VertexDescriptor;
   using difference_type = std::ptrdiff_t;
   using pointer = VertexDescriptor *;
-  using reference = VertexDescriptor &;
+
+  // Input iterator does not require the 'reference' type to be an actual
+  // reference.
+  using reference = VertexDescriptor;
 
 private:
   LinkedVerticesIterator(const Graph &graph, BaseEdgeIterator current)
-- 
2.43.0


From 7b118c8e6970f6eaacff15818131b927063f1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 22/83] fix: do not swallow the characters following a real
 literal

---
 lib/Parser/BaseModelica/StateMachine.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..14bc9e1 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,8 +187,14 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
-    state = State::ParsingFloat;
-    return std::nullopt;
+    if (isDigit(next) || next == 'E' || next == 'e') {
+      state = State::ParsingFloat;
+      return std::nullopt;
+    }
+
+    // The fractional part can be omitted.
+    state = State::Normal;
+    return makeToken(TokenKind::FloatingPoint, getFloat());
   }
 
   if (current == 'E' || current == 'e') {
@@ -222,10 +228,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
 template <>
 std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
-  if (std::isspace(current) || current == '\0') {
-    state = State::Normal;
-    return makeToken(TokenKind::FloatingPoint, getFloat());
-  }
+  setTokenEndPosition();
 
   if (isDigit(current)) {
     numberLexer.addLower(current - '0');
@@ -242,6 +245,10 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
@@ -249,7 +256,6 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
   }
 
   state = State::Normal;
-  setTokenEndPosition();
   return makeToken(TokenKind::FloatingPoint, getFloat());
 }
 
-- 
2.43.0


From d335bb733f45cf70091aa283dc7a66a18cbc228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 23/83] fix: detect the end of multi-line comments properly

---
 .../marco/Parser/BaseModelica/StateMachine.h  |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp      | 24 +++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..f9a1a03 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentBegin,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 14bc9e1..5d6ee9a 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -354,12 +354,14 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
-  setTokenEndPosition();
-
-  if (next == '\0') {
-    state = State::Normal;
+  if (current == '\0') {
+    state = State::End;
+    error = "reached end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
   }
 
+  setTokenEndPosition();
+
   if (current == '*' && next == '/') {
     state = State::IgnoredCharacter;
   }
@@ -367,6 +369,15 @@ StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
   return std::nullopt;
 }
 
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
+  // Skip the '*' opening the comment, so that it can't also close it.
+  setTokenEndPosition();
+  state = State::ParsingMultiLineComment;
+  return std::nullopt;
+}
+
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingBackSlash>() {
@@ -524,7 +535,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentBegin;
     return std::nullopt;
   }
 
@@ -669,6 +680,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentBegin:
+    return scan<State::ParsingMultiLineCommentBegin>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From 9681494aca7fda775878cc742f4391c70c321ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 24/83] fix: end the errors about unterminated literals at the
 last character

---
 lib/Parser/BaseModelica/StateMachine.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 5d6ee9a..169c6a5 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -156,6 +156,12 @@ StateMachine::scan<StateMachine::State::ParsingIdentifier>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingQIdentifier>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "unexpected end of file while parsing a q-identifier";
+    return makeToken(TokenKind::Error, getError());
+  }
+
   setTokenEndPosition();
 
   if (current == '\\') {
@@ -168,12 +174,6 @@ StateMachine::scan<StateMachine::State::ParsingQIdentifier>() {
     return makeToken(TokenKind::Identifier, getIdentifier());
   }
 
-  if (next == '\0') {
-    state = State::Normal;
-    error = "unexpected end of file while parsing a q-identifier";
-    return makeToken(TokenKind::Error, getError());
-  }
-
   identifier.push_back(current);
   return std::nullopt;
 }
@@ -381,6 +381,10 @@ StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingBackSlash>() {
+  if (current == '\0') {
+    return scan<State::ParsingString>();
+  }
+
   setTokenEndPosition();
   stringValue.push_back(escapedChar(current));
   state = State::ParsingString;
@@ -390,6 +394,10 @@ StateMachine::scan<StateMachine::State::ParsingBackSlash>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingQIdentifierBackSlash>() {
+  if (current == '\0') {
+    return scan<State::ParsingQIdentifier>();
+  }
+
   setTokenEndPosition();
   identifier.push_back(escapedChar(current));
   state = State::ParsingQIdentifier;
-- 
2.43.0


From 6c4976e1893aad585ce9fce997f85baca7b62b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 25/83] fix: convert real literals to the nearest representable
 value

---
 include/marco/Lexer/FloatLexer.h | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..8474f8d 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -3,6 +3,8 @@
 
 #include "marco/Lexer/IntegerLexer.h"
 #include <cmath>
+#include <cstdlib>
+#include <string>
 
 namespace marco::lexer {
 /// Used to build floats in the form upper.lower * (base ^ exponent) as
@@ -11,11 +13,15 @@ template <unsigned int Base>
 class FloatLexer {
 public:
   /// Concatenate the number to the integer part.
-  void addUpper(int i) { upperPart += i; }
+  void addUpper(int i) {
+    upperPart += i;
+    addDigit(upperDigits, i);
+  }
 
   /// Concatenate the number to the rational part.
   void addLower(int i) {
     lowerPart += i;
+    addDigit(lowerDigits, i);
 
     if (i != 0) {
       leadingZero = false;
@@ -30,6 +36,7 @@ public:
   void addExponential(int i) {
     hasExponential = true;
     exponential += i;
+    addDigit(exponentialDigits, i);
   }
 
   /// Set the exponent sign to + if true, - if false.
@@ -43,6 +50,18 @@ public:
 
   /// Returns upper.lower * (base ^ (sign * exponent)).
   double get() const {
+    if constexpr (Base == 10) {
+      // Rely on the conversion of the standard library, which provides the
+      // nearest representable value for any amount of digits.
+      std::string text = "0" + upperDigits + "." + lowerDigits + "0";
+
+      if (hasExponential) {
+        text += (expSign ? "e+0" : "e-0") + exponentialDigits;
+      }
+
+      return std::strtod(text.c_str(), nullptr);
+    }
+
     int64_t mantissaNormalizer = 1;
 
     while (mantissaNormalizer <= lowerPart.get()) {
@@ -74,9 +93,16 @@ public:
     expSign = true;
     leadingZero = true;
     fractionalLeadingZeros = 0;
+    upperDigits.clear();
+    lowerDigits.clear();
+    exponentialDigits.clear();
   }
 
 private:
+  static void addDigit(std::string &digits, int i) {
+    digits.push_back(static_cast<char>('0' + i));
+  }
+
   IntegerLexer<Base> upperPart;
   IntegerLexer<Base> lowerPart;
   bool hasExponential = false;
@@ -84,6 +110,9 @@ private:
   bool expSign = true;
   bool leadingZero = true;
   int fractionalLeadingZeros = 0;
+  std::string upperDigits;
+  std::string lowerDigits;
+  std::string exponentialDigits;
 };
 } // namespace marco::lexer
 
-- 
2.43.0


From 3f650ed81c2be036bef8df10798c2e389b1b0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 26/83] fix: report the tokens that cannot start an expression

---
 lib/Parser/BaseModelica/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..39b959d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1455,6 +1455,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setCallee(std::move(*identifier));
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
+  } else {
+    emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
+    return std::nullopt;
   }
 
   assert(result != nullptr);
-- 
2.43.0


From 30cc4012d2d0f3581eb5ffe943bbb55571fb8523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 27/83] fix: accept the global lookup of component references
 within expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 39b959d..640e2fe 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1439,7 +1439,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
 
-  } else if (lookahead[0].isa<TokenKind::Identifier>()) {
+  } else if (lookahead[0].isa<TokenKind::Dot>() ||
+             lookahead[0].isa<TokenKind::Identifier>()) {
     TRY(identifier, parseComponentReference());
     loc.end = (*identifier)->getLocation().end;
 
-- 
2.43.0


From 4a11c4c18bbfe1970c2ab5956ca5fa8a8593da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 28/83] fix: require commas between the expressions of output
 lists

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 640e2fe..fd98884 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1725,7 +1725,10 @@ Parser::parseOutputExpressionList() {
 
     TRY(expression, parseExpression());
     expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+
+    if (!accept<TokenKind::Comma>()) {
+      break;
+    }
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From 563227c3354155914006ba622becdd63db0056f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 29/83] fix: accept call statements without arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index fd98884..aef7b74 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -659,19 +659,16 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
-
-    auto callee = std::make_unique<ComponentReference>(loc);
+    TRY(functionCallArgs, parseFunctionCallArgs());
     loc.end = getLocation().end;
     auto result = std::make_unique<CallStatement>(loc);
 
     {
       auto call = std::make_unique<Call>(loc);
       call->setCallee(std::move(*destination));
-      call->setArguments(functionArguments->getValue());
+      call->setArguments(functionCallArgs->getValue());
       result->setCall(std::move(call));
     }
 
-- 
2.43.0


From 2b0b0cc3aaee1bfb83421b6e72d8d6fd042d2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 30/83] fix: expect 'end when' at the end of when equations

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index aef7b74..da50c0c 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -992,7 +992,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
-- 
2.43.0


From cacb88d11b7f410557316b2e71870a4a358b006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 31/83] fix: expect 'then' after the condition of when
 statements

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index da50c0c..ee2b7a8 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1016,7 +1016,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From 31d7104a9392da65347e4e7e3f939a844fa38dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 32/83] fix: report an 'initial' keyword followed by neither
 equations nor algorithms

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index ee2b7a8..176b767 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -233,7 +233,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
          !lookahead[0].isa<TokenKind::Annotation>() &&
          !lookahead[0].isa<TokenKind::External>()) {
     if (lookahead[0].isa<TokenKind::Initial>() &&
-        lookahead[1].isa<TokenKind::Equation>()) {
+        !lookahead[1].isa<TokenKind::Algorithm>()) {
       TRY(section, parseEquationSection());
       equationSections.push_back(std::move(*section));
       continue;
-- 
2.43.0


From 60ddf883d3ef7eb7f1e1334c3f2b7b31894841d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 33/83] fix: accept elements after the classes nested in public
 and protected sections

---
 lib/Parser/BaseModelica/Parser.cpp | 34 ++++++++----------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 176b767..06f6724 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -221,13 +221,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> algorithms;
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> innerClasses;
 
-  // Whether the first elements list is allowed to be encountered or not.
-  // In fact, the class definition allows a first elements list definition
-  // and then others more if preceded by "public" or "protected", but no
-  // more "lone" definitions are allowed if any of those keywords are
-  // encountered.
+  // Whether the elements are public. The elements of the first list, which is
+  // not preceded by the "public" or "protected" keywords, are public. The
+  // classes can be interleaved with the elements of a list.
 
-  bool firstElementListParsable = true;
+  bool publicSection = true;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Annotation>() &&
@@ -269,33 +267,19 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
     }
 
     if (accept<TokenKind::Public>()) {
-      TRY(elementList, parseElementList(true));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = true;
       continue;
     }
 
     if (accept<TokenKind::Protected>()) {
-      TRY(elementList, parseElementList(false));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = false;
       continue;
     }
 
-    if (firstElementListParsable) {
-      TRY(elementList, parseElementList(true));
+    TRY(elementList, parseElementList(publicSection));
 
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
+    for (auto &element : *elementList) {
+      members.push_back(std::move(element));
     }
   }
 
-- 
2.43.0


From a09fcced60d6d080633cef2c502972874c0f1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 34/83] fix: end the lists of elements at the annotations of
 classes

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 06f6724..fe679a7 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1782,7 +1782,8 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
-         !lookahead[0].isa<TokenKind::External>()) {
+         !lookahead[0].isa<TokenKind::External>() &&
+         !lookahead[0].isa<TokenKind::Annotation>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
     members.push_back(std::move(*member));
-- 
2.43.0


From 0531830027cbec2f17eda40d3837141d1c630e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 35/83] fix: accept initial algorithms

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index fe679a7..6b1d4e6 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -502,14 +502,17 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  SourceRange loc = lookahead[0].getLocation();
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
-  SourceRange loc = getLocation();
+  loc.end = getLocation().end;
 
   llvm::SmallVector<std::unique_ptr<ASTNode>, 10> statements;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
@@ -522,6 +525,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From 182ca38da8ac8e35b93bd9702ac2b7602ac03a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 36/83] fix: accept operators, pure and impure functions nested
 in classes

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 6b1d4e6..76ac2bd 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -258,8 +258,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
 
     if (lookahead[0].isa<TokenKind::Class>() ||
         lookahead[0].isa<TokenKind::Function>() ||
+        lookahead[0].isa<TokenKind::Impure>() ||
         lookahead[0].isa<TokenKind::Model>() ||
+        lookahead[0].isa<TokenKind::Operator>() ||
         lookahead[0].isa<TokenKind::Package>() ||
+        lookahead[0].isa<TokenKind::Pure>() ||
         lookahead[0].isa<TokenKind::Record>()) {
       TRY(innerClass, parseClassDefinition());
       innerClasses.emplace_back(std::move(*innerClass));
@@ -1783,8 +1786,11 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Class>() &&
          !lookahead[0].isa<TokenKind::Function>() &&
+         !lookahead[0].isa<TokenKind::Impure>() &&
          !lookahead[0].isa<TokenKind::Model>() &&
+         !lookahead[0].isa<TokenKind::Operator>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
+         !lookahead[0].isa<TokenKind::Pure>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
          !lookahead[0].isa<TokenKind::External>() &&
          !lookahead[0].isa<TokenKind::Annotation>()) {
-- 
2.43.0


From a52c17f8d823f0dee9e0af9f9cc7976def4f155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 37/83] fix: reject the partial derivatives of classes that are
 not functions

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 76ac2bd..54ae5c8 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -187,9 +187,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   loc.end = name->getLocation().end;
   result->setLocation(loc);
 
-  if (accept<TokenKind::EqualityOperator>()) {
+  if (result->isa<StandardFunction>() &&
+      accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From 8bbf8788a46975eafbc36537e22604f409c5d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 38/83] fix: report the unsupported redeclarations and
 replaceable elements

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 54ae5c8..e54a79c 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -494,13 +494,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // TODO: not supported yet.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // TODO: not supported yet.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From 1120ad48efea947989c4ac4aafd8fcf36dffc0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 39/83] fix: check that types are identifiers before accessing
 their names

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e54a79c..80c2a7b 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1878,8 +1878,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1899,9 +1899,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
     path.push_back(name);
 
     while (accept<TokenKind::Dot>()) {
-      loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      loc.end = getLocation().end;
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
-- 
2.43.0


From d77db4a6b16aaaab32bd11d85d62f9e2d0ee51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 40/83] fix: accept array dimensions whose expression starts
 with an integer literal

---
 lib/Parser/BaseModelica/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 80c2a7b..6e826c6 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1930,7 +1930,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
-- 
2.43.0


From 08760fbe413ec60f5511da01eae3c26a285fefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 41/83] fix: reject trailing commas in the arguments of
 external function calls

---
 lib/Parser/BaseModelica/Parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 6e826c6..445ec13 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -375,13 +375,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseExternalFunctionCall() {
   // Function arguments.
   llvm::SmallVector<std::unique_ptr<ASTNode>> args;
 
-  while (!lookahead[0].isa<TokenKind::RPar>()) {
-    TRY(arg, parseExpression());
-    args.push_back(std::move(*arg));
-
-    if (!lookahead[0].isa<TokenKind::RPar>()) {
-      EXPECT(TokenKind::Comma);
-    }
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    do {
+      TRY(arg, parseExpression());
+      args.push_back(std::move(*arg));
+    } while (accept<TokenKind::Comma>());
   }
 
   result->setArguments(std::move(args));
-- 
2.43.0


From 99ee352cacbf835d34dfb19fe7848a86c01d568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 42/83] fix: accept empty class modifications

---
 lib/Parser/BaseModelica/Parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 445ec13..f2f88ca 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -424,12 +424,18 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseModification() {
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassModification() {
   EXPECT(TokenKind::LPar);
   SourceRange loc = getLocation();
-  TRY(argumentList, parseArgumentList());
+  std::vector<std::unique_ptr<ASTNode>> arguments;
+
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    TRY(argumentList, parseArgumentList());
+    arguments = std::move(**argumentList);
+  }
+
   EXPECT(TokenKind::RPar);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<ClassModification>(loc);
-  result->setArguments(**argumentList);
+  result->setArguments(arguments);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
 
-- 
2.43.0


From faafa01940c95f67473027e65e9d3c74f70f37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 43/83] fix: make room for the elseif and elsewhen blocks of
 equations

---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..e90afc6 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From 330b6aa9b6967ea5a11df48a82a892f65cb42220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 44/83] fix: set the parent of the arguments of copied class
 modifications

---
 lib/AST/BaseModelica/Modification.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index fbedeba..fcffdf4 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -127,9 +127,7 @@ ClassModification::ClassModification(SourceRange location)
 
 ClassModification::ClassModification(const ClassModification &other)
     : ASTNode(other) {
-  for (const auto &arg : other.arguments) {
-    this->arguments.push_back(arg->clone());
-  }
+  setArguments(other.arguments);
 }
 
 ClassModification::~ClassModification() = default;
-- 
2.43.0


From 0851903d2e4a098ce12ed05b3d99a32629d247c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 45/83] fix: do not mistake when equations for if equations

---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e90afc6..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0


From 096e0b07f06efbd160af2fe63b3644e8b632ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 46/83] fix: parse the arguments of function calls iteratively

The recursion on the positional arguments following the first one exhausted
the stack when given long lists of arguments.
---
 lib/Parser/BaseModelica/Parser.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f2f88ca..7c0bab3 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1593,24 +1593,24 @@ Parser::parseFunctionArguments() {
 
 WrappedParseResult<std::vector<std::unique_ptr<ASTNode>>>
 Parser::parseFunctionArgumentsNonFirst() {
-  if (lookahead[0].isa<TokenKind::Identifier>() &&
-      lookahead[1].isa<TokenKind::EqualityOperator>()) {
-    // Named arguments.
-    return parseNamedArguments();
-  }
-
   std::vector<std::unique_ptr<ASTNode>> arguments;
 
-  TRY(firstArg, parseFunctionArgument());
-  arguments.push_back(std::move(*firstArg));
+  do {
+    if (lookahead[0].isa<TokenKind::Identifier>() &&
+        lookahead[1].isa<TokenKind::EqualityOperator>()) {
+      // Named arguments.
+      TRY(namedArgs, parseNamedArguments());
 
-  while (accept<TokenKind::Comma>()) {
-    TRY(remainingArgs, parseFunctionArgumentsNonFirst());
+      for (auto &namedArg : **namedArgs) {
+        arguments.push_back(std::move(namedArg));
+      }
 
-    for (auto &remainingArg : **remainingArgs) {
-      arguments.push_back(std::move(remainingArg));
+      break;
     }
-  }
+
+    TRY(arg, parseFunctionArgument());
+    arguments.push_back(std::move(*arg));
+  } while (accept<TokenKind::Comma>());
 
   SourceRange loc = arguments.front()->getLocation();
   loc.end = arguments.back()->getLocation().end;
-- 
2.43.0


From bdaf5783fb744c5fa4185c3d4556a73c02047edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 47/83] fix: report an error when the nesting is too deep

The nesting of expressions, equations, statements, modifications and classes
was unbounded, and deeply nested sources exhausted the stack.
---
 include/marco/Parser/BaseModelica/Parser.h | 22 +++++++++++
 lib/Parser/BaseModelica/Parser.cpp         | 46 ++++++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/include/marco/Parser/BaseModelica/Parser.h b/include/marco/Parser/BaseModelica/Parser.h
index 3eea92f..500b3e4 100644
--- a/include/marco/Parser/BaseModelica/Parser.h
+++ b/include/marco/Parser/BaseModelica/Parser.h
@@ -244,6 +244,27 @@ private:
   std::optional<std::unique_ptr<ast::ASTNode>> parseTermModification();
 
 private:
+  /// The maximum number of expressions, equations, statements, modifications
+  /// and classes that can be nested one into the other.
+  static constexpr unsigned kMaxNestingDepth = 512;
+
+  /// Keeps track of the nesting depth while a construct is being parsed.
+  class NestingScope {
+  public:
+    explicit NestingScope(unsigned &depth) : depth(depth) { ++depth; }
+
+    NestingScope(const NestingScope &other) = delete;
+    NestingScope &operator=(const NestingScope &other) = delete;
+
+    ~NestingScope() { --depth; }
+
+  private:
+    unsigned &depth;
+  };
+
+  /// Emit an error if the current nesting is too deep.
+  [[nodiscard]] bool checkNestingDepth();
+
   /// Move to the next token.
   void advance();
 
@@ -293,6 +314,7 @@ private:
   lexer::Lexer<StateMachine> lexer;
   Token token{TokenKind::Begin};
   llvm::SmallVector<Token, 2> lookahead{2, Token(TokenKind::Begin)};
+  unsigned nestingDepth{0};
 };
 } // namespace marco::parser::bmodelica
 
diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 7c0bab3..79a5b1d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -91,6 +91,22 @@ void Parser::emitUnexpectedIdentifierError(const SourceRange &location,
   diags.Report(convertedLocation, diagID) << found << expected;
 }
 
+bool Parser::checkNestingDepth() {
+  if (nestingDepth <= kMaxNestingDepth) {
+    return true;
+  }
+
+  auto &diags = *diagnosticsEngine;
+  auto location = convertLocation(lookahead[0].getLocation());
+
+  auto diagID =
+      diags.getCustomDiagID(clang::DiagnosticsEngine::Error,
+                            "Nesting exceeds the maximum depth of '%0'");
+
+  diags.Report(location, diagID) << kMaxNestingDepth;
+  return false;
+}
+
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseRoot() {
   llvm::SmallVector<std::unique_ptr<ASTNode>, 1> classes;
 
@@ -143,6 +159,12 @@ WrappedParseResult<std::string> Parser::parseIdentifier() {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
+  NestingScope nesting(nestingDepth);
+
+  if (!checkNestingDepth()) {
+    return std::nullopt;
+  }
+
   SourceRange loc = lookahead[0].getLocation();
   std::unique_ptr<ASTNode> result;
 
@@ -422,6 +444,12 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseModification() {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassModification() {
+  NestingScope nesting(nestingDepth);
+
+  if (!checkNestingDepth()) {
+    return std::nullopt;
+  }
+
   EXPECT(TokenKind::LPar);
   SourceRange loc = getLocation();
   std::vector<std::unique_ptr<ASTNode>> arguments;
@@ -566,6 +594,12 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseEquationSection() {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseEquation() {
+  NestingScope nesting(nestingDepth);
+
+  if (!checkNestingDepth()) {
+    return std::nullopt;
+  }
+
   if (lookahead[0].isa<TokenKind::If>()) {
     TRY(ifEquation, parseIfEquation());
     return std::move(*ifEquation);
@@ -596,6 +630,12 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseEquation() {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
+  NestingScope nesting(nestingDepth);
+
+  if (!checkNestingDepth()) {
+    return std::nullopt;
+  }
+
   if (lookahead[0].isa<TokenKind::If>()) {
     TRY(statement, parseIfStatement());
     return std::move(*statement);
@@ -1034,6 +1074,12 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseExpression() {
+  NestingScope nesting(nestingDepth);
+
+  if (!checkNestingDepth()) {
+    return std::nullopt;
+  }
+
   if (accept<TokenKind::If>()) {
     SourceRange loc = getLocation();
 
-- 
2.43.0


From c75aca858cd4fc3dca502620aded9d563a3c933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 48/83] fix: do not truncate the bounds of the slices of
 variable filters

The bounds are 64-bit integers, but they went through an int: a bound such as
4294967295 was taken as an unbounded one.
---
 include/marco/VariableFilter/Parser.h | 2 +-
 lib/VariableFilter/Parser.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/marco/VariableFilter/Parser.h b/include/marco/VariableFilter/Parser.h
index 6a07d2d..f540916 100644
--- a/include/marco/VariableFilter/Parser.h
+++ b/include/marco/VariableFilter/Parser.h
@@ -27,7 +27,7 @@ public:
 
   std::optional<Range> parseArrayRange();
 
-  std::optional<int> parseArrayIndex();
+  std::optional<int64_t> parseArrayIndex();
 
   std::optional<DerivativeExpression> parseDer();
 
diff --git a/lib/VariableFilter/Parser.cpp b/lib/VariableFilter/Parser.cpp
index e047c78..498b6cb 100644
--- a/lib/VariableFilter/Parser.cpp
+++ b/lib/VariableFilter/Parser.cpp
@@ -202,7 +202,7 @@ std::optional<Range> Parser::parseArrayRange() {
   return Range(*lowerBound, *upperBound);
 }
 
-std::optional<int> Parser::parseArrayIndex() {
+std::optional<int64_t> Parser::parseArrayIndex() {
   if (accept<TokenKind::Dollar>()) {
     return Range::kUnbounded;
   }
-- 
2.43.0


From 9e0041035f84dc7887aa4e402322acd4e82075c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 49/83] fix: recognize the extension of object files

The extensions are given without their leading dot.
---
 lib/IO/InputFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/IO/InputFile.cpp b/lib/IO/InputFile.cpp
index 8af8ff5..58747ff 100644
--- a/lib/IO/InputFile.cpp
+++ b/lib/IO/InputFile.cpp
@@ -33,7 +33,7 @@ InputKind InputKind::getFromExtension(llvm::StringRef extension) {
     return {Language::LLVM_IR, Format::Source};
   }
 
-  if (extension == ".o") {
+  if (extension == "o") {
     return {Language::Unknown, Format::Object};
   }
 
-- 
2.43.0


From 2e777189dae2fe1bc31533c579e571dea24385fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 50/83] fix: infer the result type of a tensor multiplied by a
 scalar

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f436769..3b21837 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3806,6 +3806,16 @@ mlir::LogicalResult MulOp::inferReturnTypes(
     return mlir::success();
   }
 
+  if (lhsShapedType && isScalar(rhsType)) {
+    mlir::Type resultElementType =
+        getMostGenericScalarType(lhsShapedType.getElementType(), rhsType);
+
+    returnTypes.push_back(mlir::RankedTensorType::get(lhsShapedType.getShape(),
+                                                      resultElementType));
+
+    return mlir::success();
+  }
+
   if (lhsShapedType && rhsShapedType) {
     mlir::Type resultElementType = getMostGenericScalarType(
         lhsShapedType.getElementType(), rhsShapedType.getElementType());
-- 
2.43.0


From f5e1ed9dc90400096195f678ef262ab5465efc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 51/83] fix: ignore the function results beyond the ones being
 assigned

---
 lib/Codegen/Lowering/AssignmentStatementLowerer.cpp | 6 +++---
 lib/Codegen/Lowering/EqualityEquationLowerer.cpp    | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp b/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp
index 52eccda..10796d4 100644
--- a/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp
+++ b/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp
@@ -19,10 +19,10 @@ bool AssignmentStatementLowerer::lower(
     return false;
   }
 
-  assert(values->size() == destinations->size() &&
-         "Unequal number of destinations and results");
+  assert(values->size() >= destinations->size() &&
+         "Less results than destinations");
 
-  for (size_t i = 0, e = values->size(); i < e; ++i) {
+  for (size_t i = 0, e = destinations->size(); i < e; ++i) {
     const auto *destinationRef =
         destinations->getExpression(i)
             ->cast<ast::bmodelica::ComponentReference>();
diff --git a/lib/Codegen/Lowering/EqualityEquationLowerer.cpp b/lib/Codegen/Lowering/EqualityEquationLowerer.cpp
index 5476bbc..9006148 100644
--- a/lib/Codegen/Lowering/EqualityEquationLowerer.cpp
+++ b/lib/Codegen/Lowering/EqualityEquationLowerer.cpp
@@ -52,6 +52,11 @@ bool EqualityEquationLowerer::lower(
     }
   }
 
+  // The additional results of a function call are discarded.
+  if (rhs.size() > lhs.size()) {
+    rhs.truncate(lhs.size());
+  }
+
   mlir::Value lhsTuple = builder().create<EquationSideOp>(location, lhs);
   mlir::Value rhsTuple = builder().create<EquationSideOp>(location, rhs);
   builder().create<EquationSidesOp>(location, lhsTuple, rhsTuple);
-- 
2.43.0


From 4077b24862befd2e0b9f28f91a337b163c3285a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 52/83] fix: do not check constant indices against dynamic
 dimensions

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 3b21837..c11ddc0 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -725,7 +725,7 @@ mlir::LogicalResult TensorExtractOp::verify() {
         }
 
         if (int64_t dimSize = getTensor().getType().getDimSize(i);
-            *index >= dimSize) {
+            !mlir::ShapedType::isDynamic(dimSize) && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1028,7 +1028,8 @@ mlir::LogicalResult LoadOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            !mlir::ShapedType::isDynamic(dimSize) && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1126,7 +1127,8 @@ mlir::LogicalResult StoreOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            !mlir::ShapedType::isDynamic(dimSize) && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
-- 
2.43.0


From 61b16f3284f6f955b0de968cfe895b1c6ec00b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 53/83] fix: keep the matched indices when only some inductions
 are eliminated

---
 .../SingleValuedInductionElimination.cpp      | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
index 3f65d65..813bd73 100644
--- a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
@@ -92,6 +92,20 @@ mlir::LogicalResult SingleValuedInductionEliminationPass::processEquation(
 
   IndexSet remainingIndices = equationIndices;
 
+  // The write accesses have to be collected on the original equation, whose
+  // indices are coherent with its template.
+  llvm::SmallVector<VariableAccess> writeAccesses;
+
+  if (equation.getProperties().match) {
+    llvm::SmallVector<VariableAccess> accesses;
+
+    if (mlir::failed(equation.getAccesses(accesses, symbolTableCollection)) ||
+        mlir::failed(equation.getWriteAccesses(
+            writeAccesses, symbolTableCollection, accesses))) {
+      return mlir::failure();
+    }
+  }
+
   for (const MultidimensionalRange &range : llvm::make_range(
            equationIndices.rangesBegin(), equationIndices.rangesEnd())) {
     size_t rank = range.rank();
@@ -135,18 +149,23 @@ mlir::LogicalResult SingleValuedInductionEliminationPass::processEquation(
         }
       }
 
-      remainingIndices -= MultidimensionalRange(removedRanges);
+      IndexSet removedIndices{MultidimensionalRange(removedRanges)};
+      remainingIndices -= removedIndices;
 
-      if (newRanges.empty()) {
-        if (mlir::failed(newInstance.setIndices({}, symbolTableCollection))) {
-          return mlir::failure();
+      if (newInstance.getProperties().match) {
+        newInstance.getProperties().match.indices = {};
+
+        for (const VariableAccess &writeAccess : writeAccesses) {
+          newInstance.getProperties().match.indices +=
+              writeAccess.getAccessFunction().map(removedIndices);
         }
+      }
+
+      if (newRanges.empty()) {
+        newInstance.getProperties().setIndices({});
       } else {
-        if (mlir::failed(newInstance.setIndices(
-                IndexSet(MultidimensionalRange(newRanges)),
-                symbolTableCollection))) {
-          return mlir::failure();
-        }
+        newInstance.getProperties().setIndices(
+            IndexSet(MultidimensionalRange(newRanges)));
       }
     }
   }
-- 
2.43.0


From 63db895c2e784cc39e340bb43c809a848c87a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 54/83] fix: start the backward iteration from the last index
 of the range

---
 .../BaseModelica/Transforms/EquationExplicitation.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp b/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
index ad5df36..7415e34 100644
--- a/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
@@ -390,9 +390,13 @@ EquationFunctionOp EquationExplicitationPass::createEquationFunction(
             induction.getLoc(), rewriter.getIndexType(), induction,
             lowerBounds[i]);
 
-        mlir::Value mappedInduction = rewriter.create<mlir::arith::SubIOp>(
+        // The upper bound is exclusive.
+        mlir::Value lastIndex = rewriter.create<mlir::arith::SubIOp>(
             induction.getLoc(), rewriter.getIndexType(), upperBounds[i],
-            offset);
+            oneValue);
+
+        mlir::Value mappedInduction = rewriter.create<mlir::arith::SubIOp>(
+            induction.getLoc(), rewriter.getIndexType(), lastIndex, offset);
 
         shiftedInductions.push_back(mappedInduction);
       }
-- 
2.43.0


From 819fdda8c5d17a16ca1f87c338f026b545d752e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 55/83] fix: include the last element of the slices in the
 variable accesses

---
 lib/Dialect/BaseModelica/IR/Dialect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Dialect.cpp b/lib/Dialect/BaseModelica/IR/Dialect.cpp
index 390396c..a901e4f 100644
--- a/lib/Dialect/BaseModelica/IR/Dialect.cpp
+++ b/lib/Dialect/BaseModelica/IR/Dialect.cpp
@@ -416,7 +416,7 @@ getDimensionAccess(const llvm::DenseMap<mlir::Value, unsigned int>
             static_cast<Range::data_type>(rangeAttr.getUpperBound());
 
         return std::make_unique<DimensionAccessRange>(
-            value.getContext(), Range(lowerBound, upperBound));
+            value.getContext(), Range(lowerBound, upperBound + 1));
       }
 
       if (auto rangeAttr = mlir::dyn_cast<RealRangeAttr>(attr)) {
@@ -429,7 +429,7 @@ getDimensionAccess(const llvm::DenseMap<mlir::Value, unsigned int>
             rangeAttr.getUpperBound().convertToDouble());
 
         return std::make_unique<DimensionAccessRange>(
-            value.getContext(), Range(lowerBound, upperBound));
+            value.getContext(), Range(lowerBound, upperBound + 1));
       }
 
       return std::make_unique<DimensionAccessConstant>(
-- 
2.43.0


From 541cf4891d08f352c350e9533235e461c70f71e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 56/83] fix: bind the named arguments of calls to the inputs
 they name

---
 .../Lowering/BaseModelica/CallLowerer.h       |  8 +++
 lib/Codegen/Lowering/CallLowerer.cpp          | 62 ++++++++++++++++++-
 2 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/include/marco/Codegen/Lowering/BaseModelica/CallLowerer.h b/include/marco/Codegen/Lowering/BaseModelica/CallLowerer.h
index c6c2573..c7b0c4d 100644
--- a/include/marco/Codegen/Lowering/BaseModelica/CallLowerer.h
+++ b/include/marco/Codegen/Lowering/BaseModelica/CallLowerer.h
@@ -41,6 +41,14 @@ private:
       llvm::SmallVectorImpl<std::string> &argNames,
       llvm::SmallVectorImpl<mlir::Value> &argValues);
 
+  /// Sort the values of the arguments according to the inputs they are bound
+  /// to, and clear their names.
+  [[nodiscard]] bool orderNamedArgs(
+      const ast::bmodelica::Call &call,
+      llvm::ArrayRef<mlir::bmodelica::VariableOp> calleeInputs,
+      llvm::SmallVectorImpl<std::string> &argNames,
+      llvm::SmallVectorImpl<mlir::Value> &argValues);
+
   void getRecordConstructorInputVariables(
       llvm::SmallVectorImpl<mlir::bmodelica::VariableOp> &inputVariables,
       mlir::bmodelica::RecordOp recordOp);
diff --git a/lib/Codegen/Lowering/CallLowerer.cpp b/lib/Codegen/Lowering/CallLowerer.cpp
index 203a319..7ebc0cb 100644
--- a/lib/Codegen/Lowering/CallLowerer.cpp
+++ b/lib/Codegen/Lowering/CallLowerer.cpp
@@ -218,6 +218,14 @@ bool CallLowerer::lowerCustomFunctionArgs(
     argValues.push_back(*argValue);
 
     if (existsNamedArgument) {
+      if (argIndex >= calleeInputs.size()) {
+        emitErrorNumArguments(
+            call.getCallee()->cast<ast::bmodelica::ComponentReference>()
+                ->getElement(0)->getName(),
+            call.getLocation(), numOfArgs, calleeInputs.size());
+        return false;
+      }
+
       VariableOp variableOp = calleeInputs[argIndex];
       argNames.push_back(variableOp.getSymName().str());
     }
@@ -243,6 +251,50 @@ bool CallLowerer::lowerCustomFunctionArgs(
     ++argIndex;
   }
 
+  return orderNamedArgs(call, calleeInputs, argNames, argValues);
+}
+
+bool CallLowerer::orderNamedArgs(
+    const ast::bmodelica::Call &call, llvm::ArrayRef<VariableOp> calleeInputs,
+    llvm::SmallVectorImpl<std::string> &argNames,
+    llvm::SmallVectorImpl<mlir::Value> &argValues) {
+  if (argNames.empty()) {
+    return true;
+  }
+
+  llvm::SmallVector<mlir::Value, 3> orderedValues(calleeInputs.size());
+
+  for (const auto &[name, value] : llvm::zip(argNames, argValues)) {
+    const auto *input =
+        llvm::find_if(calleeInputs, [&name = name](VariableOp variableOp) {
+          return variableOp.getSymName() == name;
+        });
+
+    if (input == calleeInputs.end()) {
+      mlir::emitError(loc(call.getLocation()))
+          << "Unknown argument '" << name << "'.";
+
+      return false;
+    }
+
+    mlir::Value &orderedValue =
+        orderedValues[std::distance(calleeInputs.begin(), input)];
+
+    if (orderedValue) {
+      mlir::emitError(loc(call.getLocation()))
+          << "Argument '" << name << "' has already been specified.";
+
+      return false;
+    }
+
+    orderedValue = value;
+  }
+
+  // The absence of some arguments is handled by the caller.
+  llvm::erase(orderedValues, mlir::Value());
+
+  argNames.clear();
+  argValues.assign(orderedValues.begin(), orderedValues.end());
   return true;
 }
 
@@ -290,6 +342,14 @@ bool CallLowerer::lowerRecordConstructorArgs(
     argValues.push_back(*argValue);
 
     if (existsNamedArgument) {
+      if (argIndex >= calleeInputs.size()) {
+        emitErrorNumArguments(
+            call.getCallee()->cast<ast::bmodelica::ComponentReference>()
+                ->getElement(0)->getName(),
+            call.getLocation(), numOfArgs, calleeInputs.size());
+        return false;
+      }
+
       VariableOp variableOp = calleeInputs[argIndex];
       argNames.push_back(variableOp.getSymName().str());
     }
@@ -315,7 +375,7 @@ bool CallLowerer::lowerRecordConstructorArgs(
     ++argIndex;
   }
 
-  return true;
+  return orderNamedArgs(call, calleeInputs, argNames, argValues);
 }
 
 bool CallLowerer::lowerBuiltInFunctionArgs(
-- 
2.43.0


From 6f62cb01f0f2d2baf77e5440663c9c95ba8475e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 57/83] fix: honor the steps and the nested indices of for
 statements

---
 .../BaseModelica/ForStatementLowerer.h        |   5 +
 lib/Codegen/Lowering/ForStatementLowerer.cpp  | 216 ++++++++++--------
 2 files changed, 131 insertions(+), 90 deletions(-)

diff --git a/include/marco/Codegen/Lowering/BaseModelica/ForStatementLowerer.h b/include/marco/Codegen/Lowering/BaseModelica/ForStatementLowerer.h
index af57fe1..34e8ef9 100644
--- a/include/marco/Codegen/Lowering/BaseModelica/ForStatementLowerer.h
+++ b/include/marco/Codegen/Lowering/BaseModelica/ForStatementLowerer.h
@@ -15,6 +15,11 @@ public:
 
 protected:
   using Lowerer::lower;
+
+private:
+  /// Lower the loop over an index, together with the loops nested into it.
+  [[nodiscard]] bool lowerLoop(const ast::bmodelica::ForStatement &statement,
+                               size_t forIndexPosition);
 };
 } // namespace marco::codegen::lowering::bmodelica
 
diff --git a/lib/Codegen/Lowering/ForStatementLowerer.cpp b/lib/Codegen/Lowering/ForStatementLowerer.cpp
index 73dcb3a..3434c12 100644
--- a/lib/Codegen/Lowering/ForStatementLowerer.cpp
+++ b/lib/Codegen/Lowering/ForStatementLowerer.cpp
@@ -9,140 +9,176 @@ ForStatementLowerer::ForStatementLowerer(BridgeInterface *bridge)
     : Lowerer(bridge) {}
 
 bool ForStatementLowerer::lower(const ast::bmodelica::ForStatement &statement) {
+  return lowerLoop(statement, 0);
+}
+
+bool ForStatementLowerer::lowerLoop(
+    const ast::bmodelica::ForStatement &statement, size_t forIndexPosition) {
   ScopedSymbolTable::Scope varScope(getScopedSymbolTable());
   mlir::Location location = loc(statement.getLocation());
 
-  size_t numOfForIndices = statement.getNumOfForIndices();
+  const ast::bmodelica::ForIndex *forIndex =
+      statement.getForIndex(forIndexPosition);
+
+  assert(forIndex->hasExpression());
 
-  for (size_t forIndexCount = 0; forIndexCount < numOfForIndices;
-       ++forIndexCount) {
-    const ast::bmodelica::ForIndex *forIndex =
-        statement.getForIndex(forIndexCount);
+  const ast::bmodelica::Expression *forIndexExpression =
+      forIndex->getExpression();
 
-    assert(forIndex->hasExpression());
+  assert(forIndexExpression->isa<ast::bmodelica::Operation>());
 
-    const ast::bmodelica::Expression *forIndexExpression =
-        forIndex->getExpression();
+  const auto *forIndexRange =
+      forIndexExpression->cast<ast::bmodelica::Operation>();
 
-    assert(forIndexExpression->isa<ast::bmodelica::Operation>());
+  assert(forIndexRange->getOperationKind() ==
+         ast::bmodelica::OperationKind::range);
 
-    const auto *forIndexRange =
-        forIndexExpression->cast<ast::bmodelica::Operation>();
+  mlir::Value inductionVar = builder().create<AllocaOp>(
+      location, ArrayType::get({}, builder().getIndexType()),
+      mlir::ValueRange());
 
-    assert(forIndexRange->getOperationKind() ==
-           ast::bmodelica::OperationKind::range);
+  // The bounds and the step are evaluated only once, before the loop.
+  auto lowerIndex =
+      [&](const ast::bmodelica::Expression &expression)
+      -> std::optional<mlir::Value> {
+    mlir::Location expressionLoc = loc(expression.getLocation());
+    auto loweredExpression = lower(expression);
+
+    if (!loweredExpression) {
+      return std::nullopt;
+    }
+
+    return builder().create<CastOp>(
+        expressionLoc, builder().getIndexType(),
+        (*loweredExpression)[0].get(expressionLoc));
+  };
+
+  size_t numOfRangeArgs = forIndexRange->getNumOfArguments();
+  auto lowerBoundValue = lowerIndex(*forIndexRange->getArgument(0));
+
+  if (!lowerBoundValue) {
+    return false;
+  }
 
-    mlir::Value inductionVar = builder().create<AllocaOp>(
-        location, ArrayType::get({}, builder().getIndexType()),
-        mlir::ValueRange());
+  mlir::Value lowerBound = *lowerBoundValue;
+  mlir::Value step;
 
-    const ast::bmodelica::Expression *lowerBoundExp =
-        forIndexRange->getArgument(0);
-    mlir::Location lowerBoundLoc = loc(lowerBoundExp->getLocation());
-    auto loweredLowerBoundExp = lower(*lowerBoundExp);
-    if (!loweredLowerBoundExp) {
+  if (numOfRangeArgs == 3) {
+    auto stepValue = lowerIndex(*forIndexRange->getArgument(1));
+
+    if (!stepValue) {
       return false;
     }
-    mlir::Value lowerBound = (*loweredLowerBoundExp)[0].get(lowerBoundLoc);
 
-    lowerBound = builder().create<CastOp>(lowerBound.getLoc(),
-                                          builder().getIndexType(), lowerBound);
+    step = *stepValue;
+  } else {
+    step = builder().create<ConstantOp>(location, builder().getIndexAttr(1));
+  }
 
-    builder().create<StoreOp>(location, lowerBound, inductionVar);
+  auto upperBoundValue =
+      lowerIndex(*forIndexRange->getArgument(numOfRangeArgs - 1));
 
-    auto forOp = builder().create<ForOp>(location, mlir::ValueRange());
-    mlir::OpBuilder::InsertionGuard guard(builder());
+  if (!upperBoundValue) {
+    return false;
+  }
 
-    assert(forOp.getConditionRegion().getBlocks().empty());
+  mlir::Value upperBound = *upperBoundValue;
 
-    mlir::Block *conditionBlock =
-        builder().createBlock(&forOp.getConditionRegion());
+  builder().create<StoreOp>(location, lowerBound, inductionVar);
 
-    assert(forOp.getBodyRegion().getBlocks().empty());
-    mlir::Block *bodyBlock = builder().createBlock(&forOp.getBodyRegion());
+  auto forOp = builder().create<ForOp>(location, mlir::ValueRange());
+  mlir::OpBuilder::InsertionGuard guard(builder());
 
-    assert(forOp.getStepRegion().getBlocks().empty());
-    mlir::Block *stepBlock = builder().createBlock(&forOp.getStepRegion());
+  assert(forOp.getConditionRegion().getBlocks().empty());
 
-    {
-      // Check the loop condition.
-      builder().setInsertionPointToStart(conditionBlock);
+  mlir::Block *conditionBlock =
+      builder().createBlock(&forOp.getConditionRegion());
 
-      mlir::Value inductionValue =
-          builder().create<LoadOp>(location, inductionVar);
+  assert(forOp.getBodyRegion().getBlocks().empty());
+  mlir::Block *bodyBlock = builder().createBlock(&forOp.getBodyRegion());
 
-      const ast::bmodelica::Expression *upperBoundExp =
-          forIndexRange->getArgument(1);
-      mlir::Location upperBoundLoc = loc(upperBoundExp->getLocation());
-      auto loweredUpperBoundExp = lower(*upperBoundExp);
-      if (!loweredUpperBoundExp) {
-        return false;
-      }
-      mlir::Value upperBound = (*loweredUpperBoundExp)[0].get(upperBoundLoc);
+  assert(forOp.getStepRegion().getBlocks().empty());
+  mlir::Block *stepBlock = builder().createBlock(&forOp.getStepRegion());
+
+  {
+    // Check the loop condition.
+    builder().setInsertionPointToStart(conditionBlock);
+
+    mlir::Value inductionValue =
+        builder().create<LoadOp>(location, inductionVar);
+
+    mlir::Type booleanType = BooleanType::get(builder().getContext());
 
-      upperBound = builder().create<CastOp>(
-          lowerBound.getLoc(), builder().getIndexType(), upperBound);
+    mlir::Value condition = builder().create<LteOp>(
+        location, booleanType, inductionValue, upperBound);
 
-      mlir::Value condition = builder().create<LteOp>(
-          location, BooleanType::get(builder().getContext()), inductionValue,
-          upperBound);
+    if (numOfRangeArgs == 3) {
+      // The range is traversed backward if the step is negative.
+      mlir::Value zero =
+          builder().create<ConstantOp>(location, builder().getIndexAttr(0));
 
-      builder().create<ConditionOp>(location, condition);
+      mlir::Value forward = builder().create<AndOp>(
+          location, booleanType,
+          builder().create<GtOp>(location, booleanType, step, zero),
+          condition);
+
+      mlir::Value backward = builder().create<AndOp>(
+          location, booleanType,
+          builder().create<LtOp>(location, booleanType, step, zero),
+          builder().create<GteOp>(location, booleanType, inductionValue,
+                                  upperBound));
+
+      condition = builder().create<OrOp>(location, booleanType, forward,
+                                         backward);
     }
 
-    {
-      // Body.
-      ScopedSymbolTable::Scope scope(getScopedSymbolTable());
+    builder().create<ConditionOp>(location, condition);
+  }
 
-      builder().setInsertionPointToStart(bodyBlock);
+  {
+    // Body.
+    ScopedSymbolTable::Scope scope(getScopedSymbolTable());
 
-      mlir::Value inductionValue =
-          builder().create<LoadOp>(location, inductionVar);
+    builder().setInsertionPointToStart(bodyBlock);
 
-      insertVariable(forIndex->getName(),
-                     Reference::ssa(builder(), inductionValue));
+    mlir::Value inductionValue =
+        builder().create<LoadOp>(location, inductionVar);
 
+    insertVariable(forIndex->getName(),
+                   Reference::ssa(builder(), inductionValue));
+
+    if (forIndexPosition + 1 < statement.getNumOfForIndices()) {
+      if (!lowerLoop(statement, forIndexPosition + 1)) {
+        return false;
+      }
+    } else {
       for (size_t statementIndex = 0, e = statement.getNumOfStatements();
            statementIndex < e; ++statementIndex) {
         if (!lower(*statement.getStatement(statementIndex))) {
           return false;
         }
       }
-
-      if (bodyBlock->empty() ||
-          !bodyBlock->back().hasTrait<mlir::OpTrait::IsTerminator>()) {
-        builder().setInsertionPointToEnd(bodyBlock);
-        builder().create<YieldOp>(location);
-      }
     }
 
-    {
-      // Step.
-      builder().setInsertionPointToStart(stepBlock);
-
-      mlir::Value inductionValue =
-          builder().create<LoadOp>(location, inductionVar);
+    if (bodyBlock->empty() ||
+        !bodyBlock->back().hasTrait<mlir::OpTrait::IsTerminator>()) {
+      builder().setInsertionPointToEnd(bodyBlock);
+      builder().create<YieldOp>(location);
+    }
+  }
 
-      mlir::Value step;
+  {
+    // Step.
+    builder().setInsertionPointToStart(stepBlock);
 
-      if (forIndexRange->getNumOfArguments() == 3) {
-        auto loweredExpression = lower(*forIndexRange->getArgument(2));
-        if (!loweredExpression) {
-          return false;
-        }
-        step = (*loweredExpression)[0].get(
-            loc(forIndexRange->getArgument(2)->getLocation()));
-      } else {
-        step =
-            builder().create<ConstantOp>(location, builder().getIndexAttr(1));
-      }
+    mlir::Value inductionValue =
+        builder().create<LoadOp>(location, inductionVar);
 
-      mlir::Value incremented = builder().create<AddOp>(
-          location, builder().getIndexType(), inductionValue, step);
+    mlir::Value incremented = builder().create<AddOp>(
+        location, builder().getIndexType(), inductionValue, step);
 
-      builder().create<StoreOp>(location, incremented, inductionVar);
-      builder().create<YieldOp>(location);
-    }
+    builder().create<StoreOp>(location, incremented, inductionVar);
+    builder().create<YieldOp>(location);
   }
 
   return true;
-- 
2.43.0


From 4c85daea69fb22fbaef1aa92c3f5c59da4e654e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 58/83] fix: ignore the additional results of calls on the
 left-hand side of equations

---
 lib/Codegen/Lowering/EqualityEquationLowerer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Codegen/Lowering/EqualityEquationLowerer.cpp b/lib/Codegen/Lowering/EqualityEquationLowerer.cpp
index 9006148..b4c7fbf 100644
--- a/lib/Codegen/Lowering/EqualityEquationLowerer.cpp
+++ b/lib/Codegen/Lowering/EqualityEquationLowerer.cpp
@@ -53,6 +53,11 @@ bool EqualityEquationLowerer::lower(
   }
 
   // The additional results of a function call are discarded.
+  if (lhs.size() > 1 &&
+      equation.getLhsExpression()->isa<ast::bmodelica::Call>()) {
+    lhs.truncate(1);
+  }
+
   if (rhs.size() > lhs.size()) {
     rhs.truncate(lhs.size());
   }
-- 
2.43.0


From 819f6eda515e3495a5d73dbf0d3782fd345b3874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 59/83] fix: keep the order of the blocks writing the same
 variable when parallelizing schedules

---
 .../marco/Dialect/BaseModelica/IR/Dialect.h   |  9 ++--
 .../Transforms/ScheduleParallelization.cpp    | 41 +++++++++++++++----
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Dialect.h b/include/marco/Dialect/BaseModelica/IR/Dialect.h
index aa900a8..cf67647 100644
--- a/include/marco/Dialect/BaseModelica/IR/Dialect.h
+++ b/include/marco/Dialect/BaseModelica/IR/Dialect.h
@@ -98,7 +98,8 @@ struct WritesMapRTreeEntry {
 
 template <typename Variable, typename WritingEntity>
 class WritesMap {
-  using ScalarMap = llvm::DenseMap<VariableOp, WritingEntity>;
+  using ScalarMap =
+      llvm::DenseMap<VariableOp, llvm::SmallVector<WritingEntity, 1>>;
   using RTreeObject = WritesMapRTreeEntry<WritingEntity>;
 
   using ArrayMap =
@@ -136,7 +137,9 @@ public:
       auto it = scalarMap.find(variable);
 
       if (it != scalarMap.end()) {
-        uniqueEntities[it->second] = {};
+        for (const WritingEntity &writingEntity : it->second) {
+          uniqueEntities[writingEntity] = {};
+        }
       }
     } else {
       auto it = arrayMap.find(variable);
@@ -166,7 +169,7 @@ public:
   void addWrite(const Variable &variable, const IndexSet &variableIndices,
                 WritingEntity writingEntity) {
     if (variableIndices.empty()) {
-      scalarMap[variable] = writingEntity;
+      scalarMap[variable].push_back(writingEntity);
     } else {
       for (const MultidimensionalRange &variableRange : llvm::make_range(
                variableIndices.rangesBegin(), variableIndices.rangesEnd())) {
diff --git a/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp b/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp
index fd21a2b..ceebba9 100644
--- a/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp
@@ -224,21 +224,46 @@ mlir::LogicalResult ScheduleParallelizationPass::parallelizeBlocks(
     inDegrees[block] = 0;
   }
 
-  for (ScheduleBlockOp readingBlock : blocks) {
-    for (const Variable &readVariable :
-         readingBlock.getProperties().readVariables) {
+  // The relative order of the blocks accessing the same indices of a variable
+  // has to be preserved, unless all of them just read it.
+  llvm::DenseMap<ScheduleBlockOp, size_t> positions;
+
+  for (ScheduleBlockOp block : blocks) {
+    size_t position = positions.size();
+    positions[block] = position;
+  }
+
+  auto addDependency = [&](ScheduleBlockOp first, ScheduleBlockOp second) {
+    if (dependantBlocks[first].insert(second)) {
+      inDegrees[second]++;
+    }
+  };
+
+  for (ScheduleBlockOp block : blocks) {
+    for (const Variable &readVariable : block.getProperties().readVariables) {
       auto readVariableOp = symbolTableCollection.lookupSymbolIn<VariableOp>(
           modelOp, readVariable.name);
 
       for (const auto &writingBlock :
            writesMap.getWrites(readVariableOp, readVariable.indices)) {
-        if (writingBlock.writingEntity == readingBlock) {
-          // Ignore self-loops.
-          continue;
+        if (positions[writingBlock.writingEntity] < positions[block]) {
+          addDependency(writingBlock.writingEntity, block);
+        } else if (positions[block] < positions[writingBlock.writingEntity]) {
+          addDependency(block, writingBlock.writingEntity);
         }
+      }
+    }
 
-        dependantBlocks[writingBlock.writingEntity].insert(readingBlock);
-        inDegrees[readingBlock]++;
+    for (const Variable &writtenVariable :
+         block.getProperties().writtenVariables) {
+      auto writtenVariableOp = symbolTableCollection.lookupSymbolIn<VariableOp>(
+          modelOp, writtenVariable.name);
+
+      for (const auto &writingBlock :
+           writesMap.getWrites(writtenVariableOp, writtenVariable.indices)) {
+        if (positions[writingBlock.writingEntity] < positions[block]) {
+          addDependency(writingBlock.writingEntity, block);
+        }
       }
     }
   }
-- 
2.43.0


From 722fa619c21db461cc3af2859d22aea1818aa9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 60/83] fix: do not merge the reads of variables across their
 assignments

---
 include/marco/Dialect/BaseModelica/IR/Ops.td | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Ops.td b/include/marco/Dialect/BaseModelica/IR/Ops.td
index b3e86c3..699bbb4 100644
--- a/include/marco/Dialect/BaseModelica/IR/Ops.td
+++ b/include/marco/Dialect/BaseModelica/IR/Ops.td
@@ -1220,7 +1220,7 @@ def BaseModelica_VariableOp : BaseModelica_Op<"variable",
 
 def BaseModelica_VariableGetOp : BaseModelica_Op<"variable_get",
     [DeclareOpInterfaceMethods<SymbolUserOpInterface>,
-    NoMemoryEffect]>
+    MemoryEffects<[MemRead]>]>
 {
     let summary = "Load the data held by a class variable.";
 
-- 
2.43.0


From 4f2088fccda1816c9b70bd9eed636769c94889e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 61/83] fix: ignore the dependencies on variables outside of
 the dependency graph

---
 lib/Dialect/BaseModelica/IR/VariablesDependencyGraph.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/IR/VariablesDependencyGraph.cpp b/lib/Dialect/BaseModelica/IR/VariablesDependencyGraph.cpp
index 8fb2955..4a180af 100644
--- a/lib/Dialect/BaseModelica/IR/VariablesDependencyGraph.cpp
+++ b/lib/Dialect/BaseModelica/IR/VariablesDependencyGraph.cpp
@@ -68,8 +68,13 @@ void VariablesDependencyGraph::discoverDependencies() {
 
     auto variableOp = mlir::cast<VariableOp>(variable);
 
+    // The variables that do not belong to the graph are ignored.
     for (llvm::StringRef dependency : getDependencies(variableOp)) {
-      children.insert(nodesByName[dependency]);
+      auto dependencyIt = nodesByName.find(dependency);
+
+      if (dependencyIt != nodesByName.end()) {
+        children.insert(dependencyIt->getValue());
+      }
     }
   }
 }
-- 
2.43.0


From aaca8b0cf5a5f20ae608c11a91700fecff6008a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 62/83] fix: restrict the printable indices to the elements of
 the variable

---
 .../BaseModelicaToRuntime.cpp                 | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.cpp b/lib/Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.cpp
index 6aeeae3..6f17032 100644
--- a/lib/Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.cpp
@@ -621,16 +621,31 @@ getPrintableIndices(VariableType variableType,
       // In Modelica, arrays are 1-based. If present, we need to lower by 1 the
       // value given by the variable filter.
 
-      auto lowerBound =
+      int64_t dimension = variableType.getShape()[range.index()];
+
+      int64_t lowerBound =
           range.value().hasLowerBound() ? range.value().getLowerBound() - 1 : 0;
 
-      auto upperBound = range.value().hasUpperBound()
-                            ? range.value().getUpperBound()
-                            : variableType.getShape()[range.index()];
+      int64_t upperBound = range.value().hasUpperBound()
+                               ? range.value().getUpperBound()
+                               : dimension;
+
+      // Ignore the positions outside of the variable.
+      lowerBound = std::max(lowerBound, static_cast<int64_t>(0));
+      upperBound = std::min(upperBound, dimension);
+
+      if (lowerBound >= upperBound) {
+        break;
+      }
 
       ranges.emplace_back(lowerBound, upperBound);
     }
 
+    if (ranges.size() != filterRanges.size()) {
+      // The filter does not select any element.
+      continue;
+    }
+
     result += MultidimensionalRange(std::move(ranges));
   }
 
-- 
2.43.0


From f400530b6fb732c7795d8da955d910147f5f4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 63/83] fix: consider the negative constants of the experiment
 annotation

---
 lib/Codegen/Lowering/ModelLowerer.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/Codegen/Lowering/ModelLowerer.cpp b/lib/Codegen/Lowering/ModelLowerer.cpp
index 0ac2547..877db0a 100644
--- a/lib/Codegen/Lowering/ModelLowerer.cpp
+++ b/lib/Codegen/Lowering/ModelLowerer.cpp
@@ -328,13 +328,29 @@ bool ModelLowerer::lowerExperimentAnnotation(
       if (!argumentModification->hasExpression()) {
         continue;
       }
-      const auto *const constant = argumentModification->getExpression()
-                                       ->dyn_cast<ast::bmodelica::Constant>();
+      const ast::bmodelica::Expression *expression =
+          argumentModification->getExpression();
+      double sign = 1;
+
+      // Literals are unsigned: negative values are expressed by negations.
+      while (const auto *const operation =
+                 expression->dyn_cast<ast::bmodelica::Operation>()) {
+        if (operation->getOperationKind() !=
+            ast::bmodelica::OperationKind::negate) {
+          break;
+        }
+
+        sign = -sign;
+        expression = operation->getArgument(0);
+      }
+
+      const auto *const constant =
+          expression->dyn_cast<ast::bmodelica::Constant>();
       if (!constant) {
         continue;
       }
 
-      const double value = constant->as<double>();
+      const double value = sign * constant->as<double>();
       if (argumentName == "StartTime") {
         startTime = value;
       } else if (argumentName == "StopTime") {
-- 
2.43.0


From 447c41b8b60723573cba9ccbf3c0930975f34f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 64/83] fix: paths of the accesses inside subscripted
 expressions

---
 .../EquationExpressionOpInterfaceImpl.cpp     | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
index 152c9d1..a285ef8 100644
--- a/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
@@ -55,6 +55,22 @@ void printUnaryExpression(
   os << ")";
 }
 
+/// Get the path of a tensor being subscripted, given the path of the
+/// subscription. The subscription of a variable is handled as a whole.
+EquationPath getSubscriptedTensorPath(EquationPath path, mlir::Value tensor) {
+  mlir::Operation *definingOp = tensor.getDefiningOp();
+
+  while (mlir::isa_and_nonnull<TensorViewOp, TensorExtractOp>(definingOp)) {
+    definingOp = definingOp->getOperand(0).getDefiningOp();
+  }
+
+  if (mlir::isa_and_nonnull<VariableGetOp>(definingOp)) {
+    return path;
+  }
+
+  return path + 0;
+}
+
 bool areExpressionOperandsEquivalent(
     mlir::ValueRange firstOperands, mlir::ValueRange secondOperands,
     llvm::SmallVectorImpl<std::pair<mlir::BlockArgument, mlir::BlockArgument>>
@@ -668,7 +684,8 @@ struct TensorViewOpInterface
 
     return sourceOp.getEquationAccesses(
         accesses, symbolTable, explicitInductionsPositionMap,
-        additionalInductions, dimensionAccesses, std::move(path));
+        additionalInductions, dimensionAccesses,
+        getSubscriptedTensorPath(std::move(path), castedOp.getSource()));
   }
 };
 
@@ -725,7 +742,8 @@ struct TensorExtractOpInterface
 
     return tensorOp.getEquationAccesses(
         accesses, symbolTable, explicitInductionsPositionMap,
-        additionalInductions, dimensionAccesses, std::move(path));
+        additionalInductions, dimensionAccesses,
+        getSubscriptedTensorPath(std::move(path), castedOp.getTensor()));
   }
 };
 
-- 
2.43.0


From e42270ece600bc3f18027ec405aee14b3d154834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 65/83] fix: report the redeclarations of a variable

---
 lib/Codegen/Lowering/ClassLowerer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/Codegen/Lowering/ClassLowerer.cpp b/lib/Codegen/Lowering/ClassLowerer.cpp
index cf3c207..2260b5c 100644
--- a/lib/Codegen/Lowering/ClassLowerer.cpp
+++ b/lib/Codegen/Lowering/ClassLowerer.cpp
@@ -90,13 +90,20 @@ bool ClassLowerer::declare(const ast::bmodelica::Member &variable) {
     }
   }
 
+  mlir::SymbolTable &symbolTable =
+      getSymbolTables().getSymbolTable(getLookupScope());
+
+  if (symbolTable.lookup(variable.getName())) {
+    mlir::emitError(location)
+        << "'" << variable.getName() << "' has already been declared";
+
+    return false;
+  }
+
   auto variableOp = builder().create<VariableOp>(
       location, variable.getName(), *variableType,
       builder().getStrArrayAttr(dimensionsConstraints));
 
-  mlir::SymbolTable &symbolTable = getSymbolTables().getSymbolTable(
-      variableOp->getParentOfType<ClassInterface>());
-
   symbolTable.insert(variableOp);
 
   return true;
-- 
2.43.0


From e17e1b793bb835bb57fe341a152aa83543b05bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 66/83] fix: report the calls whose arguments have unexpected
 ranks

---
 lib/Codegen/Lowering/CallLowerer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Codegen/Lowering/CallLowerer.cpp b/lib/Codegen/Lowering/CallLowerer.cpp
index 7ebc0cb..9919732 100644
--- a/lib/Codegen/Lowering/CallLowerer.cpp
+++ b/lib/Codegen/Lowering/CallLowerer.cpp
@@ -57,8 +57,12 @@ std::optional<Results> CallLowerer::lower(const ast::bmodelica::Call &call) {
 
       if (!getVectorizedResultTypes(argValues, expectedArgRanks,
                                     scalarizedResultTypes, resultTypes)) {
-        assert(false && "Can't vectorize function call");
-        return {};
+        mlir::emitError(loc(call.getLocation()))
+            << "The ranks of the arguments are not compatible with the ones "
+               "expected by function '"
+            << callee->getElement(0)->getName() << "'";
+
+        return std::nullopt;
       }
 
       auto callOp = builder().create<CallOp>(loc(call.getLocation()),
-- 
2.43.0


From b700e8d1c4b33e35ec0b7cdcd5d62386c8bf4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 67/83] fix: report the subscriptions with too many subscripts

---
 lib/Codegen/Lowering/ComponentReferenceLowerer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Codegen/Lowering/ComponentReferenceLowerer.cpp b/lib/Codegen/Lowering/ComponentReferenceLowerer.cpp
index 4f12466..b0d098b 100644
--- a/lib/Codegen/Lowering/ComponentReferenceLowerer.cpp
+++ b/lib/Codegen/Lowering/ComponentReferenceLowerer.cpp
@@ -125,9 +125,18 @@ std::optional<Reference> ComponentReferenceLowerer::lowerSubscripts(
     mlir::Location location = loc(entry.getLocation());
     mlir::Value tensor = current.get(loc(entry.getLocation()));
 
+    auto tensorType = mlir::dyn_cast<mlir::TensorType>(tensor.getType());
+
+    if (!tensorType ||
+        tensorType.getRank() < static_cast<int64_t>(subscripts.size())) {
+      mlir::emitError(location)
+          << "Too many subscripts for '" << entry.getName() << "'";
+
+      return std::nullopt;
+    }
+
     if ((!isFirst && isLast) || (isFirst && !isLast)) {
-      int64_t sourceRank =
-          mlir::cast<mlir::TensorType>(tensor.getType()).getRank();
+      int64_t sourceRank = tensorType.getRank();
       auto providedSubscripts = static_cast<int64_t>(subscripts.size());
 
       if (sourceRank > providedSubscripts) {
-- 
2.43.0


From ac4c0846bd84f5da323365335c99e949c6ce207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 68/83] fix: report the operations whose operands have
 incompatible shapes

---
 .../Lowering/BaseModelica/OperationLowerer.h  |   5 +
 lib/Codegen/Lowering/OperationLowerer.cpp     | 135 ++++++++----------
 2 files changed, 65 insertions(+), 75 deletions(-)

diff --git a/include/marco/Codegen/Lowering/BaseModelica/OperationLowerer.h b/include/marco/Codegen/Lowering/BaseModelica/OperationLowerer.h
index dc96e8e..5e65c7f 100644
--- a/include/marco/Codegen/Lowering/BaseModelica/OperationLowerer.h
+++ b/include/marco/Codegen/Lowering/BaseModelica/OperationLowerer.h
@@ -49,6 +49,11 @@ private:
   std::optional<Results> range(const ast::bmodelica::Operation &operation);
 
 private:
+  /// Create an operation, or emit an error if its operands are incompatible.
+  template <typename Op>
+  std::optional<Results> build(mlir::Location location,
+                               llvm::ArrayRef<mlir::Value> operands);
+
   std::optional<mlir::Value>
   lowerArg(const ast::bmodelica::Expression &expression);
 
diff --git a/lib/Codegen/Lowering/OperationLowerer.cpp b/lib/Codegen/Lowering/OperationLowerer.cpp
index c2b538f..d39271d 100644
--- a/lib/Codegen/Lowering/OperationLowerer.cpp
+++ b/lib/Codegen/Lowering/OperationLowerer.cpp
@@ -115,6 +115,26 @@ bool OperationLowerer::lowerArgs(const ast::bmodelica::Operation &operation,
   return true;
 }
 
+template <typename Op>
+std::optional<Results>
+OperationLowerer::build(mlir::Location location,
+                        llvm::ArrayRef<mlir::Value> operands) {
+  llvm::SmallVector<mlir::Type, 1> resultTypes;
+
+  if (mlir::failed(Op::inferReturnTypes(
+          builder().getContext(), location, operands,
+          mlir::DictionaryAttr::get(builder().getContext()), nullptr, {},
+          resultTypes))) {
+    mlir::emitError(location)
+        << "incompatible operands for '" << Op::getOperationName() << "'";
+
+    return std::nullopt;
+  }
+
+  auto op = builder().create<Op>(location, resultTypes, operands);
+  return Reference::ssa(builder(), op->getResult(0));
+}
+
 std::optional<Results>
 OperationLowerer::negate(const ast::bmodelica::Operation &operation) {
   mlir::Location location = loc(operation.getLocation());
@@ -125,8 +145,7 @@ OperationLowerer::negate(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 1);
 
-  mlir::Value result = builder().create<NegateOp>(location, args[0]);
-  return Reference::ssa(builder(), result);
+  return build<NegateOp>(location, args);
 }
 
 std::optional<Results>
@@ -137,23 +156,9 @@ OperationLowerer::add(const ast::bmodelica::Operation &operation) {
   if (!lowerArgs(operation, args)) {
     return std::nullopt;
   }
-  assert(args.size() >= 2);
-
-  llvm::SmallVector<mlir::Value, 2> current;
-  current.push_back(args[0]);
-  current.push_back(args[1]);
-
-  mlir::Value result =
-      builder().create<AddOp>(location, current[0], current[1]);
-
-  for (size_t i = 2; i < args.size(); ++i) {
-    current.clear();
-    args.push_back(result);
-    args.push_back(args[i]);
-    result = builder().create<AddOp>(location, current[0], current[1]);
-  }
+  assert(args.size() == 2);
 
-  return Reference::ssa(builder(), result);
+  return build<AddOp>(location, args);
 }
 
 std::optional<Results>
@@ -166,8 +171,7 @@ OperationLowerer::addEW(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<AddEWOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<AddEWOp>(location, args);
 }
 
 std::optional<Results>
@@ -180,8 +184,7 @@ OperationLowerer::subtract(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<SubOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<SubOp>(location, args);
 }
 
 std::optional<Results>
@@ -194,8 +197,7 @@ OperationLowerer::subtractEW(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<SubEWOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<SubEWOp>(location, args);
 }
 
 std::optional<Results>
@@ -206,24 +208,9 @@ OperationLowerer::multiply(const ast::bmodelica::Operation &operation) {
   if (!lowerArgs(operation, args)) {
     return std::nullopt;
   }
-  assert(args.size() >= 2);
-
-  llvm::SmallVector<mlir::Value, 2> current;
-  current.push_back(args[0]);
-  current.push_back(args[1]);
-
-  mlir::Value result =
-      builder().create<MulOp>(location, current[0], current[1]);
-
-  for (size_t i = 2; i < args.size(); ++i) {
-    current.clear();
-    args.push_back(result);
-    args.push_back(args[i]);
-
-    result = builder().create<MulOp>(location, current[0], current[1]);
-  }
+  assert(args.size() == 2);
 
-  return Reference::ssa(builder(), result);
+  return build<MulOp>(location, args);
 }
 
 std::optional<Results>
@@ -236,8 +223,7 @@ OperationLowerer::multiplyEW(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<MulEWOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<MulEWOp>(location, args);
 }
 
 std::optional<Results>
@@ -250,8 +236,7 @@ OperationLowerer::divide(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<DivOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<DivOp>(location, args);
 }
 
 std::optional<Results>
@@ -264,8 +249,7 @@ OperationLowerer::divideEW(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<DivEWOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<DivEWOp>(location, args);
 }
 
 std::optional<Results>
@@ -310,8 +294,23 @@ OperationLowerer::ifElse(const ast::bmodelica::Operation &operation) {
     args.push_back(falseValue);
   }
 
-  auto selectOp =
-      builder().create<SelectOp>(location, *condition, trueValues, falseValues);
+  llvm::SmallVector<mlir::Value, 3> operands;
+  operands.push_back(*condition);
+  llvm::append_range(operands, trueValues);
+  llvm::append_range(operands, falseValues);
+
+  llvm::SmallVector<mlir::Type, 1> resultTypes;
+
+  if (mlir::failed(SelectOp::inferReturnTypes(
+          builder().getContext(), location, operands,
+          mlir::DictionaryAttr::get(builder().getContext()), nullptr, {},
+          resultTypes))) {
+    mlir::emitError(location) << "incompatible branches of the if expression";
+    return std::nullopt;
+  }
+
+  auto selectOp = builder().create<SelectOp>(location, resultTypes, *condition,
+                                             trueValues, falseValues);
 
   std::vector<Reference> results;
 
@@ -332,8 +331,7 @@ OperationLowerer::greater(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<GtOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<GtOp>(location, args);
 }
 
 std::optional<Results>
@@ -346,8 +344,7 @@ OperationLowerer::greaterOrEqual(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<GteOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<GteOp>(location, args);
 }
 
 std::optional<Results>
@@ -360,8 +357,7 @@ OperationLowerer::equal(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<EqOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<EqOp>(location, args);
 }
 
 std::optional<Results>
@@ -374,8 +370,7 @@ OperationLowerer::notEqual(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<NotEqOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<NotEqOp>(location, args);
 }
 
 std::optional<Results>
@@ -388,8 +383,7 @@ OperationLowerer::lessOrEqual(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<LteOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<LteOp>(location, args);
 }
 
 std::optional<Results>
@@ -402,8 +396,7 @@ OperationLowerer::less(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<LtOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<LtOp>(location, args);
 }
 
 std::optional<Results>
@@ -416,8 +409,7 @@ OperationLowerer::logicalAnd(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<AndOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<AndOp>(location, args);
 }
 
 std::optional<Results>
@@ -430,8 +422,7 @@ OperationLowerer::logicalNot(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 1);
 
-  mlir::Value result = builder().create<NotOp>(location, args[0]);
-  return Reference::ssa(builder(), result);
+  return build<NotOp>(location, args);
 }
 
 std::optional<Results>
@@ -444,8 +435,7 @@ OperationLowerer::logicalOr(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<OrOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<OrOp>(location, args);
 }
 
 std::optional<Results>
@@ -481,8 +471,7 @@ OperationLowerer::powerOf(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<PowOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<PowOp>(location, args);
 }
 
 std::optional<Results>
@@ -495,8 +484,7 @@ OperationLowerer::powerOfEW(const ast::bmodelica::Operation &operation) {
   }
   assert(args.size() == 2);
 
-  mlir::Value result = builder().create<PowEWOp>(location, args[0], args[1]);
-  return Reference::ssa(builder(), result);
+  return build<PowEWOp>(location, args);
 }
 
 std::optional<Results>
@@ -518,9 +506,6 @@ OperationLowerer::range(const ast::bmodelica::Operation &operation) {
     args[1] = step;
   }
 
-  mlir::Value result =
-      builder().create<RangeOp>(location, args[0], args[2], args[1]);
-
-  return Reference::ssa(builder(), result);
+  return build<RangeOp>(location, {args[0], args[2], args[1]});
 }
 } // namespace marco::codegen::lowering::bmodelica
-- 
2.43.0


From e73c7b5698659fc25bab41dc901d080d24cd7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 69/83] fix: report the assignments to references that are not
 variables

---
 include/marco/Codegen/Lowering/BaseModelica/Reference.h | 3 +++
 lib/Codegen/Lowering/AssignmentStatementLowerer.cpp     | 9 +++++++++
 lib/Codegen/Lowering/Reference.cpp                      | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/marco/Codegen/Lowering/BaseModelica/Reference.h b/include/marco/Codegen/Lowering/BaseModelica/Reference.h
index dbde9c8..11f44f1 100644
--- a/include/marco/Codegen/Lowering/BaseModelica/Reference.h
+++ b/include/marco/Codegen/Lowering/BaseModelica/Reference.h
@@ -44,6 +44,9 @@ public:
 
   mlir::Value get(mlir::Location loc) const;
 
+  /// Whether the reference can be the destination of an assignment.
+  bool isAssignable() const;
+
   void set(mlir::Location loc, mlir::ValueRange indices, mlir::Value value);
 
 private:
diff --git a/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp b/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp
index 10796d4..fe289ea 100644
--- a/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp
+++ b/lib/Codegen/Lowering/AssignmentStatementLowerer.cpp
@@ -83,6 +83,15 @@ bool AssignmentStatementLowerer::lowerAssignmentToComponentReference(
       return false;
     }
 
+    if (!variableRef->isAssignable()) {
+      mlir::emitError(loc(destination.getLocation()))
+          << "'"
+          << mlir::cast<mlir::FlatSymbolRefAttr>(path.front()).getValue()
+          << "' is not a variable and can't be assigned";
+
+      return false;
+    }
+
     variableRef->set(assignmentLoc, subscripts, value);
   } else {
     builder().create<VariableComponentSetOp>(
diff --git a/lib/Codegen/Lowering/Reference.cpp b/lib/Codegen/Lowering/Reference.cpp
index e158040..497f5d5 100644
--- a/lib/Codegen/Lowering/Reference.cpp
+++ b/lib/Codegen/Lowering/Reference.cpp
@@ -22,6 +22,8 @@ public:
 
   virtual mlir::Value get(mlir::Location loc) const = 0;
 
+  virtual bool isAssignable() const { return false; }
+
   virtual void set(mlir::Location loc, mlir::ValueRange indices,
                    mlir::Value value) = 0;
 
@@ -113,6 +115,8 @@ public:
     llvm_unreachable("Variables have no SSA value");
   }
 
+  bool isAssignable() const override { return true; }
+
   void set(mlir::Location loc, mlir::ValueRange indices,
            mlir::Value value) override {
     builder->create<VariableSetOp>(loc, variableOp, indices, value);
@@ -249,6 +253,8 @@ mlir::Operation *Reference::getOperation() const {
 
 mlir::Value Reference::getReference() const { return impl->getReference(); }
 
+bool Reference::isAssignable() const { return impl->isAssignable(); }
+
 void Reference::set(mlir::Location loc, mlir::ValueRange indices,
                     mlir::Value value) {
   impl->set(loc, indices, value);
-- 
2.43.0


From d95445cf34ce3a99b4adaa2d9cb71e2edfb05df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 70/83] fix: refuse the assignments with too many subscripts

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index c11ddc0..26f6892 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -1683,6 +1683,11 @@ mlir::LogicalResult VariableSetOp::verifySymbolUses(
     return emitOpError("can't set a value for an input variable");
   }
 
+  if (static_cast<int64_t>(getIndices().size()) >
+      static_cast<int64_t>(variableOp.getVariableType().getShape().size())) {
+    return emitOpError("too many subscripts for variable " + getVariable());
+  }
+
   return mlir::success();
 }
 } // namespace mlir::bmodelica
-- 
2.43.0


From 78103f2301a43db229195de0e0add8613bacf285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 71/83] fix: report the calls whose arguments have unexpected
 shapes

---
 lib/Codegen/Lowering/CallLowerer.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/Codegen/Lowering/CallLowerer.cpp b/lib/Codegen/Lowering/CallLowerer.cpp
index 9919732..518323c 100644
--- a/lib/Codegen/Lowering/CallLowerer.cpp
+++ b/lib/Codegen/Lowering/CallLowerer.cpp
@@ -65,6 +65,30 @@ std::optional<Results> CallLowerer::lower(const ast::bmodelica::Call &call) {
         return std::nullopt;
       }
 
+      for (auto [argValue, inputVariable] :
+           llvm::zip(argValues, inputVariables)) {
+        auto argType = mlir::dyn_cast<mlir::ShapedType>(argValue.getType());
+        auto expectedShape = inputVariable.getVariableType().getShape();
+
+        if (!argType) {
+          continue;
+        }
+
+        auto argShape = argType.getShape().take_back(expectedShape.size());
+
+        for (auto [actual, expected] : llvm::zip(argShape, expectedShape)) {
+          if (actual != expected && actual != mlir::ShapedType::kDynamic &&
+              expected != mlir::ShapedType::kDynamic) {
+            mlir::emitError(loc(call.getLocation()))
+                << "The shape of argument '" << inputVariable.getSymName()
+                << "' is not the one expected by function '"
+                << callee->getElement(0)->getName() << "'";
+
+            return std::nullopt;
+          }
+        }
+      }
+
       auto callOp = builder().create<CallOp>(loc(call.getLocation()),
                                              getSymbolRefFromRoot(*calleeOp),
                                              resultTypes, argValues);
@@ -512,6 +536,10 @@ bool CallLowerer::getVectorizedResultTypes(
       argActualRank = argShapedType.getRank();
     }
 
+    if (argActualRank < argExpectedRank) {
+      return false;
+    }
+
     if (argIndex == 0) {
       // If this is the first argument, then it will determine the
       // rank and dimensions of the result array, although the dimensions
-- 
2.43.0


From dafde7180c04a9186af3168525a37846ba9d7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 72/83] fix: write and read the equations that are not matched
 as bytecode

---
 lib/Dialect/BaseModelica/IR/Properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Properties.cpp b/lib/Dialect/BaseModelica/IR/Properties.cpp
index 5f52688..95ff10a 100644
--- a/lib/Dialect/BaseModelica/IR/Properties.cpp
+++ b/lib/Dialect/BaseModelica/IR/Properties.cpp
@@ -77,7 +77,7 @@ llvm::hash_code hash_value(const Variable &value) { return value.hash(); }
 mlir::LogicalResult
 Variable::readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
                                Variable &prop) {
-  if (mlir::failed(reader.readAttribute(prop.name))) {
+  if (mlir::failed(reader.readOptionalAttribute(prop.name))) {
     return mlir::failure();
   }
 
@@ -90,7 +90,7 @@ Variable::readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
 }
 
 void Variable::writeToMlirBytecode(mlir::DialectBytecodeWriter &writer) const {
-  writer.writeAttribute(name);
+  writer.writeOptionalAttribute(name);
   mlir::modeling::writeToMlirBytecode(writer, indices);
 }
 
-- 
2.43.0


From f121b75f6bbdb415196e0b70a5c1dfb72882494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 73/83] fix: read the properties of equations that are not
 matched

---
 lib/Dialect/BaseModelica/IR/Properties.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Properties.cpp b/lib/Dialect/BaseModelica/IR/Properties.cpp
index 95ff10a..1ef887c 100644
--- a/lib/Dialect/BaseModelica/IR/Properties.cpp
+++ b/lib/Dialect/BaseModelica/IR/Properties.cpp
@@ -49,6 +49,12 @@ mlir::LogicalResult Variable::setFromAttr(
     return mlir::failure();
   }
 
+  if (dictAttr.empty()) {
+    // No variable, as opposed to an invalid one.
+    prop = Variable();
+    return mlir::success();
+  }
+
   auto nameAttr = dictAttr.getAs<mlir::SymbolRefAttr>("name");
 
   if (!nameAttr) {
-- 
2.43.0


From e86b31bdb6c72dc567a52c17f3358457cb0369b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 74/83] fix: print the type of dense attributes just once

---
 lib/Dialect/BaseModelica/IR/Attributes.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Attributes.cpp b/lib/Dialect/BaseModelica/IR/Attributes.cpp
index bb68f16..8ba3557 100644
--- a/lib/Dialect/BaseModelica/IR/Attributes.cpp
+++ b/lib/Dialect/BaseModelica/IR/Attributes.cpp
@@ -361,7 +361,8 @@ void DenseBooleanElementsAttr::print(mlir::AsmPrinter &printer) const {
     printer << (value.value() ? "true" : "false");
   }
 
-  printer << "]> : " << getType();
+  // The type is printed by the caller.
+  printer << "]>";
 }
 
 //===----------------------------------------------------------------------===//
@@ -418,7 +419,8 @@ void DenseIntegerElementsAttr::print(mlir::AsmPrinter &printer) const {
     printer << value.value();
   }
 
-  printer << "]> : " << getType();
+  // The type is printed by the caller.
+  printer << "]>";
 }
 
 //===----------------------------------------------------------------------===//
@@ -475,7 +477,8 @@ void DenseRealElementsAttr::print(mlir::AsmPrinter &printer) const {
     printer << value.value();
   }
 
-  printer << "]> : " << getType();
+  // The type is printed by the caller.
+  printer << "]>";
 }
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From dc9901bab226916a6a5ca9fac485221e92ee407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 75/83] fix: keep the unbounded dimensions of variables when
 parsing them

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 26f6892..f472889 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -1382,6 +1382,10 @@ mlir::ParseResult VariableOp::parse(mlir::OpAsmParser &parser,
     if (parser.parseRSquare()) {
       return mlir::failure();
     }
+  } else if (auto variableType = mlir::dyn_cast<VariableType>(type)) {
+    // The constraints are printed only if at least one of them is fixed.
+    dimensionsConstraints.append(variableType.getNumDynamicDims(),
+                                 kDimensionConstraintUnbounded);
   }
 
   result.attributes.append(getDimensionsConstraintsAttrName(result.name),
-- 
2.43.0


From d648e0413b487d8930848a522c55603789cd92d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 76/83] fix: remove the start operations that have been
 converted into equations

---
 .../BaseModelica/Transforms/InitialConditionsSolving.cpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/InitialConditionsSolving.cpp b/lib/Dialect/BaseModelica/Transforms/InitialConditionsSolving.cpp
index b1c0b10..9d4871a 100644
--- a/lib/Dialect/BaseModelica/Transforms/InitialConditionsSolving.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/InitialConditionsSolving.cpp
@@ -125,6 +125,9 @@ addStartEquationsToSchedule(mlir::RewriterBase &rewriter,
         rewriter.create<StartEquationInstanceOp>(startOp.getLoc(), templateOp);
 
     instanceOp.getProperties().setIndices(variableOp.getIndices());
+
+    // The body has been moved into the template.
+    rewriter.eraseOp(startOp);
   }
 
   return mlir::success();
-- 
2.43.0


From 7284dd6c8c7eb2e59e80e230dea7310ffb637416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 77/83] fix: refuse the text of empty ranges and of sets with
 mixed ranks

---
 lib/Dialect/Modeling/IR/Attributes.cpp | 39 ++++++++++++++++++--------
 lib/Dialect/Modeling/IR/Properties.cpp | 11 ++++++++
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/lib/Dialect/Modeling/IR/Attributes.cpp b/lib/Dialect/Modeling/IR/Attributes.cpp
index 0a093b5..9c691fa 100644
--- a/lib/Dialect/Modeling/IR/Attributes.cpp
+++ b/lib/Dialect/Modeling/IR/Attributes.cpp
@@ -1,24 +1,41 @@
 #include "marco/Dialect/Modeling/IR/Attributes.h"
 #include "marco/Dialect/Modeling/IR/Dialect.h"
 #include "llvm/ADT/TypeSwitch.h"
+#include <limits>
 
 using namespace ::mlir::modeling;
 
-namespace mlir {
-mlir::FailureOr<mlir::modeling::Range>
-FieldParser<mlir::modeling::Range>::parse(mlir::AsmParser &parser) {
+/// Parse the bounds of a range, whose opening bracket has already been parsed.
+static mlir::FailureOr<mlir::modeling::Range>
+parseRangeBounds(mlir::AsmParser &parser) {
   int64_t beginValue;
   int64_t endValue;
+  auto loc = parser.getCurrentLocation();
+
+  if (parser.parseInteger(beginValue) || parser.parseComma() ||
+      parser.parseInteger(endValue) || parser.parseRSquare()) {
+    return mlir::failure();
+  }
 
-  if (parser.parseLSquare() || parser.parseInteger(beginValue) ||
-      parser.parseComma() || parser.parseInteger(endValue) ||
-      parser.parseRSquare()) {
+  if (beginValue > endValue ||
+      endValue == std::numeric_limits<int64_t>::max()) {
+    parser.emitError(loc) << "invalid range bounds";
     return mlir::failure();
   }
 
   return mlir::modeling::Range(beginValue, endValue + 1);
 }
 
+namespace mlir {
+mlir::FailureOr<mlir::modeling::Range>
+FieldParser<mlir::modeling::Range>::parse(mlir::AsmParser &parser) {
+  if (parser.parseLSquare()) {
+    return mlir::failure();
+  }
+
+  return parseRangeBounds(parser);
+}
+
 mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer, const Range &range) {
   return printer << "[" << range.getBegin() << "," << (range.getEnd() - 1)
                  << "]";
@@ -27,19 +44,17 @@ mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer, const Range &range) {
 mlir::FailureOr<std::optional<mlir::modeling::Range>>
 FieldParser<std::optional<mlir::modeling::Range>>::parse(
     mlir::AsmParser &parser) {
-  int64_t beginValue;
-  int64_t endValue;
-
   if (parser.parseOptionalLSquare()) {
     return std::optional<mlir::modeling::Range>(std::nullopt);
   }
 
-  if (parser.parseInteger(beginValue) || parser.parseComma() ||
-      parser.parseInteger(endValue) || parser.parseRSquare()) {
+  mlir::FailureOr<mlir::modeling::Range> range = parseRangeBounds(parser);
+
+  if (mlir::failed(range)) {
     return mlir::failure();
   }
 
-  return std::optional(mlir::modeling::Range(beginValue, endValue + 1));
+  return std::optional(*range);
 }
 
 mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer,
diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 0339d23..505f624 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -2,6 +2,7 @@
 #include "marco/Dialect/Modeling/IR/Attributes.h"
 #include "mlir/Bytecode/BytecodeImplementation.h"
 #include "mlir/IR/Builders.h"
+#include <limits>
 
 namespace mlir::modeling {
 //===-------------------------------------------------------------------===//
@@ -113,15 +114,25 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSet &prop) {
 
       do {
         int64_t begin, end;
+        auto loc = parser.getCurrentLocation();
 
         if (parser.parseInteger(begin) || parser.parseComma() ||
             parser.parseInteger(end) || parser.parseRSquare()) {
           return mlir::failure();
         }
 
+        if (begin > end || end == std::numeric_limits<int64_t>::max()) {
+          return parser.emitError(loc) << "invalid range bounds";
+        }
+
         ranges.emplace_back(begin, end + 1);
       } while (mlir::succeeded(parser.parseOptionalLSquare()));
 
+      if (!prop.empty() && prop.rank() != ranges.size()) {
+        return parser.emitError(parser.getCurrentLocation())
+               << "expected a range with rank " << prop.rank();
+      }
+
       prop += MultidimensionalRange(ranges);
     } while (mlir::succeeded(parser.parseOptionalComma()));
 
-- 
2.43.0


From bd7a16dcb3cbc1a100620df066648eabdec8a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 78/83] fix: parse the false elements of dense Boolean
 attributes

---
 lib/Dialect/BaseModelica/IR/Attributes.cpp | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Attributes.cpp b/lib/Dialect/BaseModelica/IR/Attributes.cpp
index 8ba3557..cc43639 100644
--- a/lib/Dialect/BaseModelica/IR/Attributes.cpp
+++ b/lib/Dialect/BaseModelica/IR/Attributes.cpp
@@ -315,27 +315,23 @@ mlir::Attribute DenseBooleanElementsAttr::parse(mlir::AsmParser &parser,
     return {};
   }
 
-  bool value = false;
-
-  if (mlir::succeeded(parser.parseOptionalKeyword("true"))) {
-    value = true;
-  } else if (parser.parseKeyword("false")) {
-    return {};
-  }
-
-  values.push_back(value);
+  if (mlir::failed(parser.parseOptionalRSquare())) {
+    do {
+      if (mlir::succeeded(parser.parseOptionalKeyword("true"))) {
+        values.push_back(true);
+      } else if (mlir::succeeded(parser.parseKeyword("false"))) {
+        values.push_back(false);
+      } else {
+        return {};
+      }
+    } while (mlir::succeeded(parser.parseOptionalComma()));
 
-  while (mlir::succeeded(parser.parseOptionalComma())) {
-    if (mlir::succeeded(parser.parseOptionalKeyword("true"))) {
-      value = true;
-    } else if (parser.parseKeyword("false")) {
+    if (parser.parseRSquare()) {
       return {};
     }
-
-    values.push_back(value);
   }
 
-  if (parser.parseRSquare() || parser.parseGreater()) {
+  if (parser.parseGreater()) {
     return {};
   }
 
-- 
2.43.0


From d3875826ec3252d5b509c67319f700d021677420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 79/83] fix: parse dense attributes without elements

---
 lib/Dialect/BaseModelica/IR/Attributes.cpp | 40 +++++++++++-----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Attributes.cpp b/lib/Dialect/BaseModelica/IR/Attributes.cpp
index cc43639..96df4d5 100644
--- a/lib/Dialect/BaseModelica/IR/Attributes.cpp
+++ b/lib/Dialect/BaseModelica/IR/Attributes.cpp
@@ -373,23 +373,23 @@ mlir::Attribute DenseIntegerElementsAttr::parse(mlir::AsmParser &parser,
     return {};
   }
 
-  int64_t value;
+  if (mlir::failed(parser.parseOptionalRSquare())) {
+    do {
+      int64_t value;
 
-  if (parser.parseInteger(value)) {
-    return {};
-  }
+      if (parser.parseInteger(value)) {
+        return {};
+      }
 
-  values.push_back(value);
+      values.push_back(value);
+    } while (mlir::succeeded(parser.parseOptionalComma()));
 
-  while (mlir::succeeded(parser.parseOptionalComma())) {
-    if (parser.parseInteger(value)) {
+    if (parser.parseRSquare()) {
       return {};
     }
-
-    values.push_back(value);
   }
 
-  if (parser.parseRSquare() || parser.parseGreater()) {
+  if (parser.parseGreater()) {
     return {};
   }
 
@@ -431,23 +431,23 @@ mlir::Attribute DenseRealElementsAttr::parse(mlir::AsmParser &parser,
     return {};
   }
 
-  double value;
+  if (mlir::failed(parser.parseOptionalRSquare())) {
+    do {
+      double value;
 
-  if (parser.parseFloat(value)) {
-    return {};
-  }
+      if (parser.parseFloat(value)) {
+        return {};
+      }
 
-  values.emplace_back(value);
+      values.emplace_back(value);
+    } while (mlir::succeeded(parser.parseOptionalComma()));
 
-  while (mlir::succeeded(parser.parseOptionalComma())) {
-    if (parser.parseFloat(value)) {
+    if (parser.parseRSquare()) {
       return {};
     }
-
-    values.emplace_back(value);
   }
 
-  if (parser.parseRSquare() || parser.parseGreater()) {
+  if (parser.parseGreater()) {
     return {};
   }
 
-- 
2.43.0


From 85db03c73211b900705fd640531754ce5c716b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 80/83] fix: do not reuse the moved elements while parsing
 lists

---
 lib/Dialect/BaseModelica/IR/Properties.cpp | 4 ++--
 lib/Dialect/Modeling/IR/Properties.cpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Properties.cpp b/lib/Dialect/BaseModelica/IR/Properties.cpp
index 1ef887c..f9b479d 100644
--- a/lib/Dialect/BaseModelica/IR/Properties.cpp
+++ b/lib/Dialect/BaseModelica/IR/Properties.cpp
@@ -216,9 +216,9 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, VariablesList &prop) {
   }
 
   if (mlir::failed(parser.parseOptionalRSquare())) {
-    Variable variable;
-
     do {
+      Variable variable;
+
       if (mlir::failed(parse(parser, variable))) {
         return mlir::failure();
       }
diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 505f624..db717b1 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -234,9 +234,9 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSetsList &prop) {
   }
 
   if (mlir::failed(parser.parseOptionalRSquare())) {
-    IndexSet indices;
-
     do {
+      IndexSet indices;
+
       if (mlir::failed(parse(parser, indices))) {
         return mlir::failure();
       }
-- 
2.43.0


From ef04f00d41940c342aa785c3e910fc6cd205bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 81/83] fix: refuse unknown properties of equation instances

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f472889..0588af8 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -9831,7 +9831,7 @@ mlir::ParseResult StartEquationInstanceOp::parse(mlir::OpAsmParser &parser,
   }
 
   if (mlir::succeeded(parser.parseOptionalComma())) {
-    if (parser.parseOptionalKeyword("indices") || parser.parseEqual() ||
+    if (parser.parseKeyword("indices") || parser.parseEqual() ||
         ::mlir::modeling::parseIndexSet(
             parser, result.getOrAddProperties<Properties>().indices)) {
       return mlir::failure();
@@ -9974,6 +9974,10 @@ mlir::ParseResult EquationInstanceOp::parse(mlir::OpAsmParser &parser,
           mlir::failed(::mlir::bmodelica::parse(parser, prop))) {
         return mlir::failure();
       }
+    } else {
+      return parser.emitError(
+          parser.getCurrentLocation(),
+          "expected 'indices', 'match' or 'schedule'");
     }
   }
 
-- 
2.43.0


From 960c73ab281e34899ff5716f6d83f11a35bfb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 82/83] fix: update the types of the equation sides using
 propagated variables

---
 .../ReadOnlyVariablesPropagation.cpp           | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/ReadOnlyVariablesPropagation.cpp b/lib/Dialect/BaseModelica/Transforms/ReadOnlyVariablesPropagation.cpp
index 52c6c15..8e0ed91 100644
--- a/lib/Dialect/BaseModelica/Transforms/ReadOnlyVariablesPropagation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/ReadOnlyVariablesPropagation.cpp
@@ -125,6 +125,24 @@ ReadOnlyVariablesPropagationPass::processModelOp(ModelOp modelOp) {
           getOp->erase();
         }
 
+        // The type of a binding expression may differ from the one of the
+        // variable. Keep the types of the equation sides coherent.
+        llvm::SmallVector<EquationSideOp> sideOps;
+        region->walk([&](EquationSideOp op) { sideOps.push_back(op); });
+
+        for (EquationSideOp sideOp : sideOps) {
+          if (!llvm::equal(sideOp.getResult().getType().getTypes(),
+                           sideOp.getValues().getTypes())) {
+            builder.setInsertionPoint(sideOp);
+
+            auto newSideOp = builder.create<EquationSideOp>(
+                sideOp.getLoc(), sideOp.getValues());
+
+            sideOp.replaceAllUsesWith(newSideOp.getResult());
+            sideOp.erase();
+          }
+        }
+
         return mlir::success();
       });
 }
-- 
2.43.0


From 857cb8ad9793d3849f342792213b991319df8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 83/83] fix: do not mix the positive and negative zeros of
 dense Real attributes

---
 .../marco/Dialect/BaseModelica/IR/Attributes.td | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Attributes.td b/include/marco/Dialect/BaseModelica/IR/Attributes.td
index e6806ec..f65ad64 100644
--- a/include/marco/Dialect/BaseModelica/IR/Attributes.td
+++ b/include/marco/Dialect/BaseModelica/IR/Attributes.td
@@ -148,6 +148,21 @@ def BaseModelica_DenseIntegerElementsAttr
     let hasCustomAssemblyFormat = 1;
 }
 
+// Arrays of floating point values, which are compared bitwise as it happens
+// for the scalar ones.
+def BaseModelica_APFloatArrayParameter
+    : ArrayRefParameter<"::llvm::APFloat", "elements">
+{
+    let comparator = [{
+        $_lhs.size() == $_rhs.size() &&
+        ::std::equal($_lhs.begin(), $_lhs.end(), $_rhs.begin(),
+                     [](const ::llvm::APFloat &lhs,
+                        const ::llvm::APFloat &rhs) {
+                         return lhs.bitwiseIsEqual(rhs);
+                     })
+    }];
+}
+
 def BaseModelica_DenseRealElementsAttr
     : BaseModelica_Attr<"DenseRealElements", [TypedAttrInterface]>
 {
@@ -161,7 +176,7 @@ def BaseModelica_DenseRealElementsAttr
 
     let parameters = (ins
         AttributeSelfTypeParameter<"">:$type,
-        ArrayRefParameter<"::llvm::APFloat", "elements">:$values);
+        BaseModelica_APFloatArrayParameter:$values);
 
     let builders = [
         AttrBuilderWithInferredContext<(ins "Type":$type, "llvm::ArrayRef<double>":$values), [{
-- 
2.43.0

