From 2b7b4335529be4b99e128107fdba52cf46d784b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 01/13] fix: do not count duplicate terms in SortedDawg::size

A term added twice to a SortedDawg was counted twice, so size() exceeded
the number of terms in the dictionary and iterating over the dictionary
yielded its last term repeatedly.
---
 src/liblevenshtein/collection/sorted_dawg.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 7d8afa6..13773d5 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -18,9 +18,15 @@ auto SortedDawg::add(const std::string &term) -> bool {
   }
 
   if (term.empty()) {
-    _root->is_final(true);
-    _prev_term = term;
-    _size += 1;
+    if (!_root->is_final()) {
+      _root->is_final(true);
+      _size += 1;
+    }
+    return true;
+  }
+
+  // Duplicate terms are already in the dictionary, so do not count them twice
+  if (term == _prev_term) {
     return true;
   }
 
-- 
2.43.0


From fe992f29feef5fc02b9abd3c69392d999a30709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 02/13] fix: refuse to add terms to a SortedDawg that is not
 being initialized

add() dereferenced a null pointer when it was called on a dictionary that
was already built (sorted_dawg) or deserialized, and add("") corrupted its
size.
---
 src/liblevenshtein/collection/sorted_dawg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 13773d5..e41d58b 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -13,6 +13,11 @@ SortedDawg::~SortedDawg() {
 }
 
 auto SortedDawg::add(const std::string &term) -> bool {
+  // Terms may only be added while the dictionary is being initialized
+  if (unchecked_transitions == nullptr) {
+    return false;
+  }
+
   if (term < _prev_term) {
     return false;
   }
-- 
2.43.0


From 8d5ac377fd1a8e17a12d79696e30529f36d13b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 03/13] fix: report a failure to flush the serialized
 dictionary

serialize_protobuf(dawg, path) ignored the result of close(), which is what
writes the last (or only) part of the output. It returned true although
the file was incomplete, e.g. when the disk was full.
---
 src/liblevenshtein/serialization/serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 80bdeee..14ecfc4 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -30,8 +30,8 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
   std::fstream output(path, std::fstream::out | std::fstream::trunc |
                                 std::fstream::binary);
   bool serialized = serialize_protobuf(dawg, output);
-  output.close();
-  return serialized;
+  output.close(); // flushes the remaining output
+  return serialized && output.good();
 }
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
-- 
2.43.0


From 7728dc1ee77e0ac4eba7cc232a9f6928a70f8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 04/13] fix: do not deserialize truncated or inconsistent
 dictionaries

deserialize_protobuf dereferenced null pointers (or freed nodes) when the
file was empty, truncated or damaged but still a well-formed protobuf: an
unknown root or edge, a repeated edge, a cycle. When only the size was lost,
the dictionary could not be iterated over. Return nullptr instead, as
documented for input that contains no Dawg.
---
 .../serialization/serializer.cpp              | 60 +++++++++++++++++--
 src/liblevenshtein/serialization/serializer.h |  3 +-
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 14ecfc4..683f5d0 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <iostream>
 #include <map>
+#include <queue>
 #include <set>
 #include <utility>
 
@@ -125,6 +126,45 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
   return dict_proto;
 }
 
+// Determines whether the nodes form an acyclic graph in which every node is
+// reachable from the root, and from which exactly `size` terms may be formed.
+static auto is_dawg(DawgNode *root,
+                    const std::map<uint64_t, DawgNode *> &nodes,
+                    std::size_t size) -> bool {
+  std::map<DawgNode *, std::size_t> in_degree;
+  for (const auto &[node_id, node] : nodes) {
+    node->for_each_edge(
+        [&](char label, DawgNode *target) { in_degree[target] += 1; });
+  }
+  for (const auto &[node_id, node] : nodes) {
+    if ((node == root) != (in_degree[node] == 0)) {
+      return false;
+    }
+  }
+
+  std::size_t num_nodes = 0;
+  std::size_t num_terms = 0;
+  std::map<DawgNode *, std::size_t> num_prefixes = {{root, 1}};
+  std::queue<DawgNode *> pending;
+  pending.push(root);
+  while (!pending.empty()) {
+    DawgNode *node = pending.front();
+    pending.pop();
+    num_nodes += 1;
+    if (node->is_final()) {
+      num_terms += num_prefixes[node];
+    }
+    node->for_each_edge([&](char label, DawgNode *target) {
+      num_prefixes[target] += num_prefixes[node];
+      in_degree[target] -= 1;
+      if (in_degree[target] == 0) {
+        pending.push(target);
+      }
+    });
+  }
+  return num_nodes == nodes.size() && num_terms == size;
+}
+
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
   std::set<uint64_t> final_node_ids;
   for (int index = 0; index < dict_proto.final_node_id_size(); index += 1) {
@@ -142,14 +182,26 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
     }
   }
 
-  for (int index = 0; index < dict_proto.edge_size(); index += 1) {
+  bool is_valid = nodes.contains(dict_proto.root_id());
+
+  for (int index = 0; is_valid && index < dict_proto.edge_size(); index += 1) {
     const llp::Dictionary_Edge &edge_proto = dict_proto.edge(index);
     uint64_t source_id = edge_proto.source_id();
     char label = (char)edge_proto.label();
     uint64_t target_id = edge_proto.target_id();
-    DawgNode *source = nodes[source_id];
-    DawgNode *target = nodes[target_id];
-    source->add_edge(label, target);
+    is_valid = nodes.contains(source_id) && nodes.contains(target_id) &&
+               nodes[source_id]->transition(label) == nullptr;
+    if (is_valid) {
+      nodes[source_id]->add_edge(label, nodes[target_id]);
+    }
+  }
+
+  if (!is_valid ||
+      !is_dawg(nodes[dict_proto.root_id()], nodes, dict_proto.size())) {
+    for (const auto &[node_id, node] : nodes) {
+      delete node;
+    }
+    return nullptr;
   }
 
   DawgNode *root = nodes[dict_proto.root_id()];
diff --git a/src/liblevenshtein/serialization/serializer.h b/src/liblevenshtein/serialization/serializer.h
index 03639c4..c13bab9 100644
--- a/src/liblevenshtein/serialization/serializer.h
+++ b/src/liblevenshtein/serialization/serializer.h
@@ -125,7 +125,8 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary *;
  *
  * @param dict_proto Protobuf containing the serialized information necessary
  * for reconstructing the Dawg.
- * @return A pointer to the deserialized Dawg.
+ * @return A pointer to the deserialized Dawg, or nullptr if the protobuf does
+ * not contain one (e.g. because it was truncated).
  */
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg *;
 
-- 
2.43.0


From 2972d5bb57eef6d612e7cfcb7a405cebbf4e36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 05/13] fix: give Distance a virtual destructor

Deleting a StandardDistance, TranspositionDistance or MergeAndSplitDistance
by way of a pointer to Distance was undefined and leaked the memoized
distances.
---
 src/liblevenshtein/distance/distance.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/distance/distance.h b/src/liblevenshtein/distance/distance.h
index 85d667f..d5916be 100644
--- a/src/liblevenshtein/distance/distance.h
+++ b/src/liblevenshtein/distance/distance.h
@@ -21,6 +21,11 @@ namespace liblevenshtein::distance {
 class Distance {
 public:
 
+  /**
+   * Distances may be deleted by way of this interface.
+   */
+  virtual ~Distance() = default;
+
   /**
    * Measures the edit distance between two terms.
    *
-- 
2.43.0


From fe23e071459b2ea14666ae11f8dce1614ff2066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 06/13] fix: exit the demo when its input ends without a
 newline

std::getline leaves the string as it was once the input has ended, so the
demo repeated the last query forever.
---
 example/src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index 96e92c2..e0b8d78 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -51,7 +51,9 @@ std::string &prompt(std::string &query_term) {
   std::cout << std::endl;
   std::cout << "Enter a query term (or nothing to exit)." << std::endl;
   std::cout << "query> ";
-  std::getline(std::cin, query_term);
+  if (!std::getline(std::cin, query_term)) {
+    query_term.clear(); // there is no more input
+  }
   return query_term;
 }
 
-- 
2.43.0


From 036816d555220386fe9667683484f7ef50804b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 07/13] fix: make copies of DawgIterator and LazyQuery share
 their allocations

The iterators free the prefixes and intersections they traversed but have
implicit copy constructors, so copying an iterator freed them twice.
---
 src/liblevenshtein/collection/dawg_iterator.cpp | 10 +++-------
 src/liblevenshtein/collection/dawg_iterator.h   |  3 ++-
 src/liblevenshtein/transducer/lazy_query.cpp    |  8 ++------
 src/liblevenshtein/transducer/lazy_query.h      |  3 ++-
 4 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg_iterator.cpp b/src/liblevenshtein/collection/dawg_iterator.cpp
index a4f4e9e..f1e4ed1 100644
--- a/src/liblevenshtein/collection/dawg_iterator.cpp
+++ b/src/liblevenshtein/collection/dawg_iterator.cpp
@@ -5,7 +5,7 @@ namespace liblevenshtein {
 
 DawgIterator::DawgIterator(DawgNode* root) {
   auto *prefix = new Prefix(root);
-  _prefixes.push_back(prefix);
+  _prefixes.emplace_back(prefix);
   _pending.push(prefix);
   advance();
 }
@@ -14,11 +14,7 @@ DawgIterator::DawgIterator(std::size_t term_index)
   : _term_index(term_index)
 {}
 
-DawgIterator::~DawgIterator() {
-  for (Prefix* prefix : _prefixes) {
-    delete prefix;
-  }
-}
+DawgIterator::~DawgIterator() = default;
 
 auto DawgIterator::operator++() -> DawgIterator & {
   advance();
@@ -47,7 +43,7 @@ void DawgIterator::advance() {
       node = prefix->node();
       node->for_each_edge([&] (char label, DawgNode* target) {
         auto *child = new Prefix(target, prefix, label);
-        _prefixes.push_back(child);
+        _prefixes.emplace_back(child);
         _pending.push(child);
       });
     }
diff --git a/src/liblevenshtein/collection/dawg_iterator.h b/src/liblevenshtein/collection/dawg_iterator.h
index 3aeb97f..9ca5e59 100644
--- a/src/liblevenshtein/collection/dawg_iterator.h
+++ b/src/liblevenshtein/collection/dawg_iterator.h
@@ -1,6 +1,7 @@
 #ifndef LIBLEVENSHTEIN_COLLECTION_DAWG_ITERATOR_H
 #define LIBLEVENSHTEIN_COLLECTION_DAWG_ITERATOR_H
 
+#include <memory>
 #include <queue>
 #include <vector>
 
@@ -69,7 +70,7 @@ private:
 
   /** Used to construct dictionary terms by collecting consecutive edge labels
   from the root node to their respective final nodes. */
-  std::vector<Prefix *> _prefixes;
+  std::vector<std::shared_ptr<Prefix>> _prefixes;
 
   /** Intermediate prefixes that have not reached all their final nodes yet. */
   std::queue<Prefix *> _pending;
diff --git a/src/liblevenshtein/transducer/lazy_query.cpp b/src/liblevenshtein/transducer/lazy_query.cpp
index 713bfc9..f24639a 100644
--- a/src/liblevenshtein/transducer/lazy_query.cpp
+++ b/src/liblevenshtein/transducer/lazy_query.cpp
@@ -23,11 +23,7 @@ LazyQuery<Result>::LazyQuery(const std::string &term, std::size_t max_distance,
   }
 }
 
-template <class Result> LazyQuery<Result>::~LazyQuery() {
-  for (Intersection *intersection : _intersections) {
-    delete intersection;
-  }
-}
+template <class Result> LazyQuery<Result>::~LazyQuery() = default;
 
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 template <class Result> void LazyQuery<Result>::advance() {
@@ -81,7 +77,7 @@ auto LazyQuery<Result>::build_intersection(char label, DawgNode *node,
                                            State *state, Intersection *parent)
     -> Intersection * {
   auto *intersection = new Intersection(label, node, state, parent);
-  _intersections.push_back(intersection);
+  _intersections.emplace_back(intersection);
   return intersection;
 }
 
diff --git a/src/liblevenshtein/transducer/lazy_query.h b/src/liblevenshtein/transducer/lazy_query.h
index b0b4390..174ac2d 100644
--- a/src/liblevenshtein/transducer/lazy_query.h
+++ b/src/liblevenshtein/transducer/lazy_query.h
@@ -3,6 +3,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <memory>
 #include <queue>
 #include <string>
 #include <utility>
@@ -94,7 +95,7 @@ private:
   std::queue<std::pair<char, DawgNode *>> _edges;
 
   /** Tracks Intersection allocations so they may be freed. */
-  std::vector<Intersection *> _intersections;
+  std::vector<std::shared_ptr<Intersection>> _intersections;
 
   /** Whether all the spelling candidates have been matched. */
   bool _is_complete = false;
-- 
2.43.0


From 277fe40f22d6371f27c21ff9a4a026a554f30162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 08/13] fix: make copies of a Transducer share its initial
 intersection

Transducer freed its intersection but had an implicit copy constructor, so
copying one (e.g. into a vector) freed the intersection twice.
---
 src/liblevenshtein/transducer/transducer.cpp | 8 +++-----
 src/liblevenshtein/transducer/transducer.h   | 3 ++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/liblevenshtein/transducer/transducer.cpp b/src/liblevenshtein/transducer/transducer.cpp
index 650b6c4..f064bfb 100644
--- a/src/liblevenshtein/transducer/transducer.cpp
+++ b/src/liblevenshtein/transducer/transducer.cpp
@@ -14,20 +14,18 @@ template <Algorithm Type, class Result>
 Transducer<Type, Result>::Transducer(DawgNode *root) {
   auto *position = new Position(0, 0);
   auto *initial_state = new State({position});
-  _intersection = new Intersection('\0', root, initial_state);
+  _intersection = std::make_shared<Intersection>('\0', root, initial_state);
 }
 
 template <Algorithm Type, class Result>
-Transducer<Type, Result>::~Transducer() {
-  delete _intersection;
-}
+Transducer<Type, Result>::~Transducer() = default;
 
 template <Algorithm Type, class Result>
 auto Transducer<Type, Result>::operator()(const std::string &term,
                                           std::size_t max_distance)
     -> LazyIterator<Result> {
   return LazyIterator<Result>(
-    term, max_distance, _intersection,
+    term, max_distance, _intersection.get(),
     StateTransition(position_transition<Type>, compare<Type>,
             merge<Type>, UnsubsumeFn(subsumes<Type>),
             max_distance, term.length()),
diff --git a/src/liblevenshtein/transducer/transducer.h b/src/liblevenshtein/transducer/transducer.h
index f78475b..7831be6 100644
--- a/src/liblevenshtein/transducer/transducer.h
+++ b/src/liblevenshtein/transducer/transducer.h
@@ -2,6 +2,7 @@
 #define LIBLEVENSHTEIN_TRANSDUCER_TRANSDUCER_H
 
 #include <cstddef>
+#include <memory>
 #include <string>
 #include <utility>
 
@@ -58,7 +59,7 @@ private:
 
   /** Initial intersection between the Levenshtein automaton and dictionary
   automaton. */
-  Intersection *_intersection;
+  std::shared_ptr<Intersection> _intersection;
 };
 
 } // namespace liblevenshtein
-- 
2.43.0


From e10a0f317b8b3fa49a2c7a718a7beb0689adfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:01 +0000
Subject: [PATCH 09/13] Revert "fix: exit the demo when its input ends without
 a newline"

This reverts commit fe23e071459b2ea14666ae11f8dce1614ff2066b.
---
 example/src/main.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index e0b8d78..96e92c2 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -51,9 +51,7 @@ std::string &prompt(std::string &query_term) {
   std::cout << std::endl;
   std::cout << "Enter a query term (or nothing to exit)." << std::endl;
   std::cout << "query> ";
-  if (!std::getline(std::cin, query_term)) {
-    query_term.clear(); // there is no more input
-  }
+  std::getline(std::cin, query_term);
   return query_term;
 }
 
-- 
2.43.0


From 513bcd50ba7d335fc7bd006d5db727b6bea403a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:02 +0000
Subject: [PATCH 10/13] fix: refuse terms added after SortedDawg::finish

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 3 ++-
 src/liblevenshtein/collection/sorted_dawg.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index e41d58b..379724f 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -14,7 +14,7 @@ SortedDawg::~SortedDawg() {
 
 auto SortedDawg::add(const std::string &term) -> bool {
   // Terms may only be added while the dictionary is being initialized
-  if (unchecked_transitions == nullptr) {
+  if (unchecked_transitions == nullptr || _finished) {
     return false;
   }
 
@@ -67,6 +67,7 @@ auto SortedDawg::add(const std::string &term) -> bool {
 
 void SortedDawg::finish() {
   minimize(0);
+  _finished = true;
 }
 
 auto SortedDawg::minimized_node(DawgNode *key) const -> DawgNode * {
diff --git a/src/liblevenshtein/collection/sorted_dawg.h b/src/liblevenshtein/collection/sorted_dawg.h
index 7161135..9e99027 100644
--- a/src/liblevenshtein/collection/sorted_dawg.h
+++ b/src/liblevenshtein/collection/sorted_dawg.h
@@ -96,6 +96,9 @@ private:
 
   /** Previous term inserted into this Dawg. */
   std::string _prev_term;
+
+  /** Whether all terms have been added, so no others may follow. */
+  bool _finished = false;
 };
 
 /**
-- 
2.43.0


From b8fbe40554116d9b8a7843a8dc6462277377fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:02 +0000
Subject: [PATCH 11/13] fix: keep the target when an edge is added to a
 DawgNode again

---
 src/liblevenshtein/collection/dawg_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/dawg_node.cpp b/src/liblevenshtein/collection/dawg_node.cpp
index 0c2965d..f2d6d8c 100644
--- a/src/liblevenshtein/collection/dawg_node.cpp
+++ b/src/liblevenshtein/collection/dawg_node.cpp
@@ -40,7 +40,9 @@ auto DawgNode::transition(char label) const -> DawgNode * {
 
 auto DawgNode::add_edge(char label, DawgNode *target) -> DawgNode * {
   DawgNode* existing = transition(label);
-  delete existing;
+  if (existing != target) {
+    delete existing;
+  }
   _edges[label] = target;
   return this;
 }
-- 
2.43.0


From 15f568fd83520bbec77609e5b679bdfed32fe94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 12/13] fix: visit shared nodes once when freeing a Dawg

---
 src/liblevenshtein/collection/dawg.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg.cpp b/src/liblevenshtein/collection/dawg.cpp
index 2e8fbf9..8394a82 100644
--- a/src/liblevenshtein/collection/dawg.cpp
+++ b/src/liblevenshtein/collection/dawg.cpp
@@ -32,10 +32,11 @@ auto Dawg::all_nodes() const -> std::unordered_set<DawgNode *> {
   while (!pending.empty()) {
     DawgNode *node = pending.front();
     pending.pop();
-    nodes.insert(node);
-    node->for_each_edge([&](char label, DawgNode *target) {
-      pending.push(target);
-    });
+    if (nodes.insert(node).second) { // nodes may be shared by many prefixes
+      node->for_each_edge([&](char label, DawgNode *target) {
+        pending.push(target);
+      });
+    }
   }
   return nodes;
 }
-- 
2.43.0


From 217da0fb30e4ff589d71112eb9af55e6ee7aec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 13/13] fix: do not let the number of deserialized terms wrap
 around

---
 src/liblevenshtein/serialization/serializer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 683f5d0..4c34ca4 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -151,11 +151,16 @@ static auto is_dawg(DawgNode *root,
     DawgNode *node = pending.front();
     pending.pop();
     num_nodes += 1;
+    std::size_t count = num_prefixes[node];
     if (node->is_final()) {
-      num_terms += num_prefixes[node];
+      if (count > size - num_terms) {
+        return false;
+      }
+      num_terms += count;
     }
     node->for_each_edge([&](char label, DawgNode *target) {
-      num_prefixes[target] += num_prefixes[node];
+      std::size_t &sum = num_prefixes[target]; // does not wrap around
+      sum = (count > SIZE_MAX - sum) ? SIZE_MAX : sum + count;
       in_degree[target] -= 1;
       if (in_degree[target] == 0) {
         pending.push(target);
-- 
2.43.0

