From 55682677e54a0f1305dcfb2902e38eb7928af929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 01/55] fix: odd_hole_graphs raises IndexError on universes
 with fewer than 5 vertices

---
 graphillion/graphclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index fe1051d..91114e7 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -197,6 +197,8 @@ class GraphClass:
             vertices.add(e[0])
             vertices.add(e[1])
         n = len(vertices)
+        if n < 5:
+            return GraphSet()
 
         # cycle with odd length at least 5
         dc = {}
-- 
2.43.0


From 2cbb3e73807d9992bcd92470a83cd4d7d3b043b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 02/55] fix: odd_hole_graphs fails when a graph converter is
 set

---
 graphillion/graphclass.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index 91114e7..a68492a 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -191,12 +191,7 @@ class GraphClass:
         Notes:
             See https://www.graphclasses.org/smallgraphs.html#odd_holes for more information.
         """
-        univ = GraphSet.universe()
-        vertices = set()
-        for e in univ:
-            vertices.add(e[0])
-            vertices.add(e[1])
-        n = len(vertices)
+        n = len(Universe.vertices)
         if n < 5:
             return GraphSet()
 
-- 
2.43.0


From 454ad393fd57051891f2195f575163d3dceba61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 03/55] fix: chordal_bipartite_graphs misses disconnected
 graphs

---
 graphillion/graphclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index a68492a..a84d39c 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -283,7 +283,7 @@ class GraphClass:
         cycles = GraphSet.cycles()
         cycles_length_at_least_6 = cycles.larger(5) # >= 6
         chordal = GraphSet.forbidden_induced_subgraphs(cycles_length_at_least_6)
-        return chordal & GraphSet.bipartite_graphs()
+        return chordal & GraphSet.bipartite_graphs(is_connected=False)
 
     @staticmethod
     def split_graphs():
-- 
2.43.0


From 5801287bee38001927ce945b5c43a0d9d91ecd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 04/55] fix: induced_graphs never sees a finished component
 because of a copied mate

---
 src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
index bf80b37..a47fb94 100644
--- a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
+++ b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
@@ -141,7 +141,7 @@ class ConnectedInducedSubgraphSpec
   std::vector<Vec2> neighborList;
 
   int takable(Mate const* mate, tdzdd::Graph::EdgeInfo const& e) const {
-    Mate const &w1 = mate[e.v1 - e.v0], w2 = mate[e.v2 - e.v0];
+    Mate const &w1 = mate[e.v1 - e.v0], &w2 = mate[e.v2 - e.v0];
 
     if (!w1.isComponent() && w1.isMarked()) {
       return 0;
-- 
2.43.0


From 684539e06ef4f5d75214f12037828d1e0ebe8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 05/55] fix: DiGraphSet.set_universe rejects antiparallel edges
 with bfs and dfs

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 722fa9f..5f961be 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2117,6 +2117,8 @@ class DiGraphSet(object):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
+                        if (e[1], e[0]) in indexed_edges:
+                            sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
                 queue_or_stack.extend(sorted(new_vertices))
-- 
2.43.0


From b7e1324b3027968f3afbfe85254098e19617b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 06/55] fix: DiGraphSet.graphs rejects in- and out-degrees on
 the way to the required ones

---
 src/graphillion/digraphs/FrontierDegreeSpecified.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index f6a84da..e462ce1 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -138,13 +138,13 @@ class FrontierDegreeSpecifiedSpec
       // increment deg of v1 and v2 (recall that edge = {v1, v2})
       auto outdeg1 = getOutdeg(data, edge.v1);
       assert(1 <= edge.v1 && edge.v1 < (int)out_constraints.size());
-      if (!out_constraints.at(edge.v1).contains(outdeg1 + 1)) {
+      if (outdeg1 + 1 > out_constraints.at(edge.v1).upperBound()) {
         return 0;
       }
 
       auto indeg2 = getIndeg(data, edge.v2);
       assert(1 <= edge.v2 && edge.v2 < (int)in_constraints.size());
-      if (!in_constraints.at(edge.v2).contains(indeg2 + 1)) {
+      if (indeg2 + 1 > in_constraints.at(edge.v2).upperBound()) {
         return 0;
       }
       setIndeg(data, edge.v2, indeg2 + 1);
-- 
2.43.0


From c2539c0525e4e0f149a54392d6c8f4cb9338fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 07/55] fix: DiGraphSet.rooted_trees spanning ignores vertices
 that have not been reached yet

---
 src/graphillion/digraphs/FrontierRootedTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graphillion/digraphs/FrontierRootedTree.hpp b/src/graphillion/digraphs/FrontierRootedTree.hpp
index 6f7967e..a6d454f 100644
--- a/src/graphillion/digraphs/FrontierRootedTree.hpp
+++ b/src/graphillion/digraphs/FrontierRootedTree.hpp
@@ -260,6 +260,10 @@ class FrontierRootedTreeSpec
           // Then, we return the 1-terminal
 
           if (isSpanning_) {
+            // a vertex that enters the frontier later is not spanned
+            for (int e = edge_index + 1; e < m_ && !frontier_exists; ++e) {
+              frontier_exists = !fm_.getEnteringVs(e).empty();
+            }
             if (frontier_exists) {
               return 0;
             } else {
-- 
2.43.0


From 88e272557c2a02e890bdb140e4604170d43a41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 08/55] fix: to_edgevertexsetset mixes up edges and vertices
 unless the traversal is as-is

---
 graphillion/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 395d473..05403de 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -241,7 +241,7 @@ class Universe:
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        Universe._set_ev_universe(universe)
+        Universe._set_ev_universe(sorted_edges)
 
         if isolated is None:
             Universe.isolated_vertices = set()
-- 
2.43.0


From 2e98f90e6b49cdc95e5ce550163ac6c28d712921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 09/55] fix: smaller(0) and set_size(0) mistake the family of
 the empty set

---
 src/graphillion/setset.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b1f1eaf..b6af540 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -384,6 +384,7 @@ setset setset::hitting(elem_t num_elems_a) const {  // a.k.a cross elements
 }
 
 setset setset::smaller(size_t set_size) const {
+  if (set_size == 0) return setset(bot());
   return setset(this->zdd_.PermitSym(set_size - 1));
 }
 
@@ -392,7 +393,7 @@ setset setset::larger(size_t set_size) const {
 }
 
 setset setset::set_size(size_t set_size) const {
-  zdd_t z = this->zdd_.PermitSym(set_size) - this->zdd_.PermitSym(set_size - 1);
+  zdd_t z = this->zdd_.PermitSym(set_size) - this->smaller(set_size).zdd_;
   return setset(z);
 }
 
-- 
2.43.0


From 88b64029b6bf79344d1fbb13ec2921d067088ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 10/55] fix: non_supersets keeps the empty set although it is
 given

---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 411e250..ffd6bd1 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -229,7 +229,7 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (f == bot() || g == top() || f == g)
     return bot();
   else if (f == top())
-    return top();
+    return (g & top()) == top() ? bot() : top();
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
-- 
2.43.0


From d054f734c8804b0a087dca692859d6e414b00630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 11/55] fix: removing a vertex fails halfway when one of its
 edges is in no graph

---
 graphillion/digraphset.py | 5 ++++-
 graphillion/graphset.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 5f961be..bf800a6 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -870,7 +870,10 @@ class DiGraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(DiGraphSet._objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [edge for edge in obj if edge in self]
+            if not edges:
+                raise KeyError('not found')
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 12c3fc7..fd40b9a 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -881,7 +881,10 @@ class GraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(Universe.e_objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [edge for edge in obj if edge in self]
+            if not edges:
+                raise KeyError('not found')
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
-- 
2.43.0


From ac0abe61f76bd20dcde95d43788f1d3d155718e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 12/55] fix: flip adds a new edge to the universe when the edge
 is given reversed or weighted

---
 graphillion/digraphset.py | 2 +-
 graphillion/graphset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index bf800a6..2fcf647 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -986,7 +986,7 @@ class DiGraphSet(object):
         """
         type, obj = DiGraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(DiGraphSet._objtable, edge)
+            self._ss.flip(DiGraphSet._objtable, obj)
         else:
             raise TypeError(edge)
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index fd40b9a..cdc328d 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -997,7 +997,7 @@ class GraphSet(object):
         """
         type, obj = GraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(Universe.e_objtable, edge)
+            self._ss.flip(Universe.e_objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From e97bdc90fd3c245853908a728d06b59680c20a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 13/55] fix: dividing by an empty collection terminates the
 process

---
 src/pygraphillion.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 63760ac..0e42683 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -76,6 +76,15 @@ using std::vector;
 #define CHECK_SETSET_OR_ERROR(obj)                              \
   CHECK_OR_ERROR(obj, PySetset_Check, "setset", NULL);
 
+#define CHECK_DIVISOR_OR_ERROR(obj)                                   \
+  do {                                                                \
+    if (reinterpret_cast<PySetsetObject*>(obj)->ss->empty()) {        \
+      PyErr_SetString(PyExc_ZeroDivisionError, "division by an empty "\
+      "setset");                                                      \
+      return NULL;                                                    \
+    }                                                                 \
+  } while (0);
+
 #define RETURN_NEW_OBJECT(py_type, expr)                         \
   do {                                                           \
     PySetsetObject* _ret = reinterpret_cast<PySetsetObject*>(    \
@@ -553,21 +562,25 @@ static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self,
 
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) / (*_other->ss));
 }
 
 static PyObject* setset_quotient_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) /= (*_other->ss));
 }
 
 static PyObject* setset_remainder(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) % (*_other->ss));
 }
 
 static PyObject* setset_remainder_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) %= (*_other->ss));
 }
 
-- 
2.43.0


From 3451f699b60008c2e997a47ca55354370f76b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 14/55] fix: every set is a hitting set of the empty collection

---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index ffd6bd1..9be048e 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -139,7 +139,7 @@ zdd_t maximal(zdd_t f) {
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
-  if (f == bot()) return top();
+  if (f == bot()) return complement(bot(), num_elems_a);
   if (f == top()) return bot();
   vector<vector<zdd_t> > stacks(num_elems_a + 1);
   set<word_t> visited;
-- 
2.43.0


From 9783deb66baf98acc6c9913a1521cad821ea5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 15/55] fix: len() of exactly sys.maxsize members raises
 OverflowError

---
 src/pygraphillion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 0e42683..a7e5a2c 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -30,6 +30,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "graphillion/partition/BalancedPartition.h"
 #include "pygraphillion.h"
 
+#include <cerrno>
 #include <cstdlib>
 #include <climits>
 
@@ -605,8 +606,9 @@ static int setset_bool(PySetsetObject* self) {
 
 static Py_ssize_t setset_len(PyObject* obj) {
   PySetsetObject* self = reinterpret_cast<PySetsetObject*>(obj);
+  errno = 0;
   long long int len = strtoll(self->ss->size().c_str(), NULL, 0);
-  if (len != LLONG_MAX) {
+  if (errno != ERANGE) {
     return len;
   } else {
     PyErr_SetString(PyExc_OverflowError, "overflow, use obj.len()");
-- 
2.43.0


From 22dd11384a98c0d6ce6028af6e20a5fb65420cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 16/55] fix: cost filters overflow 32-bit sums and reject the
 lowest 32-bit cost

---
 graphillion/digraphset.py        | 4 ++--
 graphillion/edgevertex_setset.py | 4 ++--
 graphillion/graphset.py          | 4 ++--
 graphillion/vertex_setset.py     | 3 +--
 src/SAPPOROBDD/BDDCT.h           | 4 ++--
 src/pygraphillion.cc             | 4 ++--
 6 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 2fcf647..9540127 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1561,8 +1561,8 @@ class DiGraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return DiGraphSet(self._ss.cost_le(objtable=DiGraphSet._objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=DiGraphSet._objtable, costs=costs, cost_bound=cost_bound - 1)
+        return DiGraphSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new DiGraphSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 88f5b66..db078d6 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1411,8 +1411,8 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
+        return EdgeVertexSetSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new EdgeVertexSetSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index cdc328d..f6d5170 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1573,8 +1573,8 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
+        return GraphSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new GraphSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/vertex_setset.py b/graphillion/vertex_setset.py
index f7930f9..d7261ac 100644
--- a/graphillion/vertex_setset.py
+++ b/graphillion/vertex_setset.py
@@ -1625,8 +1625,7 @@ class VertexSetSet(object):
 
         """
         #assert costs.keys() == VertexSetSet._vertex2obj.keys()
-        inv_costs = {k: -v for k, v in costs.items()}
-        return self.cost_le(inv_costs, -cost_bound)
+        return self - self.cost_le(costs, cost_bound - 1)
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new VertexSetSet with subsets whose cost is equal to the cost bound.
diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index f1db9ab..e3e7d79 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -14,8 +14,8 @@ class BDDCT;
 #include <iostream>
 #include "ZBDD.h"
 
-typedef int bddcost;
-#define bddcost_null 0x7FFFFFFF
+typedef long long bddcost;
+#define bddcost_null 0x7FFFFFFFFFFFFFFFLL
 #define CT_STRLEN 15
 
 #include <map>
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index a7e5a2c..76c0b38 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1296,7 +1296,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   static char* kwlist[3] = {s1, s2, NULL};
   PyObject* costs_obj = NULL;
   bddcost cost_bound = 0;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "Oi", kwlist, &costs_obj, &cost_bound))
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "OL", kwlist, &costs_obj, &cost_bound))
     return NULL;
   if (costs_obj == NULL || costs_obj == Py_None) {
     PyErr_SetString(PyExc_ValueError, "no costs");
@@ -1319,7 +1319,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
         Py_DECREF(cost_iter);
         return NULL;
       }
-      costs.push_back(static_cast<int>(value));
+      costs.push_back(value);
     } else {
       Py_DECREF(cost);
       Py_DECREF(cost_iter);
-- 
2.43.0


From 9db0d1ccf8c97dbce0705a104d609f84d9d96b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 17/55] fix: costs, iteration weights and reliabilities of
 edges written in the other direction

---
 graphillion/edgevertex_setset.py | 17 +++++++++++++++++
 graphillion/graphset.py          | 19 ++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index db078d6..0f5cc61 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -628,6 +628,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = EdgeVertexSetSet._conv_weights(weights)
         for g in self._ss.min_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -669,6 +670,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = EdgeVertexSetSet._conv_weights(weights)
         for g in self._ss.max_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -1375,6 +1377,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(ev): c for ev, c in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1411,6 +1414,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(ev): c for ev, c in costs.items()}
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(self._ss.difference(lt_ss))
 
@@ -1448,6 +1452,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(ev): c for ev, c in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(le_ss.difference(lt_ss))
@@ -1574,6 +1579,18 @@ class EdgeVertexSetSet(object):
             return (edge_or_vertex[1], edge_or_vertex[0])
         raise KeyError(edge_or_vertex)
 
+    @staticmethod
+    def _conv_weights(weights):
+        # edges can be given in either direction
+        converted = {}
+        for e, w in weights.items():
+            try:
+                e = EdgeVertexSetSet._conv_edgevertex(e)
+            except KeyError:
+                pass
+            converted[e] = w
+        return converted
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index f6d5170..9026391 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -725,6 +725,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = GraphSet._conv_weights(weights)
         for g in self._ss.min_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -765,6 +766,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        weights = GraphSet._conv_weights(weights)
         for g in self._ss.max_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -1538,6 +1540,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): c for e, c in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1573,6 +1576,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): c for e, c in costs.items()}
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(self._ss.difference(lt_ss))
 
@@ -1609,6 +1613,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): c for e, c in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(le_ss.difference(lt_ss))
@@ -2885,7 +2890,7 @@ class GraphSet(object):
         ps = [1.0] * (Universe.e_objtable.num_elems())
         if probabilities is not None:
           for e, p in probabilities.items():
-              i = Universe.e_objtable.obj2int[e]
+              i = Universe.e_objtable.obj2int[GraphSet._conv_edge(e)]
               ps[i - 1] = p
 
         reliability = _graphillion._reliability(
@@ -2977,6 +2982,18 @@ class GraphSet(object):
             return (edge[1], edge[0])
         raise KeyError(edge)
 
+    @staticmethod
+    def _conv_weights(weights):
+        # edges can be given in either direction
+        converted = {}
+        for e, w in weights.items():
+            try:
+                e = GraphSet._conv_edge(e)
+            except KeyError:
+                pass
+            converted[e] = w
+        return converted
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
-- 
2.43.0


From f07ea47001459b820bbec85e35afcde3007325d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 18/55] fix: cost filters take a missing cost for -1 instead of
 refusing it

---
 graphillion/setset_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 7ffe419..cab4e01 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -174,10 +174,12 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.probability(self, objtable.num_elems(), ps)
 
     def cost_le(self, objtable, costs, cost_bound):
-        cs = [-1] * (objtable.num_elems() + 1)
+        cs = [None] * (objtable.num_elems() + 1)
         for e, c in costs.items():
             i = objtable.obj2int[e]
             cs[i] = c
+        # The cost of every element must be given
+        assert None not in cs[1:]
         # Each cost must be in the range of 32 bit signed integer
         # due to the implementation of BDDCT class of SAPPOROBDD.
         assert len([c for c in cs[1:] if c < -(1 << 31) or (1 << 31) <= c]) == 0
-- 
2.43.0


From 6a2fbaced89dafeb75ac537ed2498da3dcac1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 19/55] fix: several collections in one file cannot be loaded
 one after another

---
 src/graphillion/zdd.cc | 8 ++++----
 src/pygraphillion.cc   | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 9be048e..5ce6438 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -391,8 +391,6 @@ void dump(zdd_t f, FILE* fp) {
 zdd_t load(istream& in) {
   string line;
   getline(in, line);
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
   map<word_t, zdd_t> n;
   n[id(bot())] = bot();
   n[id(top())] = top();
@@ -400,6 +398,8 @@ zdd_t load(istream& in) {
   do {
     if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
     if (line[0] == '.') break;
+    if (line[0] == 'B' && is_space(line.substr(1))) { root = bot(); continue; }
+    if (line[0] == 'T' && is_space(line.substr(1))) { root = top(); continue; }
     word_t k;
     elem_t v;
     char sl[256], sh[256];
@@ -425,8 +425,6 @@ zdd_t load(FILE* fp) {
   char buf[256];
   if (fgets(buf, sizeof(buf), fp) == NULL) return null();
   string line = buf;
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
   map<word_t, zdd_t> n;
   n[id(bot())] = bot();
   n[id(top())] = top();
@@ -435,6 +433,8 @@ zdd_t load(FILE* fp) {
     line = string(buf);
     if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
     if (line[0] == '.') break;
+    if (line[0] == 'B' && is_space(line.substr(1))) { root = bot(); continue; }
+    if (line[0] == 'T' && is_space(line.substr(1))) { root = top(); continue; }
     word_t k;
     elem_t v;
     char sl[256], sh[256];
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 76c0b38..84df59c 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1153,6 +1153,7 @@ static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
 
+  fflush(fp);  // leave the file just behind what was read
   if (fclose(fp) != 0) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
-- 
2.43.0


From 347d2120d1fa3def6191907203f5db3d4e2a0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 20/55] fix: set_universe ignores weights of edges written in
 the other direction

---
 graphillion/universe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 05403de..2aea872 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -222,6 +222,8 @@ class Universe:
                 Universe.weights[e[:2]] = e[2]
             elif weights is not None and e in weights:
                 Universe.weights[e] = weights[e]
+            elif weights is not None and (e[1], e[0]) in weights:
+                Universe.weights[e] = weights[(e[1], e[0])]
 
         if traversal != 'as-is':
             if source is None:
-- 
2.43.0


From 7ad734533f91d972ab81defbfcf8b9508a4b02c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 21/55] fix: results cached across calls go stale when nodes
 are reclaimed

---
 src/graphillion/zdd.cc | 53 ++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 5ce6438..8e361ba 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -37,6 +37,7 @@ using std::binary_search;
 using std::endl;
 using std::getline;
 using std::istream;
+using std::make_pair;
 using std::map;
 using std::ostream;
 using std::pair;
@@ -113,29 +114,33 @@ zdd_t complement(zdd_t f, elem_t num_elems_a) {
 }
 
 zdd_t minimal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+  // operands are kept, so that their ids are not reused after a GC
+  static map<word_t, pair<zdd_t, zdd_t> > cache;
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
+  map<word_t, pair<zdd_t, zdd_t> >::iterator i = cache.find(id(f));
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t rl = minimal(lo(f));
   zdd_t r = minimal(hi(f));
   zdd_t rh = non_supersets(r, rl);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  cache[id(f)] = make_pair(f, r);
+  return r;
 }
 
 zdd_t maximal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+  // operands are kept, so that their ids are not reused after a GC
+  static map<word_t, pair<zdd_t, zdd_t> > cache;
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
+  map<word_t, pair<zdd_t, zdd_t> >::iterator i = cache.find(id(f));
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t r = maximal(lo(f));
   zdd_t rh = maximal(hi(f));
   zdd_t rl = non_subsets(r, rh);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  cache[id(f)] = make_pair(f, r);
+  return r;
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
@@ -191,7 +196,8 @@ zdd_t meet(zdd_t f, zdd_t g) {
 }
 
 zdd_t non_subsets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+  // operands are kept, so that their ids are not reused after a GC
+  static map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> > cache;
   if (g == bot())
     return f;
   else if (g == top())
@@ -199,9 +205,10 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
   else if (f == bot() || f == top() || f == g)
     return bot();
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
+  map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> >::iterator i =
+      cache.find(k);
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t r, r2, rl, rh;
   if (elem(f) < elem(g)) {
     rl = non_subsets(lo(f), g);
@@ -219,11 +226,13 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
     r2 = lo(g) | hi(g);
     r = non_subsets(f, r2);
   }
-  return cache[k] = r;
+  cache[k] = make_pair(make_pair(f, g), r);
+  return r;
 }
 
 zdd_t non_supersets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+  // operands are kept, so that their ids are not reused after a GC
+  static map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> > cache;
   if (g == bot())
     return f;
   else if (f == bot() || g == top() || f == g)
@@ -233,9 +242,10 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
+  map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> >::iterator i =
+      cache.find(k);
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   elem_t v = elem(f);
   zdd_t r;
   zdd_t rl;
@@ -250,7 +260,8 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
     rl = non_supersets(lo(f), lo(g));
   }
   r = zuniq(v, rl, rh);
-  return cache[k] = r;
+  cache[k] = make_pair(make_pair(f, g), r);
+  return r;
 }
 
 bool choose(zdd_t f, vector<elem_t>* stack) {
@@ -563,13 +574,15 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
 double algo_c(zdd_t f) {
-  static map<word_t, double> counts;
+  // operands are kept, so that their ids are not reused after a GC
+  static map<word_t, pair<zdd_t, double> > counts;
   if (is_term(f))
     return f == top() ? 1 : 0;
   else if (counts.find(id(f)) != counts.end())
-    return counts.at(id(f));
-  else
-    return counts[id(f)] = algo_c(hi(f)) + algo_c(lo(f));
+    return counts.at(id(f)).second;
+  double c = algo_c(hi(f)) + algo_c(lo(f));
+  counts[id(f)] = make_pair(f, c);
+  return c;
 }
 
 static double skip_probability(elem_t e, zdd_t f,
-- 
2.43.0


From 6945e02980a9da938946dab333d3b9d4ed65b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:43 +0000
Subject: [PATCH 22/55] fix: add_some/remove_add_some answer for an earlier
 universe from the cache

---
 src/graphillion/reconf.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/reconf.cc b/src/graphillion/reconf.cc
index 638ed63..5c4a58c 100644
--- a/src/graphillion/reconf.cc
+++ b/src/graphillion/reconf.cc
@@ -34,6 +34,13 @@ typedef unsigned long long int ullint;
 #define BC_ADDE_CPP     30
 #define BC_SWAPE_CPP    31
 
+// Levels change when variables are added, so that cache entries are keyed
+// by the variables at the levels.
+static bddword rangeKey(int n, int lower)
+{
+  return (static_cast<bddword>(BDD_VarOfLev(n)) << 16) + BDD_VarOfLev(lower);
+}
+
 ZBDD removeSomeElement(const ZBDD& f)
 {
   if (f == ZBDD(0) || f == ZBDD(1)) {
@@ -89,7 +96,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
   }
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, rangeKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -111,7 +118,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_ADDE_CPP, fx, rangeKey(n, lower), h.GetID());
   }
 
   return h;
@@ -129,7 +136,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
   assert(flev <= n);
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, rangeKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -155,7 +162,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_SWAPE_CPP, fx, rangeKey(n, lower), h.GetID());
   }
 
   return h;
-- 
2.43.0


From b8b99a2e8b8dedd0519db14e7afefdbe87e012b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 23/55] fix: searches cannot be started on a DiGraphSet

---
 graphillion/digraphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 9540127..9d06261 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -143,7 +143,7 @@ class DiGraphSet(object):
                    'rooted_trees', 'graphs']
         for method in methods:
             setattr(self, method, partial(
-                getattr(DiGraphSet, method), DiGraphSet=self))
+                getattr(DiGraphSet, method), graphset=self))
 
     def copy(self):
         """Returns a new DiGraphSet with a shallow copy of `self`.
-- 
2.43.0


From 462d7927dd25ddc6f3433350f32293babeeaf37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 24/55] fix: steiner_paths cannot be restricted to a graphset

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 9026391..1ddbd85 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2637,7 +2637,7 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        gs = GraphSet.paths(graphset)
+        gs = GraphSet.paths(graphset=graphset)
         return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     DegreeDistribution_Any = -1
-- 
2.43.0


From 0acfba442de5e9d8c732ebd5a87c37f5cf75c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 25/55] fix: degree_distribution_graphs passes a GraphSet where
 a setset is read

---
 graphillion/graphset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 1ddbd85..556fd58 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2675,7 +2675,9 @@ class GraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
-        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, graphset)
+        ss = None if graphset is None else graphset._ss
+
+        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
     @staticmethod
-- 
2.43.0


From b156d235330982b4f6458706e0d0a066c184c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 26/55] fix: bipartite_graphs adds the empty graph to a
 graphset without it

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 556fd58..85aa2d9 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2523,7 +2523,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | GraphSet([[]])
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
         else:
             return gs
 
-- 
2.43.0


From 95dcffb481e47b4f0858d43c71e8fd4d00210168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 27/55] fix: degree_distribution_graphs counts degrees modulo
 256

---
 .../degree_distribution/DegreeDistributionSpec.h      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionSpec.h b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
index 019725a..63af3c1 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionSpec.h
+++ b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
@@ -8,10 +8,9 @@
 #include "graphillion/forbidden_induced/FrontierManager.h"
 #include "subsetting/util/IntSubset.hpp"
 
-typedef unsigned char uchar;
-typedef unsigned char DSData;
+typedef unsigned short DSData;
 
-const int DSData_MAX = UCHAR_MAX;
+const int DSData_MAX = USHRT_MAX;
 
 class DegreeDistributionSpec
   : public tdzdd::PodArrayDdSpec<DegreeDistributionSpec, DSData, 2> {
@@ -43,7 +42,7 @@ private:
   void setDeg(DSData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<DSData>(d);
   }
 
   // This function gets comp of v.
@@ -56,13 +55,13 @@ private:
   void setComp(DSData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<DSData>(fm_.vertexToPos(c));
   }
 
   void clearComp(DSData* data, int v) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(-1);
+      static_cast<DSData>(-1);
   }
 
   void incrementFixedDeg(DSData* data, int d) const {
-- 
2.43.0


From 473d9cae06f51c81ebf416ed434bab23688da060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 28/55] fix: random members of collections beyond the range of
 double are not uniform

---
 src/graphillion/setset.h |  2 +-
 src/graphillion/zdd.cc   | 11 ++++++-----
 src/graphillion/zdd.h    |  2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index f865c4a..ee6697d 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -86,7 +86,7 @@ class setset {
    protected:
     virtual void next();
 
-    double size_;
+    long double size_;
   };
 
   class weighted_iterator : public iterator {
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 8e361ba..e4e466f 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -311,8 +311,8 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
     }
     assert(false);
   }
-  double ch = algo_c(hi(f));
-  double cl = algo_c(lo(f));
+  long double ch = algo_c(hi(f));
+  long double cl = algo_c(lo(f));
   if (rand_xor128() > cl / (ch + cl)) {
     stack->push_back(elem(f));
     return choose_random(hi(f), stack);
@@ -573,14 +573,15 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 }
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
-double algo_c(zdd_t f) {
+// The result may exceed the range of double.
+long double algo_c(zdd_t f) {
   // operands are kept, so that their ids are not reused after a GC
-  static map<word_t, pair<zdd_t, double> > counts;
+  static map<word_t, pair<zdd_t, long double> > counts;
   if (is_term(f))
     return f == top() ? 1 : 0;
   else if (counts.find(id(f)) != counts.end())
     return counts.at(id(f)).second;
-  double c = algo_c(hi(f)) + algo_c(lo(f));
+  long double c = algo_c(hi(f)) + algo_c(lo(f));
   counts[id(f)] = make_pair(f, c);
   return c;
 }
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index ab711a0..b263ff5 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -92,7 +92,7 @@ void _enum(zdd_t f, std::ostream& out, std::vector<elem_t>* stack, bool* first,
 void _enum(zdd_t f, FILE* fp, std::vector<elem_t>* stack, bool* first,
            const std::pair<const char*, const char*>& inner_braces);
 void algo_b(zdd_t f, const std::vector<double>& w, std::vector<bool>* x);
-double algo_c(zdd_t f);
+long double algo_c(zdd_t f);
 double probability(elem_t e, zdd_t f, const std::vector<double>& probabilities,
                    std::map<word_t, double>& cache, elem_t num_elems_a);
 zdd_t zuniq(elem_t v, zdd_t l, zdd_t h);
-- 
2.43.0


From 3ee7a5c8b4b547c79362a91e337a15bd12d99182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 29/55] fix: len() fails for cardinalities of more than 4300
 digits

---
 src/pygraphillion.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 84df59c..03c33af 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -624,14 +624,23 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
   }
   if (obj == NULL || obj == Py_None) {
     string size = self->ss->size();
-    vector<char> buf;
-    for (string::const_iterator c = size.begin(); c != size.end(); ++c)
-      buf.push_back(*c);
-    buf.push_back('\0');
-    PyObject* result = PyLong_FromString(buf.data(), NULL, 0);
-    if (result == NULL) {
-      PyErr_SetString(PyExc_ValueError, "Failed to convert size to integer");
-      return NULL;
+    // 18 digits at a time, since the interpreter limits the number of digits
+    // converted at once (sys.set_int_max_str_digits)
+    PyObject* result = PyLong_FromLong(0);
+    for (size_t i = 0; i < size.size() && result != NULL; ) {
+      size_t n = (size.size() - i - 1) % 18 + 1;
+      long long scale = 1;
+      for (size_t j = 0; j < n; ++j) scale *= 10;
+      PyObject* s = PyLong_FromLongLong(scale);
+      PyObject* d = PyLong_FromLongLong(stoll(size.substr(i, n)));
+      PyObject* p = s != NULL ? PyNumber_Multiply(result, s) : NULL;
+      PyObject* next = p != NULL && d != NULL ? PyNumber_Add(p, d) : NULL;
+      Py_XDECREF(s);
+      Py_XDECREF(d);
+      Py_XDECREF(p);
+      Py_DECREF(result);
+      result = next;
+      i += n;
     }
     return result;
   } else if (PyLong_Check(obj)) {
-- 
2.43.0


From e5d1f4449548accdb91cf5903a73aa506b3110d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 30/55] fix: equal vertices written differently are distinct in
 searches, conversions break on vertices without a literal

---
 graphillion/digraphset.py  | 33 +++++++++++++++++---------------
 graphillion/graphset.py    | 39 +++++++++++++++++++-------------------
 graphillion/setset_base.py | 16 ++++++++++++----
 graphillion/universe.py    |  6 +++++-
 4 files changed, 54 insertions(+), 40 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 9d06261..09314e9 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1782,6 +1782,8 @@ class DiGraphSet(object):
         for u, v in sorted_edges:
             DiGraphSet._vertices.add(u)
             DiGraphSet._vertices.add(v)
+        DiGraphSet._vertex_names = {v: pickle.dumps(v, protocol=0)
+                                    for v in DiGraphSet._vertices}
         #setset_base.set_universe(sorted_edges)
         DiGraphSet._objtable = ObjectTable()
         for e in sorted_edges:
@@ -1831,7 +1833,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._vertex_names[e[0]], DiGraphSet._vertex_names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1857,7 +1859,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._vertex_names[e[0]], DiGraphSet._vertex_names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1894,14 +1896,14 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._vertex_names[e[0]], DiGraphSet._vertex_names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
         assert(s in DiGraphSet._vertices and t in DiGraphSet._vertices)
 
         ss = _graphillion._directed_st_path(
-            graph=graph, s=pickle.dumps(s, protocol=0), t=pickle.dumps(t, protocol=0),
+            graph=graph, s=DiGraphSet._vertex_names[s], t=DiGraphSet._vertex_names[t],
             is_hamiltonian=is_hamiltonian, search_space=ss)
         return DiGraphSet(ss)
 
@@ -1930,13 +1932,13 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._vertex_names[e[0]], DiGraphSet._vertex_names[e[1]]))
 
         rs = []
         if roots is not None:
             for root in roots:
                 assert root in DiGraphSet._vertices
-                rs.append(pickle.dumps(root, protocol=0))
+                rs.append(DiGraphSet._vertex_names[root])
 
         ss = None if graphset is None else graphset._ss
 
@@ -1971,12 +1973,12 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._vertex_names[e[0]], DiGraphSet._vertex_names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
         ss = _graphillion._rooted_trees(
-            graph=graph, root=pickle.dumps(root, protocol=0), is_spanning=is_spanning, search_space=ss)
+            graph=graph, root=DiGraphSet._vertex_names[root], is_spanning=is_spanning, search_space=ss)
         return DiGraphSet(ss)
 
     @staticmethod
@@ -2010,7 +2012,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._vertex_names[e[0]], DiGraphSet._vertex_names[e[1]]))
 
         in_dc = None
         if in_degree_constraints is not None:
@@ -2019,11 +2021,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    in_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    in_dc[DiGraphSet._vertex_names[v]] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    in_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    in_dc[DiGraphSet._vertex_names[v]] = (r[0], r[0] + 1, 1)
                 else:
-                    in_dc[pickle.dumps(v, protocol=0)] = (
+                    in_dc[DiGraphSet._vertex_names[v]] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         out_dc = None
@@ -2033,11 +2035,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    out_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    out_dc[DiGraphSet._vertex_names[v]] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    out_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    out_dc[DiGraphSet._vertex_names[v]] = (r[0], r[0] + 1, 1)
                 else:
-                    out_dc[pickle.dumps(v, protocol=0)] = (
+                    out_dc[DiGraphSet._vertex_names[v]] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         ss = None if graphset is None else graphset._ss
@@ -2182,6 +2184,7 @@ class DiGraphSet(object):
                   'to_edges': lambda graph: graph}
 
     _vertices = set()
+    _vertex_names = {}  # names in the native layer, common to equal vertices
     _weights = {}
 
     _objtable = ObjectTable()
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 85aa2d9..d8faca4 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -25,7 +25,6 @@ from builtins import range, int
 import _graphillion
 from graphillion.universe import Universe
 from graphillion.setset_base import setset_base
-import pickle
 
 class GraphSet(object):
     """Represents and manipulates a set of graphs.
@@ -1924,7 +1923,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         vg = []
         nc = 0
@@ -1936,7 +1935,7 @@ class GraphSet(object):
                     for v in vs:
                         if v not in Universe.vertices:
                             raise KeyError(v)
-                    vg.append([pickle.dumps(v, protocol=0) for v in vs])
+                    vg.append([Universe.vertex_names[v] for v in vs])
         if not vg and nc == 0:
             nc = -1
 
@@ -1947,11 +1946,11 @@ class GraphSet(object):
                 if v not in Universe.vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    dc[Universe.vertex_names[v]] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    dc[Universe.vertex_names[v]] = (r[0], r[0] + 1, 1)
                 else:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[-1] + 1, r[1] - r[0])
+                    dc[Universe.vertex_names[v]] = (r[0], r[-1] + 1, r[1] - r[0])
 
         ne = None
         if num_edges is not None:
@@ -1971,8 +1970,8 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = pickle.dumps(we[0], protocol=0)
-                    v = pickle.dumps(we[1], protocol=0)
+                    u = Universe.vertex_names[we[0]]
+                    v = Universe.vertex_names[we[1]]
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
@@ -2479,7 +2478,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         if degree == None:
             degree = (1, len(Universe.vertices))
@@ -2511,7 +2510,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         odd_gs = GraphSet(_graphillion._odd_edges_subgraphs(graph))
         odd_cycle_gs = odd_gs.cycles()
@@ -2673,7 +2672,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         ss = None if graphset is None else graphset._ss
 
@@ -2718,7 +2717,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-              (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+              (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         ss = _graphillion._partitions(
           graph=graph, num_comp_lb=num_comp_lb, num_comp_ub=num_comp_ub)
@@ -2754,7 +2753,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         wl = None
         if weight_list is not None:
@@ -2762,7 +2761,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[Universe.vertex_names[v]] = r
 
         ss = _graphillion._balanced_partitions(
             graph=graph, weight_list=wl, ratio=ratio, lower=lower, upper=upper, num_comps=num_comps)
@@ -2784,7 +2783,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         ss = _graphillion._induced_graphs(graph=graph)
         return GraphSet(ss)
@@ -2814,7 +2813,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         wl = None
         if weight_list is not None:
@@ -2822,7 +2821,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[Universe.vertex_names[v]] = r
 
         ss = _graphillion._weighted_induced_graphs(graph=graph, weight_list=wl, lower=lower, upper=upper)
         return GraphSet(ss)
@@ -2841,7 +2840,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         ss = None if forbidden_graphset is None else forbidden_graphset._ss
 
@@ -2879,14 +2878,14 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.vertex_names[e[0]], Universe.vertex_names[e[1]]))
 
         terms = []
         if terminals is not None:
             for v in terminals:
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                terms.append(pickle.dumps(v, protocol=0))
+                terms.append(Universe.vertex_names[v])
 
         #ps = [1.0] * (_graphillion._num_elems())
         ps = [1.0] * (Universe.e_objtable.num_elems())
diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index cab4e01..c8e6965 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -192,17 +192,25 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.remove_add_some_elements(self, objtable.num_elems())
 
     def to_vertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top, _ = setset_base._number_vertices(objtable)
         return _graphillion.setset.to_vertexsetset(self, edges_from_top)
 
     def to_edgevertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top, _ = setset_base._number_vertices(objtable)
         return _graphillion.setset.to_edgevertexsetset(self, edges_from_top)
 
     @staticmethod
     def get_vertices_from_top(objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
-        return _graphillion._get_vertices_from_top(edges_from_top)
+        edges_from_top, vertices = setset_base._number_vertices(objtable)
+        return [vertices[int(i)] for i in
+                _graphillion._get_vertices_from_top(edges_from_top)]
+
+    @staticmethod
+    def _number_vertices(objtable):
+        numbers = {}  # a number is common to equal vertices
+        edges = [[numbers.setdefault(v, len(numbers)) for v in e]
+                 for e in objtable.int2obj[1:]]
+        return edges, list(numbers)
 
     @staticmethod
     def load(fp):
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 2aea872..49c82d7 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -19,6 +19,7 @@
 
 import _graphillion
 import heapq
+import pickle
 
 """
 ObjectTable class manages the universe of each class such as GraphSet and VertexSetSet.
@@ -86,6 +87,7 @@ class Universe:
     """
 
     vertices = set()
+    vertex_names = {}  # names in the native layer, common to equal vertices
     isolated_vertices = set()
     weights = {}
     edge_vertex_kind = {}
@@ -234,13 +236,15 @@ class Universe:
         for u, v in sorted_edges:
             Universe.vertices.add(u)
             Universe.vertices.add(v)
+        Universe.vertex_names = {v: pickle.dumps(v, protocol=0)
+                                 for v in Universe.vertices}
         #setset.set_universe(sorted_edges)
         Universe.e_objtable = ObjectTable()
         for e in sorted_edges:
             Universe.e_objtable.add_elem(e)
 
         from graphillion.setset_base import setset_base
-        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
+        vertex_universe = setset_base.get_vertices_from_top(Universe.e_objtable)
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
-- 
2.43.0


From 2392378fcb49f40aadbe510246a4c471d2f67a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 31/55] fix: a rejected universe leaves vertices, weights and
 elements half replaced

---
 graphillion/digraphset.py | 25 ++++++++----
 graphillion/universe.py   | 86 +++++++++++++++++++++++----------------
 2 files changed, 66 insertions(+), 45 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 09314e9..e77628e 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1762,8 +1762,8 @@ class DiGraphSet(object):
         """
         sorted_edges = []
         indexed_edges = set()
-        DiGraphSet._vertices = set()
-        DiGraphSet._weights = {}
+        vertices = set()
+        weights = {}
         universe = DiGraphSet.converters['to_edges'](universe)
         for e in universe:
             if e[:2] in indexed_edges:  # directed
@@ -1771,7 +1771,9 @@ class DiGraphSet(object):
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                DiGraphSet._weights[e[:2]] = e[2]
+                weights[e[:2]] = e[2]
+        if len(sorted_edges) == 0:
+            raise ValueError("The universe must not be empty.")
         if traversal != 'as-is':
             if source is None:
                 source = sorted_edges[0][0]
@@ -1780,14 +1782,19 @@ class DiGraphSet(object):
             sorted_edges = DiGraphSet._traverse(
                 indexed_edges, traversal, source)
         for u, v in sorted_edges:
-            DiGraphSet._vertices.add(u)
-            DiGraphSet._vertices.add(v)
-        DiGraphSet._vertex_names = {v: pickle.dumps(v, protocol=0)
-                                    for v in DiGraphSet._vertices}
+            vertices.add(u)
+            vertices.add(v)
+        vertex_names = {v: pickle.dumps(v, protocol=0) for v in vertices}
         #setset_base.set_universe(sorted_edges)
-        DiGraphSet._objtable = ObjectTable()
+        objtable = ObjectTable()
         for e in sorted_edges:
-            DiGraphSet._objtable.add_elem(e)
+            objtable.add_elem(e)
+
+        # Nothing is registered until all the arguments turn out to be valid
+        DiGraphSet._vertices = vertices
+        DiGraphSet._vertex_names = vertex_names
+        DiGraphSet._weights = weights
+        DiGraphSet._objtable = objtable
 
     @staticmethod
     def universe():
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 49c82d7..49b76cd 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -211,8 +211,8 @@ class Universe:
             raise ValueError("The universe must not be empty.")
         sorted_edges = []
         indexed_edges = set()
-        Universe.vertices = set()
-        Universe.weights = {}
+        vertices = set()
+        edge_weights = {}
         from graphillion import GraphSet  # avoid circular import
         universe = GraphSet.converters['to_edges'](universe)
         for e in universe:
@@ -221,11 +221,11 @@ class Universe:
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                Universe.weights[e[:2]] = e[2]
+                edge_weights[e[:2]] = e[2]
             elif weights is not None and e in weights:
-                Universe.weights[e] = weights[e]
+                edge_weights[e] = weights[e]
             elif weights is not None and (e[1], e[0]) in weights:
-                Universe.weights[e] = weights[(e[1], e[0])]
+                edge_weights[e] = weights[(e[1], e[0])]
 
         if traversal != 'as-is':
             if source is None:
@@ -234,25 +234,31 @@ class Universe:
                     source = min(e[0], e[1], source)
             sorted_edges = Universe._traverse(indexed_edges, traversal, source)
         for u, v in sorted_edges:
-            Universe.vertices.add(u)
-            Universe.vertices.add(v)
-        Universe.vertex_names = {v: pickle.dumps(v, protocol=0)
-                                 for v in Universe.vertices}
+            vertices.add(u)
+            vertices.add(v)
+        vertex_names = {v: pickle.dumps(v, protocol=0) for v in vertices}
         #setset.set_universe(sorted_edges)
-        Universe.e_objtable = ObjectTable()
+        e_objtable = ObjectTable()
         for e in sorted_edges:
-            Universe.e_objtable.add_elem(e)
+            e_objtable.add_elem(e)
 
         from graphillion.setset_base import setset_base
-        vertex_universe = setset_base.get_vertices_from_top(Universe.e_objtable)
-        Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
-
-        Universe._set_ev_universe(sorted_edges)
-
-        if isolated is None:
-            Universe.isolated_vertices = set()
-        else:
-            Universe.isolated_vertices = isolated.copy()
+        vertex_universe = setset_base.get_vertices_from_top(e_objtable)
+        v_objtable, vertex_weights = Universe._make_vertex_table(
+            vertex_universe, weights, tuple_vertex=True)
+        ev_objtable, edge_vertex_kind = Universe._make_ev_table(sorted_edges)
+        isolated_vertices = set() if isolated is None else isolated.copy()
+
+        # Nothing is registered until all the arguments turn out to be valid
+        Universe.vertices = vertices
+        Universe.vertex_names = vertex_names
+        Universe.isolated_vertices = isolated_vertices
+        Universe.weights = edge_weights
+        Universe.weights.update(vertex_weights)
+        Universe.edge_vertex_kind = edge_vertex_kind
+        Universe.e_objtable = e_objtable
+        Universe.v_objtable = v_objtable
+        Universe.ev_objtable = ev_objtable
 
     @staticmethod
     def set_vertex_universe(universe, weights=None, tuple_vertex=False):
@@ -292,58 +298,66 @@ class Universe:
           universe()
         """
 
+        v_objtable, vertex_weights = Universe._make_vertex_table(
+            universe, weights, tuple_vertex)
+        Universe.v_objtable = v_objtable
+        Universe.weights.update(vertex_weights)
+
+    @staticmethod
+    def _make_vertex_table(universe, weights, tuple_vertex):
         vertex_num = len(universe)
         if vertex_num != len(set(universe)):
             raise ValueError("duplicated elements found")
 
-        Universe.v_objtable = ObjectTable()
-        if not Universe.weights:
-            Universe.weights = {}
+        v_objtable = ObjectTable()
+        vertex_weights = {}
 
         for i, vertex in enumerate(universe):
             if not tuple_vertex and isinstance(vertex, tuple):
                 if len(vertex) == 2:
                     vertex, weight = vertex
-                    Universe.weights[vertex] = weight
+                    vertex_weights[vertex] = weight
                 elif len(vertex) == 1:
                     vertex = vertex[0]
                     if weights is not None and vertex in weights:
-                        Universe.weights[vertex] = weights[vertex]
+                        vertex_weights[vertex] = weights[vertex]
                     else:
-                        Universe.weights[vertex] = 1
+                        vertex_weights[vertex] = 1
                 else:
                     raise TypeError(vertex)
             else:
                 if weights is not None and vertex in weights:
-                    Universe.weights[vertex] = weights[vertex]
+                    vertex_weights[vertex] = weights[vertex]
                 else:
-                    Universe.weights[vertex] = 1
-            Universe.v_objtable.add_elem(vertex)
+                    vertex_weights[vertex] = 1
+            v_objtable.add_elem(vertex)
+        return v_objtable, vertex_weights
 
     @staticmethod
-    def _set_ev_universe(universe):
+    def _make_ev_table(universe):
         visited_vertices = set()
         edges_vertices = []
-        Universe.edge_vertex_kind = {}
+        edge_vertex_kind = {}
         for e in reversed(list(universe)):
             for v in [e[1], e[0]]:
                 if v not in visited_vertices:
                     visited_vertices.add(v)
                     edges_vertices.append(v)
-                    Universe.edge_vertex_kind[v] = False
+                    edge_vertex_kind[v] = False
             # check if a vertex such as "(a, b)" exists
             #if e in visited_vertices:
             #    KeyError("{} cannot be a vertex".format(e))
             #else:
             edges_vertices.append(e[:2])
-            Universe.edge_vertex_kind[e[:2]] = True
-            Universe.edge_vertex_kind[(e[1], e[0])] = True
+            edge_vertex_kind[e[:2]] = True
+            edge_vertex_kind[(e[1], e[0])] = True
 
         edges_vertices.reverse()
 
-        Universe.ev_objtable = ObjectTable()
+        ev_objtable = ObjectTable()
         for x in edges_vertices:
-            Universe.ev_objtable.add_elem(x)
+            ev_objtable.add_elem(x)
+        return ev_objtable, edge_vertex_kind
 
     @staticmethod
     def _traverse(indexed_edges, traversal, source):
-- 
2.43.0


From 49398fbd09703feae22e0e20f7726b0ea77bbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 32/55] fix: a linear constraint on an edge out of the universe
 aborts the process

---
 graphillion/graphset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index d8faca4..0766edd 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1970,8 +1970,9 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = Universe.vertex_names[we[0]]
-                    v = Universe.vertex_names[we[1]]
+                    e = GraphSet._conv_edge(tuple(we[:2]))
+                    u = Universe.vertex_names[e[0]]
+                    v = Universe.vertex_names[e[1]]
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
-- 
2.43.0


From 31f2edf3bac7b098a15b48a46ec1dd575a6788b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 33/55] fix: paths, b_matchings and f_factors ignore vertices
 that do not exist

---
 graphillion/graphset.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 0766edd..403506b 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2218,6 +2218,9 @@ class GraphSet(object):
         See Also:
           graphs()
         """
+        for v in (terminal1, terminal2):
+            if v is not None and v not in Universe.vertices:
+                raise KeyError(v)
         if terminal2 == None:
             if is_hamilton:
                 deg_dist = {1: 2, 2: GraphSet.DegreeDistribution_Any}
@@ -2361,6 +2364,9 @@ class GraphSet(object):
         See Also:
           graphs()
         """
+        for v in b:
+            if v not in Universe.vertices:
+                raise KeyError(v)
         dc = {}
         for v in Universe.vertices:
             if v in b:
@@ -2430,6 +2436,9 @@ class GraphSet(object):
         See Also:
           graphs()
         """
+        for v in f:
+            if v not in Universe.vertices:
+                raise KeyError(v)
         dc = {}
         for v in Universe.vertices:
             if v in f:
-- 
2.43.0


From ee46d26dac14fe352ccaf1fec57311afe82c4704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 34/55] fix: bicliques answers for other sizes than requested

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 403506b..45a2f46 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2077,7 +2077,7 @@ class GraphSet(object):
           graphs()
         """
         if a != b:
-            TypeError('a == b must hold.')
+            raise TypeError('a == b must hold.')
         gs = GraphSet.regular_bipartite_graphs(degree=a,
                                                 is_connected=True,
                                                 graphset=graphset)
-- 
2.43.0


From 6f4f9d4d225cee59605c5d6d4dd95ed780f5f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 35/55] fix: vertices that do not exist extend the universe of
 EdgeVertexSetSet

---
 graphillion/edgevertex_setset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 0f5cc61..f1f26f7 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1570,6 +1570,8 @@ class EdgeVertexSetSet(object):
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
         if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
+            if edge_or_vertex not in Universe.ev_objtable.obj2int:
+                raise KeyError(edge_or_vertex)
             return edge_or_vertex # interpret it as a vertex
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
-- 
2.43.0


From 0df0ffba8886837221d4c74d12f41dc08314b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 36/55] fix: malformed saved collections crash the process or
 are loaded as something else

---
 src/graphillion/setset.cc |   9 ++-
 src/graphillion/zdd.cc    | 120 +++++++++++++++++++++-----------------
 src/pygraphillion.cc      |  11 +++-
 3 files changed, 82 insertions(+), 58 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b6af540..b76b91f 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -25,6 +25,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "graphillion/setset.h"
 
 #include <cstdlib>
+#include <stdexcept>
 
 #include <algorithm>
 
@@ -521,11 +522,15 @@ void setset::dump(FILE* fp) const {
 }
 
 setset setset::load(istream& in) {
-  return setset(graphillion::load(in));
+  zdd_t f = graphillion::load(in);
+  if (f == null()) throw std::runtime_error("malformed setset");
+  return setset(f);
 }
 
 setset setset::load(FILE* fp) {
-  return setset(graphillion::load(fp));
+  zdd_t f = graphillion::load(fp);
+  if (f == null()) throw std::runtime_error("malformed setset");
+  return setset(f);
 }
 
 void setset::_enum(ostream& out,
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index e4e466f..944ee6a 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -29,6 +29,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 #include <algorithm>
 #include <map>
+#include <sstream>
 #include <string>
 
 namespace graphillion {
@@ -37,6 +38,7 @@ using std::binary_search;
 using std::endl;
 using std::getline;
 using std::istream;
+using std::istringstream;
 using std::make_pair;
 using std::map;
 using std::ostream;
@@ -399,69 +401,79 @@ void dump(zdd_t f, FILE* fp) {
   fprintf(fp, ".\n");
 }
 
+// Finds the node that is written as `str`.
+static bool load_child(const string& str, const map<word_t, zdd_t>& n,
+                       zdd_t* f) {
+  if (str == "B") { *f = bot(); return true; }
+  if (str == "T") { *f = top(); return true; }
+  istringstream in(str);
+  word_t k;
+  if (!(in >> k) || in.peek() != istringstream::traits_type::eof())
+    return false;
+  map<word_t, zdd_t>::const_iterator i = n.find(k);
+  if (i == n.end()) return false;
+  *f = i->second;
+  return true;
+}
+
+// Reads a line into `root`. Returns false if the line cannot be read.
+static bool load_line(const string& line, map<word_t, zdd_t>* n, zdd_t* root) {
+  istringstream in(line);
+  string sk, sl, sh, rest;
+  elem_t v;
+  in >> sk;
+  if (sk == "B" || sk == "T") {
+    if (in >> rest) return false;
+    *root = sk == "B" ? bot() : top();
+    return true;
+  }
+  istringstream ink(sk);
+  word_t k;
+  if (!(ink >> k) || ink.peek() != istringstream::traits_type::eof())
+    return false;
+  if (!(in >> v >> sl >> sh) || in >> rest) return false;
+  if (v < 1 || v > elem_limit()) return false;
+  zdd_t l, h;
+  if (!load_child(sl, *n, &l) || !load_child(sh, *n, &h)) return false;
+  (*n)[k] = *root = l + single(v) * h;
+  return true;
+}
+
 zdd_t load(istream& in) {
   string line;
-  getline(in, line);
   map<word_t, zdd_t> n;
-  n[id(bot())] = bot();
-  n[id(top())] = top();
-  zdd_t root;
-  do {
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    if (line[0] == 'B' && is_space(line.substr(1))) { root = bot(); continue; }
-    if (line[0] == 'T' && is_space(line.substr(1))) { root = top(); continue; }
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) goto error;
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) goto error;
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (getline(in, line));
-  return root;
-error:
+  zdd_t root = null();
+  while (getline(in, line)) {
+    if (is_space(line)) continue;  // skip empty lines
+    if (line[0] == '.' && is_space(line.substr(1)) && root != null())
+      return root;
+    if (!load_line(line, &n, &root)) break;
+  }
   in.setstate(in.badbit);
   return null();
 }
 
-zdd_t load(FILE* fp) {
+static bool get_line(FILE* fp, string* line) {
   char buf[256];
-  if (fgets(buf, sizeof(buf), fp) == NULL) return null();
-  string line = buf;
+  line->clear();
+  while (fgets(buf, sizeof(buf), fp) != NULL) {
+    *line += buf;
+    if ((*line)[line->size() - 1] == '\n') break;
+  }
+  return !line->empty();
+}
+
+zdd_t load(FILE* fp) {
+  string line;
   map<word_t, zdd_t> n;
-  n[id(bot())] = bot();
-  n[id(top())] = top();
-  zdd_t root;
-  do {
-    line = string(buf);
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    if (line[0] == 'B' && is_space(line.substr(1))) { root = bot(); continue; }
-    if (line[0] == 'T' && is_space(line.substr(1))) { root = top(); continue; }
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) return null();
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) return null();
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (fgets(buf, sizeof(buf), fp) != NULL);
-  return root;
+  zdd_t root = null();
+  while (get_line(fp, &line)) {
+    if (is_space(line)) continue;  // skip empty lines
+    if (line[0] == '.' && is_space(line.substr(1)) && root != null())
+      return root;
+    if (!load_line(line, &n, &root)) break;
+  }
+  return null();
 }
 
 void _enum(zdd_t f, ostream& out,
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 03c33af..648d7b1 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -39,6 +39,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <set>
 #include <string>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 #include <limits>
 
@@ -1145,10 +1146,16 @@ static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
   try {
-    setset* loaded_ss;
+    setset* loaded_ss = NULL;
+    string error;
     Py_BEGIN_ALLOW_THREADS;
-    loaded_ss = new setset(setset::load(fp));
+    try {
+      loaded_ss = new setset(setset::load(fp));
+    } catch (const std::exception& e) {
+      error = e.what();
+    }
     Py_END_ALLOW_THREADS;
+    if (loaded_ss == NULL) throw std::runtime_error(error);
     ret->ss = loaded_ss;
   } catch (const std::exception& e) {
     Py_DECREF(ret);
-- 
2.43.0


From 84ef13e2ebc9ddc53aafbb5665cffe8726946236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 37/55] fix: weighted iteration fails when vertices are numpy
 numbers

---
 graphillion/setset_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index c8e6965..c3ea7dd 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -139,9 +139,8 @@ class setset_base(_graphillion.setset):
     def _optimize(self, objtable, weights, default, generator):
         ws = [default] * (objtable.num_elems() + 1)
         if weights:
-            universe = objtable.universe()
             for e, w in weights.items():
-                if e in universe:
+                if e in objtable.obj2int:
                     i = objtable.obj2int[e]
                     ws[i] = w
         i = generator(self, ws)
-- 
2.43.0


From 1ab24ed3dff47b312297cc7591757fd18dae4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 38/55] fix: searches refuse vertices whose pickle contains a
 comma

---
 graphillion/digraphset.py | 7 +++++--
 graphillion/universe.py   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index e77628e..a291281 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -24,7 +24,6 @@ from functools import partial
 import _graphillion
 from graphillion.universe import ObjectTable
 from graphillion.setset_base import setset_base
-import pickle
 import heapq
 
 
@@ -1784,7 +1783,11 @@ class DiGraphSet(object):
         for u, v in sorted_edges:
             vertices.add(u)
             vertices.add(v)
-        vertex_names = {v: pickle.dumps(v, protocol=0) for v in vertices}
+        vertex_names = {}
+        for e in sorted_edges:
+            for v in e:
+                if v not in vertex_names:
+                    vertex_names[v] = str(len(vertex_names)).encode()
         #setset_base.set_universe(sorted_edges)
         objtable = ObjectTable()
         for e in sorted_edges:
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 49b76cd..8f912ca 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -19,7 +19,6 @@
 
 import _graphillion
 import heapq
-import pickle
 
 """
 ObjectTable class manages the universe of each class such as GraphSet and VertexSetSet.
@@ -236,7 +235,11 @@ class Universe:
         for u, v in sorted_edges:
             vertices.add(u)
             vertices.add(v)
-        vertex_names = {v: pickle.dumps(v, protocol=0) for v in vertices}
+        vertex_names = {}
+        for e in sorted_edges:
+            for v in e:
+                if v not in vertex_names:
+                    vertex_names[v] = str(len(vertex_names)).encode()
         #setset.set_universe(sorted_edges)
         e_objtable = ObjectTable()
         for e in sorted_edges:
-- 
2.43.0


From 126a354518784a6e40495d5ab24db7abbd2fc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 39/55] fix: integers beyond the range of int are silently
 truncated

---
 src/pygraphillion.cc | 52 ++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 648d7b1..494adb3 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -67,6 +67,16 @@ using std::string;
 using std::stringstream;
 using std::vector;
 
+// Like PyLong_AsLong, but raises OverflowError if the number exceeds int.
+static int long_as_int(PyObject* obj) {
+  long value = PyLong_AsLong(obj);
+  if (value < INT_MIN || value > INT_MAX) {
+    PyErr_SetString(PyExc_OverflowError, "Python int too large to convert to C int");
+    return -1;
+  }
+  return static_cast<int>(value);
+}
+
 #define CHECK_OR_ERROR(obj, check, name, ret)         \
   do {                                                \
     if (!check(obj)) {                                \
@@ -479,7 +489,7 @@ static PyObject* setset_invert(PySetsetObject* self) {
 
 static PyObject* setset_complement(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
+  int num_elems_a = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -645,7 +655,7 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     }
     return result;
   } else if (PyLong_Check(obj)) {
-    int len = PyLong_AsLong(obj);
+    int len = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -783,7 +793,7 @@ static int setset_contains(PySetsetObject* self, PyObject* obj) {
     }
     return self->ss->find(s) != self->ss->end() ? 1 : 0;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = long_as_int(obj);
     if (PyErr_Occurred()) {
       return -1;
     }
@@ -803,7 +813,7 @@ static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->insert(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -827,7 +837,7 @@ static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) {
       return NULL;
     }
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -852,7 +862,7 @@ static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->erase(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -901,7 +911,7 @@ static PyObject* setset_flip(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg e");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -942,7 +952,7 @@ static PyObject* setset_maximal(PySetsetObject* self) {
 
 static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
+  int num_elems_a = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -955,7 +965,7 @@ static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -968,7 +978,7 @@ static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -981,7 +991,7 @@ static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_set_size(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -1011,7 +1021,7 @@ static PyObject* setset_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -1031,7 +1041,7 @@ static PyObject* setset_non_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->non_supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
+    int e = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -1853,7 +1863,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
           PyErr_SetString(PyExc_TypeError, "invalid degree in degree constraints");
           return NULL;
         }
-        long value = PyLong_AsLong(io);
+        int value = long_as_int(io);
         Py_DECREF(io);
         if (PyErr_Occurred()) {
           Py_DECREF(i);
@@ -1889,7 +1899,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyErr_SetString(PyExc_TypeError, "invalid number of edges");
         return NULL;
       }
-      long value = PyLong_AsLong(io);
+      int value = long_as_int(io);
       Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
@@ -2065,7 +2075,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
   }
 
   if (PyLong_Check(degree_obj)) {
-    int d = PyLong_AsLong(degree_obj);
+    int d = long_as_int(degree_obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2079,7 +2089,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* lower_obj = PyTuple_GetItem(degree_obj, 0);
     if (PyLong_Check(lower_obj)) {
-      degree_lower = PyLong_AsLong(lower_obj);
+      degree_lower = long_as_int(lower_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2089,7 +2099,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* upper_obj = PyTuple_GetItem(degree_obj, 1);
     if (PyLong_Check(upper_obj)) {
-      degree_upper = PyLong_AsLong(upper_obj);
+      degree_upper = long_as_int(upper_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2178,7 +2188,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
       PyErr_SetString(PyExc_TypeError, "Currently, value must be an integer.");
       return NULL;
     }
-    int k = PyLong_AsLong(key);
+    int k = long_as_int(key);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2187,7 +2197,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
         "must be non-negative");
       return NULL;
     }
-    int v = PyLong_AsLong(value);
+    int v = long_as_int(value);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2680,7 +2690,7 @@ bool input_vertex_to_range_map(
         PyErr_SetString(PyExc_TypeError, "invalid degree in map object");
         return false;
       }
-      long value = PyLong_AsLong(io);
+      int value = long_as_int(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return false;
-- 
2.43.0


From 605fa83436ca861e7bc1a0f6f7cbdaf492493098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 40/55] fix: degree distributions over very large degrees end
 the process

---
 src/pygraphillion.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 494adb3..2d5ea53 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2197,6 +2197,11 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
         "must be non-negative");
       return NULL;
     }
+    if (k > USHRT_MAX) {
+      PyErr_SetString(PyExc_ValueError, "degree distribution keys "
+        "are too large");
+      return NULL;
+    }
     int v = long_as_int(value);
     if (PyErr_Occurred()) {
       return NULL;
-- 
2.43.0


From 18519ed424bf42bd2310be157ee4bffba8d29164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 41/55] fix: weights and bounds beyond 32 bits give wrong
 partitions or crash

---
 src/pygraphillion.cc | 60 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 2d5ea53..81566f2 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -77,6 +77,31 @@ static int long_as_int(PyObject* obj) {
   return static_cast<int>(value);
 }
 
+// Vertex weights are summed up as int.
+static bool translate_weight_bounds(long lower_value, long upper_value,
+                                    uint32_t* lower, uint32_t* upper) {
+  const long max = std::numeric_limits<uint32_t>::max();
+  if (lower_value < 0 || lower_value > max ||
+      upper_value < 0 || upper_value > max) {
+    PyErr_SetString(PyExc_ValueError, "bound is out of valid range");
+    return false;
+  }
+  *lower = std::min(lower_value, static_cast<long>(INT_MAX));
+  *upper = std::min(upper_value, static_cast<long>(INT_MAX));
+  return true;
+}
+
+static bool check_total_weight(const map<string, uint32_t>& weight_list,
+                               size_t num_edges) {
+  uint64_t total = 2 * num_edges;  // vertices not in the list weigh one
+  for (const auto& i : weight_list) total += i.second;
+  if (total >= INT_MAX) {
+    PyErr_SetString(PyExc_ValueError, "total weight is out of valid range");
+    return false;
+  }
+  return true;
+}
+
 #define CHECK_OR_ERROR(obj, check, name, ret)         \
   do {                                                \
     if (!check(obj)) {                                \
@@ -2273,21 +2298,25 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
   double ratio = 0;
-  uint32_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
+  long lower_value = 0, upper_value = std::numeric_limits<weight_t>::max() / 4;
   int num_comps = -1;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdIIi", kwlist, &graph_obj,
-                                   &weight_list_obj, &ratio, &lower, &upper,
-                                   &num_comps)) {
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|Odlli", kwlist, &graph_obj,
+                                   &weight_list_obj, &ratio, &lower_value,
+                                   &upper_value, &num_comps)) {
     return NULL;
   }
   if (num_comps != -1 && num_comps < 1) {
     PyErr_SetString(PyExc_ValueError, "not positive integer");
     return NULL;
   }
-  if (upper < lower) {
+  if (upper_value < lower_value) {
     PyErr_SetString(PyExc_ValueError, "lower bound is larger than upper bound");
     return NULL;
   }
+  uint32_t lower, upper;
+  if (!translate_weight_bounds(lower_value, upper_value, &lower, &upper)) {
+    return NULL;
+  }
   if (ratio != 0 && ratio < 1.0) {
     PyErr_SetString(PyExc_ValueError, "ratio is less than 1.0");
     return NULL;
@@ -2340,6 +2369,10 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
     }
   }
 
+  if (!check_total_weight(weight_list, graph.size())) {
+    return NULL;
+  }
+
   auto ss = graphillion::SearchBalancedPartitions(graph, weight_list, ratio, lower,
                                              upper, num_comps);
   RETURN_NEW_SETSET(ss);
@@ -2374,15 +2407,20 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
 
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
-  uint32_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OII", kwlist, &graph_obj,
-                                   &weight_list_obj, &lower, &upper)) {
+  long lower_value = 0, upper_value = std::numeric_limits<uint32_t>::max() / 2;
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|Oll", kwlist, &graph_obj,
+                                   &weight_list_obj, &lower_value,
+                                   &upper_value)) {
     return NULL;
   }
-  if (upper < lower) {
+  if (upper_value < lower_value) {
     PyErr_SetString(PyExc_TypeError, "lower bound is larger than upper bound");
     return NULL;
   }
+  uint32_t lower, upper;
+  if (!translate_weight_bounds(lower_value, upper_value, &lower, &upper)) {
+    return NULL;
+  }
 
   vector<pair<string, string> > graph;
   if (!translate_graph(graph_obj, graph)) {
@@ -2426,6 +2464,10 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
     }
   }
 
+  if (!check_total_weight(weight_list, graph.size())) {
+    return NULL;
+  }
+
   auto ss = graphillion::SearchWeightedInducedGraphs(graph, weight_list, lower,
                                                      upper);
   RETURN_NEW_SETSET(ss);
-- 
2.43.0


From 3106909e35bb5c04273d03d6f6271ebd44d11a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 42/55] fix: new set objects are freed twice when their
 creation fails

---
 src/pygraphillion.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 81566f2..5e9611f 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -135,12 +135,10 @@ static bool check_total_weight(const map<string, uint32_t>& weight_list,
       _ret->ss = new setset(expr);                               \
     } catch (const std::exception& e) {                          \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, e.what());             \
       return NULL;                                               \
     } catch (...) {                                              \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, "Unknown error "       \
         "occured while creating a new setset");                  \
       return NULL;                                               \
-- 
2.43.0


From f85877271a3ae950ed999ce4b717cf5ffc26abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 43/55] fix: update methods of setset never release the set
 they update

---
 src/pygraphillion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 5e9611f..85c359d 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -205,8 +205,10 @@ static bool check_total_weight(const map<string, uint32_t>& weight_list,
         PyErr_SetString(PyExc_TypeError, "invalid tuple element");     \
         return NULL;                                                   \
       }                                                                \
-      if (expr(self, _other) == NULL)                                  \
+      PyObject* _updated = expr(self, _other);                         \
+      if (_updated == NULL)                                            \
         return NULL;                                                   \
+      Py_DECREF(_updated);                                             \
     }                                                                  \
     Py_RETURN_NONE;                                                    \
   } while (0);
-- 
2.43.0


From 6ca2b3ab84bcf16d6312f3b850a4701fc7cee15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 44/55] fix: cost tables never release their cached results

---
 src/SAPPOROBDD/BDDCT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index e3e7d79..9c34282 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -35,7 +35,7 @@ public:
     }
     ~CacheEntry(void)
     {
-      if(!_zmap) delete _zmap;
+      if(_zmap) delete _zmap;
     }
   };
 
-- 
2.43.0


From 941a63be69f32b13488324c8b8cb2ae51fee7764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 45/55] fix: terms of linear constraints are never released

---
 src/pygraphillion.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 85c359d..817840a 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1982,9 +1982,11 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
             || !get_double_from_sequence(eo, 2, &w)) {
           Py_DECREF(eo);
           Py_DECREF(j);
+          Py_DECREF(co);
           Py_DECREF(i);
           return NULL;
         }
+        Py_DECREF(eo);
         /*PyObject* uo = PySequence_GetItem(eo, 0);
         string u = PyBytes_AsString(uo);
         PyObject* vo = PySequence_GetItem(eo, 1);
-- 
2.43.0


From 0a316845c9801e96d17e387ce3a5dab4589a0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 46/55] fix: degrees given in a map are never released

---
 src/pygraphillion.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 817840a..37c6a3c 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2740,6 +2740,7 @@ bool input_vertex_to_range_map(
         return false;
       }
       int value = long_as_int(io);
+      Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return false;
-- 
2.43.0


From 2794694d5ec387e619714aa71815633005f4c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 47/55] fix: rejected iteration weights are never released

---
 src/pygraphillion.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 37c6a3c..62bb8df 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -756,6 +756,8 @@ static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
     else if (PyLong_Check(eo)) {
       long value = PyLong_AsLong(eo);
       if (PyErr_Occurred()) {
+        Py_DECREF(eo);
+        Py_DECREF(i);
         return NULL;
       }
       w.push_back(static_cast<double>(value));
-- 
2.43.0


From 1b427cdab2651a4e812acc73db414156d0f264ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 48/55] fix: degree_distribution_graphs of an empty
 distribution crashes

---
 src/pygraphillion.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 62bb8df..2ac5e98 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2240,6 +2240,9 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
     }
     deg_ranges[k] = v;
   }
+  if (deg_ranges.empty()) {
+    deg_ranges.resize(1);  // no vertex of any degree
+  }
 
   if (!PyBool_Check(is_connected)) {
     PyErr_SetString(PyExc_TypeError, "not bool");
-- 
2.43.0


From 880db89ceaea1842da43a10121b481728bea285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 49/55] fix: including, excluding and included fail when a
 graph converter is set

---
 graphillion/digraphset.py | 15 ++++++++++-----
 graphillion/graphset.py   | 17 +++++++++++------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index a291281..434935d 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1360,11 +1360,11 @@ class DiGraphSet(object):
         if type == 'digraphset':
             return DiGraphSet(self._ss.supersets(DiGraphSet._objtable, obj._ss))
         elif type == 'graph':
-            return self.including(DiGraphSet([obj]))
+            return self.including(DiGraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return DiGraphSet(self._ss.supersets(DiGraphSet._objtable, obj))
         else:
-            return self.including(DiGraphSet([set([e]) for e in obj]))
+            return self.including(DiGraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def excluding(self, obj):
         """Returns a new DiGraphSet that doesn't include `obj`.
@@ -1404,11 +1404,11 @@ class DiGraphSet(object):
             #            return DiGraphSet(self._ss.non_supersets(obj._ss))  # correct but slow
             return self - self.including(obj)
         elif type == 'graph':
-            return self.excluding(DiGraphSet([obj]))
+            return self.excluding(DiGraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return DiGraphSet(self._ss.non_supersets(DiGraphSet._objtable, obj))
         else:
-            return self.excluding(DiGraphSet([set([e]) for e in obj]))
+            return self.excluding(DiGraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def included(self, obj):
         """Returns a new DiGraphSet with subgraphs of a digraph in `obj`.
@@ -1438,7 +1438,7 @@ class DiGraphSet(object):
         if type == 'digraphset':
             return DiGraphSet(self._ss.subsets(obj._ss))
         elif type == 'graph':
-            return self.included(DiGraphSet([obj]))
+            return self.included(DiGraphSet._from_edge_sets([obj]))
         else:
             raise TypeError(obj)
 
@@ -2152,6 +2152,11 @@ class DiGraphSet(object):
         else:
             raise ValueError('invalid `traversal`: {}'.format(traversal))
 
+    @staticmethod
+    def _from_edge_sets(sets):
+        # edges are not converted, unlike with the constructor
+        return DiGraphSet(setset_base(DiGraphSet._objtable, sets))
+
     @staticmethod
     def _conv_arg(obj):
         if isinstance(obj, DiGraphSet):
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 45a2f46..4b68ec8 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1373,11 +1373,11 @@ class GraphSet(object):
         if type == 'graphset':
             return GraphSet(self._ss.supersets(Universe.e_objtable, obj._ss))
         elif type == 'graph':
-            return self.including(GraphSet([obj]))
+            return self.including(GraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return GraphSet(self._ss.supersets(Universe.e_objtable, obj))
         else:
-            return self.including(GraphSet([set([e]) for e in obj]))
+            return self.including(GraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def excluding(self, obj):
         """Returns a new GraphSet that doesn't include `obj`.
@@ -1417,11 +1417,11 @@ class GraphSet(object):
 #            return GraphSet(self._ss.non_supersets(Universe.e_objtable, obj._ss))  # correct but slow
             return self - self.including(obj)
         elif type == 'graph':
-            return self.excluding(GraphSet([obj]))
+            return self.excluding(GraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return GraphSet(self._ss.non_supersets(Universe.e_objtable, obj))
         else:
-            return self.excluding(GraphSet([set([e]) for e in obj]))
+            return self.excluding(GraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def included(self, obj):
         """Returns a new GraphSet with subgraphs of a graph in `obj`.
@@ -1451,7 +1451,7 @@ class GraphSet(object):
         if type == 'graphset':
             return GraphSet(self._ss.subsets(obj._ss))
         elif type == 'graph':
-            return self.included(GraphSet([obj]))
+            return self.included(GraphSet._from_edge_sets([obj]))
         else:
             raise TypeError(obj)
 
@@ -2532,7 +2532,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet._from_edge_sets([[]]))
         else:
             return gs
 
@@ -2961,6 +2961,11 @@ class GraphSet(object):
         """
         return _graphillion._omp_get_num_procs()
 
+    @staticmethod
+    def _from_edge_sets(sets):
+        # edges are not converted, unlike with the constructor
+        return GraphSet(setset_base(Universe.e_objtable, sets))
+
     @staticmethod
     def _conv_arg(obj):
         if isinstance(obj, GraphSet):
-- 
2.43.0


From 5d634ff1b47476d9ef52ad18ef7dccd3f89991f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 50/55] fix: weighted iteration fails when edges come with the
 edge data of a graph object

---
 graphillion/setset_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index c3ea7dd..69c81d3 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -140,6 +140,8 @@ class setset_base(_graphillion.setset):
         ws = [default] * (objtable.num_elems() + 1)
         if weights:
             for e, w in weights.items():
+                if isinstance(w, dict):  # edge data of graph objects
+                    w = w.get('weight', default)
                 if e in objtable.obj2int:
                     i = objtable.obj2int[e]
                     ws[i] = w
-- 
2.43.0


From d10cf851630638441df01bd617cd0b77b46a8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 51/55] fix: vertices that cannot be compared with each other
 raise TypeError

---
 graphillion/digraphset.py        | 34 +++++++++++-----------
 graphillion/edgevertex_setset.py |  7 ++---
 graphillion/graphset.py          |  5 ++--
 graphillion/setset_base.py       |  3 +-
 graphillion/universe.py          | 49 ++++++++++++++++++++++----------
 5 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 434935d..77fcf9d 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,7 +22,7 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable
+from graphillion.universe import ObjectTable, Universe, sort_objects
 from graphillion.setset_base import setset_base
 import heapq
 
@@ -1775,11 +1775,10 @@ class DiGraphSet(object):
             raise ValueError("The universe must not be empty.")
         if traversal != 'as-is':
             if source is None:
-                source = sorted_edges[0][0]
-                for e in sorted_edges:
-                    source = min(e[0], e[1], source)
+                source = next(iter(Universe._vertex_order(sorted_edges)))
             sorted_edges = DiGraphSet._traverse(
-                indexed_edges, traversal, source)
+                indexed_edges, traversal, source,
+                Universe._vertex_order(sorted_edges))
         for u, v in sorted_edges:
             vertices.add(u)
             vertices.add(v)
@@ -2073,7 +2072,7 @@ class DiGraphSet(object):
         return _graphillion._show_messages(flag)
 
     @staticmethod
-    def _traverse(indexed_edges, traversal, source):
+    def _traverse(indexed_edges, traversal, source, order):
         neighbors = {}
         for u, v in indexed_edges:
             if u not in neighbors:
@@ -2099,7 +2098,7 @@ class DiGraphSet(object):
             heap = []
             while True:
                 visited_vertices.add(u)
-                for v in sorted(neighbors[u]):
+                for v in sorted(neighbors[u], key=order.get):
                     degree[v] -= 1
                     if v in visited_vertices:
                         degree[u] -= 1
@@ -2108,27 +2107,27 @@ class DiGraphSet(object):
                         if (e[1], e[0]) in indexed_edges:
                             sorted_edges.append((e[1], e[0]))
                         if degree[v]:
-                            for w in sorted(neighbors[v]):
+                            for w in sorted(neighbors[v], key=order.get):
                                 if w not in visited_vertices:
                                     heapq.heappush(
-                                        heap, (degree[v], degree[w], w))
-                for v in sorted(neighbors[u]):
+                                        heap, (degree[v], degree[w], order[w], w))
+                for v in sorted(neighbors[u], key=order.get):
                     if v not in visited_vertices:
-                        heapq.heappush(heap, (degree[u], degree[v], v))
+                        heapq.heappush(heap, (degree[u], degree[v], order[v], v))
                 if visited_vertices == vertices:
                     break
                 while u in visited_vertices:
                     if not heap:
-                        u = min(vertices - visited_vertices)
+                        u = min(vertices - visited_vertices, key=order.get)
                     else:
-                        u = heapq.heappop(heap)[2]
+                        u = heapq.heappop(heap)[-1]
             assert set(indexed_edges) == set(sorted_edges)
             return sorted_edges
         elif traversal == 'bfs' or traversal == 'dfs':
             queue_or_stack = []
             while True:
                 visited_vertices.add(u)
-                for v in sorted(neighbors[u]):
+                for v in sorted(neighbors[u], key=order.get):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
@@ -2136,12 +2135,12 @@ class DiGraphSet(object):
                             sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
-                queue_or_stack.extend(sorted(new_vertices))
+                queue_or_stack.extend(sorted(new_vertices, key=order.get))
                 if not queue_or_stack:
                     if visited_vertices == vertices:
                         break
                     else:
-                        queue_or_stack.append(min(vertices - visited_vertices))
+                        queue_or_stack.append(min(vertices - visited_vertices, key=order.get))
                 if traversal == 'bfs':
                     u, queue_or_stack = queue_or_stack[0], queue_or_stack[1:]
                 else:
@@ -2192,7 +2191,8 @@ class DiGraphSet(object):
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
-            return DiGraphSet.converters['to_graph'](sorted(list(obj)))
+            return DiGraphSet.converters['to_graph'](
+                sort_objects(obj, DiGraphSet._objtable.obj2int))
         raise TypeError(obj)
 
     converters = {'to_graph': lambda edges: edges,
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index f1f26f7..a71496c 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -23,7 +23,7 @@
 from builtins import range, int
 import _graphillion
 from graphillion.universe import ObjectTable
-from graphillion.universe import Universe
+from graphillion.universe import Universe, sort_objects
 from graphillion.setset_base import setset_base
 
 
@@ -1621,6 +1621,5 @@ class EdgeVertexSetSet(object):
                 edges.append(ev)
             else:
                 vertices.append(ev)
-        vertices.sort()
-        edges.sort()
-        return edges + vertices
+        position = Universe.ev_objtable.obj2int
+        return sort_objects(edges, position) + sort_objects(vertices, position)
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4b68ec8..cb1b1d7 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -23,7 +23,7 @@
 from functools import partial
 from builtins import range, int
 import _graphillion
-from graphillion.universe import Universe
+from graphillion.universe import Universe, sort_objects
 from graphillion.setset_base import setset_base
 
 class GraphSet(object):
@@ -3013,7 +3013,8 @@ class GraphSet(object):
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
-            return GraphSet.converters['to_graph'](sorted(list(obj)))
+            return GraphSet.converters['to_graph'](
+                sort_objects(obj, Universe.e_objtable.obj2int))
         raise TypeError(obj)
 
     converters = { 'to_graph': lambda edges: edges,
diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 69c81d3..f45ca69 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -22,6 +22,7 @@
 
 from builtins import range
 import _graphillion
+from graphillion.universe import sort_objects
 
 
 class setset_base(_graphillion.setset):
@@ -71,7 +72,7 @@ class setset_base(_graphillion.setset):
             else:
                 ret += ', '
             if obj_to_str is None:
-                ret += inner_braces[0] + str(sorted(list(s)))[1:-1] + inner_braces[1]
+                ret += inner_braces[0] + str(sort_objects(s, objtable.obj2int))[1:-1] + inner_braces[1]
             else:
                 ret += inner_braces[0] + str(sorted([eval(obj_to_str[tuple(obj)]) for obj in s]))[1:-1] + inner_braces[1]
             if len(ret) > maxchar - 2:
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 8f912ca..901c1d2 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -20,6 +20,16 @@
 import _graphillion
 import heapq
 
+
+def sort_objects(objs, position):
+    """Sorts objects by value, or by position if they are not comparable."""
+    objs = list(objs)
+    try:
+        return sorted(objs)
+    except TypeError:
+        return sorted(objs, key=lambda obj: position[obj])
+
+
 """
 ObjectTable class manages the universe of each class such as GraphSet and VertexSetSet.
 """
@@ -228,10 +238,10 @@ class Universe:
 
         if traversal != 'as-is':
             if source is None:
-                source = sorted_edges[0][0]
-                for e in sorted_edges:
-                    source = min(e[0], e[1], source)
-            sorted_edges = Universe._traverse(indexed_edges, traversal, source)
+                source = next(iter(Universe._vertex_order(sorted_edges)))
+            sorted_edges = Universe._traverse(
+                indexed_edges, traversal, source,
+                Universe._vertex_order(sorted_edges))
         for u, v in sorted_edges:
             vertices.add(u)
             vertices.add(v)
@@ -362,8 +372,17 @@ class Universe:
             ev_objtable.add_elem(x)
         return ev_objtable, edge_vertex_kind
 
+    # the vertices in ascending order, with their ranks
+    @staticmethod
+    def _vertex_order(edges):
+        position = {}
+        for e in edges:
+            for v in e:
+                position.setdefault(v, len(position))
+        return {v: i for i, v in enumerate(sort_objects(position, position))}
+
     @staticmethod
-    def _traverse(indexed_edges, traversal, source):
+    def _traverse(indexed_edges, traversal, source, order):
         neighbors = {}
         for u, v in indexed_edges:
             if u not in neighbors:
@@ -389,43 +408,43 @@ class Universe:
             heap = []
             while True:
                 visited_vertices.add(u)
-                for v in sorted(neighbors[u]):
+                for v in sorted(neighbors[u], key=order.get):
                     degree[v] -= 1
                     if v in visited_vertices:
                         degree[u] -= 1
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
                         if degree[v]:
-                            for w in sorted(neighbors[v]):
+                            for w in sorted(neighbors[v], key=order.get):
                                 if w not in visited_vertices:
-                                    heapq.heappush(heap, (degree[v], degree[w], w))
-                for v in sorted(neighbors[u]):
+                                    heapq.heappush(heap, (degree[v], degree[w], order[w], w))
+                for v in sorted(neighbors[u], key=order.get):
                     if v not in visited_vertices:
-                         heapq.heappush(heap, (degree[u], degree[v], v))
+                         heapq.heappush(heap, (degree[u], degree[v], order[v], v))
                 if visited_vertices == vertices:
                     break
                 while u in visited_vertices:
                     if not heap:
-                        u = min(vertices - visited_vertices)
+                        u = min(vertices - visited_vertices, key=order.get)
                     else:
-                        u = heapq.heappop(heap)[2]
+                        u = heapq.heappop(heap)[-1]
             assert set(indexed_edges) == set(sorted_edges)
             return sorted_edges
         elif traversal == 'bfs' or traversal == 'dfs':
             queue_or_stack = []
             while True:
                 visited_vertices.add(u)
-                for v in sorted(neighbors[u]):
+                for v in sorted(neighbors[u], key=order.get):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
                 new_vertices = neighbors[u] - visited_vertices - set(queue_or_stack)
-                queue_or_stack.extend(sorted(new_vertices))
+                queue_or_stack.extend(sorted(new_vertices, key=order.get))
                 if not queue_or_stack:
                     if visited_vertices == vertices:
                         break
                     else:
-                        queue_or_stack.append(min(vertices - visited_vertices))
+                        queue_or_stack.append(min(vertices - visited_vertices, key=order.get))
                 if traversal == 'bfs':
                     u, queue_or_stack = queue_or_stack[0], queue_or_stack[1:]
                 else:
-- 
2.43.0


From bc42c4e1c4e21217d9435c467c14212b0fd99efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 52/55] fix: vertices that are tuples are not accepted where a
 vertex, an edge or a graph is

---
 graphillion/digraphset.py        |  8 ++++++--
 graphillion/edgevertex_setset.py | 21 +++++++++------------
 graphillion/graphset.py          |  8 ++++++--
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 77fcf9d..ab2a67d 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2163,8 +2163,12 @@ class DiGraphSet(object):
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([DiGraphSet._conv_edge(e) for e in obj])
         elif isinstance(obj, tuple):
-            return 'edge', DiGraphSet._conv_edge(obj)
-        elif obj in DiGraphSet._vertices:
+            try:
+                return 'edge', DiGraphSet._conv_edge(obj)
+            except KeyError:  # a vertex can be a tuple, too
+                if obj not in DiGraphSet._vertices:
+                    raise
+        if obj in DiGraphSet._vertices:
             return 'vertex', [e for e in DiGraphSet._objtable.universe() if obj in e]
         try:
             edges = DiGraphSet.converters['to_edges'](obj)
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index a71496c..ee9818a 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1560,26 +1560,23 @@ class EdgeVertexSetSet(object):
             return 'edgevertexsetset', obj
         elif isinstance(obj, (set, frozenset, list)):
             return 'edgesvertices', set([EdgeVertexSetSet._conv_edgevertex(e) for e in obj])
-        elif isinstance(obj, tuple):
-            return 'edge', EdgeVertexSetSet._conv_edgevertex(obj)
         elif obj in Universe.edge_vertex_kind and not Universe.edge_vertex_kind[obj]: # obj is a vertex
             return 'vertex', obj
+        elif isinstance(obj, tuple):
+            return 'edge', EdgeVertexSetSet._conv_edgevertex(obj)
         else:
             raise KeyError(obj)
 
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
-        if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
-            if edge_or_vertex not in Universe.ev_objtable.obj2int:
-                raise KeyError(edge_or_vertex)
-            return edge_or_vertex # interpret it as a vertex
-        if len(edge_or_vertex) > 2:
-            edge_or_vertex = edge_or_vertex[:2]
-        if edge_or_vertex in Universe.ev_objtable.obj2int:
+        if edge_or_vertex in Universe.ev_objtable.obj2int: # a vertex can be a tuple, too
             return edge_or_vertex
-        elif (edge_or_vertex[1], edge_or_vertex[0]) in Universe.ev_objtable.obj2int:
-            return (edge_or_vertex[1], edge_or_vertex[0])
-        raise KeyError(edge_or_vertex)
+        if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
+            raise KeyError(edge_or_vertex)
+        edge = edge_or_vertex[:2]
+        if not Universe.edge_vertex_kind.get(edge): # edge is not an edge in either direction
+            raise KeyError(edge_or_vertex)
+        return edge if edge in Universe.ev_objtable.obj2int else (edge[1], edge[0])
 
     @staticmethod
     def _conv_weights(weights):
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index cb1b1d7..b849515 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2973,8 +2973,12 @@ class GraphSet(object):
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([GraphSet._conv_edge(e) for e in obj])
         elif isinstance(obj, tuple):
-            return 'edge', GraphSet._conv_edge(obj)
-        elif obj in Universe.vertices:
+            try:
+                return 'edge', GraphSet._conv_edge(obj)
+            except KeyError:  # a vertex can be a tuple, too
+                if obj not in Universe.vertices:
+                    raise
+        if obj in Universe.vertices:
             return 'vertex', [e for e in Universe.e_objtable.universe() if obj in e]
         try:
             edges = GraphSet.converters['to_edges'](obj)
-- 
2.43.0


From df7c705d54ba8a508fde9841a5c27110651bcd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 53/55] fix: to_vertexsetset ignored an explicitly registered
 vertex universe

---
 graphillion/graphset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index b849515..b028df9 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -23,7 +23,7 @@
 from functools import partial
 from builtins import range, int
 import _graphillion
-from graphillion.universe import Universe, sort_objects
+from graphillion.universe import ObjectTable, Universe, sort_objects
 from graphillion.setset_base import setset_base
 
 class GraphSet(object):
@@ -1694,7 +1694,14 @@ class GraphSet(object):
 
         """
         from graphillion import VertexSetSet
-        return VertexSetSet(self._ss.to_vertexsetset(Universe.e_objtable))
+        ss = self._ss.to_vertexsetset(Universe.e_objtable)
+        objtable = ObjectTable()  # numbers of vertices in `ss`
+        for v in setset_base.get_vertices_from_top(Universe.e_objtable):
+            objtable.add_elem(v)
+        if objtable.universe() == Universe.v_objtable.universe():
+            return VertexSetSet(ss)
+        # the vertex universe has been registered explicitly
+        return VertexSetSet(list(setset_base._iter(ss, objtable)))
 
     def to_edgevertexsetset(self):
         """Returns a new EdgeVertexSetSet with edges and vertices of each graph in `self`.
-- 
2.43.0


From 415f0f2d64a3b4a9c33e5a15b9812fa2b1736a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 54/55] fix: setset::count(s) counted members that contain s

---
 src/graphillion/setset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b76b91f..03076a6 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -302,7 +302,7 @@ setset::iterator setset::find(const set<elem_t>& s) const {
 }
 
 size_t setset::count(const set<elem_t>& s) const {
-  return this->zdd_ / setset(s).zdd_ != bot() ? 1 : 0;
+  return this->find(s) != end() ? 1 : 0;
 }
 
 pair<setset::iterator, bool> setset::insert(const set<elem_t>& s) {
-- 
2.43.0


From 35e7a85bdffdac680f44aba3ae31fe6f8c4f725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 55/55] fix: an iterator at the empty set started over when it
 was advanced

---
 src/graphillion/setset.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index 03076a6..8a28735 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -62,7 +62,7 @@ setset::iterator::iterator(const setset& ss) : zdd_(ss.zdd_), s_(set<elem_t>())
 }
 
 setset::iterator::iterator(const setset& ss, const set<elem_t>& s)
-    : zdd_(ss.zdd_), s_(s) {
+    : zdd_(s.empty() ? bot() : ss.zdd_), s_(s) {  // the empty set is the last
 }
 
 setset::iterator& setset::iterator::operator++() {
@@ -95,7 +95,8 @@ setset::random_iterator::random_iterator(const setset::random_iterator& i)
     : iterator(i), size_(i.size_) {
 }
 
-setset::random_iterator::random_iterator(const setset& ss) : iterator(ss, set<elem_t>()) {
+setset::random_iterator::random_iterator(const setset& ss) : iterator() {
+  this->zdd_ = ss.zdd_;
   this->size_ = algo_c(ss.zdd_);
   this->next();
 }
@@ -123,7 +124,8 @@ setset::weighted_iterator::weighted_iterator(const setset::weighted_iterator& i)
 
 setset::weighted_iterator::weighted_iterator(const setset& ss,
                                              vector<double> weights)
-    : iterator(ss, set<elem_t>()), weights_(weights) {
+    : iterator(), weights_(weights) {
+  this->zdd_ = ss.zdd_;
   this->next();
 }
 
-- 
2.43.0

