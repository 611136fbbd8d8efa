From 76bcef2626815c247c2d35298222c0c0931bbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 01/59] fix: add_edge with an unknown target leaves
 undirected/incidence graphs unchanged

---
 src/pybgl/graph.py               | 2 ++
 src/pybgl/incidence_automaton.py | 2 ++
 src/pybgl/incidence_graph.py     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/pybgl/graph.py b/src/pybgl/graph.py
index 96b5d8d..85be7d5 100644
--- a/src/pybgl/graph.py
+++ b/src/pybgl/graph.py
@@ -530,6 +530,8 @@ class UndirectedGraph(Graph):
             if successful, ``(None, False)`` otherwise.
         """
         (u, v) = (min(u, v), max(u, v))
+        if v not in self.adjacencies:
+            raise KeyError(v)
         (e, added) = super().add_edge(u, v)
         if added:
             n = e.distinguisher
diff --git a/src/pybgl/incidence_automaton.py b/src/pybgl/incidence_automaton.py
index 5efc895..2d708a1 100644
--- a/src/pybgl/incidence_automaton.py
+++ b/src/pybgl/incidence_automaton.py
@@ -34,6 +34,8 @@ class IncidenceAutomaton(Automaton):
 
     def add_edge(self, q: int, r: int, a: str) -> tuple:
         # Overloaded method
+        if r not in self.in_adjacencies:
+            raise KeyError(r)
         (e, added) = super().add_edge(q, r, a)
         if added:
             r_in_adjs = self.in_adjacencies[r]
diff --git a/src/pybgl/incidence_graph.py b/src/pybgl/incidence_graph.py
index 07141d2..e8fa83e 100644
--- a/src/pybgl/incidence_graph.py
+++ b/src/pybgl/incidence_graph.py
@@ -33,6 +33,8 @@ class IncidenceGraph(DirectedGraph):
 
     def add_edge(self, u: int, v: int) -> tuple:
         # Overloaded method
+        if v not in self.in_adjacencies:
+            raise KeyError(v)
         (e, added) = super().add_edge(u, v)
         if added:
             v_in_adjs = self.in_adjacencies[v]
-- 
2.43.0


From ecaeb7186b3dfcc49fa05cd53a082c173887567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 02/59] fix: Automaton.add_edge must not overwrite a transition
 to state 0

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab74894..27a7d1b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -89,7 +89,7 @@ class Automaton(DirectedGraph):
         """
         assert q is not None
         assert r is not None
-        if self.delta(q, a):
+        if self.delta(q, a) is not BOTTOM:
             return (None, False)
         self.adjacencies[q][a] = r
         return (EdgeDescriptor(q, r, a), True)
-- 
2.43.0


From 04e62cb9f40ff0310b879c8e13e8d7d34c2896b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 03/59] fix: remove_edge with a stale descriptor must not
 remove another transition

---
 src/pybgl/automaton.py      | 3 ++-
 src/pybgl/node_automaton.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 27a7d1b..0d2d66d 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -160,10 +160,11 @@ class Automaton(DirectedGraph):
                 transition to be removed.
         """
         q = self.source(e)
+        r = self.target(e)
         a = self.label(e)
         adj_q = self.adjacencies.get(q)
         if adj_q:
-            if a in adj_q.keys():
+            if a in adj_q.keys() and adj_q[a] == r:
                 del adj_q[a]
 
     def sigma(self, q: int) -> set:
diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 714eda4..a8f84d1 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -161,7 +161,7 @@ class NodeAutomaton(Automaton):
         a = self.symbol(r)
         adj_q = self.adjacencies.get(q)
         if adj_q:
-            if a in adj_q:
+            if a in adj_q and adj_q[a] == r:
                 del adj_q[a]
 
     def sigma(self, q: int) -> set:
-- 
2.43.0


From 805456361138d8f8db02198f1414642c275da610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 04/59] fix: clearing an automaton must forget its final states
 and symbols

---
 src/pybgl/automaton.py      |  7 +++++++
 src/pybgl/nfa.py            |  7 +++++++
 src/pybgl/node_automaton.py | 11 +++++++++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 0d2d66d..ab7eb8b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -54,6 +54,13 @@ class Automaton(DirectedGraph):
         else:
             self.pmap_vfinal = pmap_vfinal
 
+    def clear(self):
+        # Overloaded method
+        # The vertex descriptors are recycled: forget the final states.
+        super().clear()
+        if hasattr(self, "map_vfinal"):
+            self.map_vfinal.clear()
+
     def delta(self, q: int, a: str) -> int:
         """
         Transition function, allowing to move from a state ``q`` to its
diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 4637ce5..7fb3416 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -52,6 +52,13 @@ class Nfa(DirectedGraph):
             self.pmap_vfinal = pmap_vfinal
         self.epsilon = epsilon
 
+    def clear(self):
+        # Overloaded method
+        # The vertex descriptors are recycled: forget the final states.
+        super().clear()
+        if hasattr(self, "map_vfinal"):
+            self.map_vfinal.clear()
+
     def delta_one_step(self, qs: iter, a: str) -> set:
         """
         Determines the target states reached by consuming a symbol
diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index a8f84d1..da6f9cb 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -42,10 +42,17 @@ class NodeAutomaton(Automaton):
         # Convention: self.adjacencies[q][a] = r
         super().__init__(num_vertices, q0, pmap_vfinal)
         if pmap_vsymbol is None:
-            map_vsymbol = defaultdict(lambda: None)
-            pmap_vsymbol = make_assoc_property_map(map_vsymbol)
+            self.map_vsymbol = defaultdict(lambda: None)
+            pmap_vsymbol = make_assoc_property_map(self.map_vsymbol)
         self.pmap_vsymbol = pmap_vsymbol
 
+    def clear(self):
+        # Overloaded method
+        # The vertex descriptors are recycled: forget the symbols.
+        super().clear()
+        if hasattr(self, "map_vsymbol"):
+            self.map_vsymbol.clear()
+
     def add_vertex(self, a: str = None) -> int:
         u = super().add_vertex()
         if a is not None:
-- 
2.43.0


From e25b0f2e8260ecb5129c85294f08ed998335ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 05/59] fix: honour q0 and pmap_vfinal when building
 (incidence) node automata

---
 src/pybgl/incidence_node_automaton.py | 3 +--
 src/pybgl/node_automaton.py           | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c0b0cd1..c6d17cc 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -15,7 +15,6 @@ from .node_automaton import *
 
 
 class IncidenceNodeAutomaton(NodeAutomaton):
-    # TODO **kwargs
     def __init__(self, *args, pmap_vsymbol: ReadPropertyMap = None, **kwargs):
         """
         Constructor.
@@ -25,7 +24,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                 each state with its corresponding symbol.
         """
         self.predecessors = defaultdict(set)  # predecessors[r] = {q}
-        super().__init__(*args, pmap_vsymbol=pmap_vsymbol)  # UGLY
+        super().__init__(*args, pmap_vsymbol=pmap_vsymbol, **kwargs)
 
     # TODO: Factorize with IncidenceAutomaton
     def add_edge(self, q: int, r: int) -> tuple:
diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index da6f9cb..91b7448 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -331,7 +331,7 @@ def make_node_automaton(
     for vertex_name in vertex_names:
         a = pmap_vlabel[vertex_name]
         u = g.add_vertex(a)
-        if pmap_vfinal[u]:
+        if pmap_vfinal[vertex_name]:
             g.set_final(u)
     for (qn, rn) in transitions:
         q = map_vertices[qn]
-- 
2.43.0


From 03142b078de9419a1b661889fc84ef73cbeec6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 06/59] fix: Nfa edge descriptors are hashable and removed
 symbols leave the alphabet

---
 src/pybgl/nfa.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 7fb3416..5beeeb8 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -182,6 +182,9 @@ class Nfa(DirectedGraph):
         (a, n) = e.distinguisher
         try:
             del self.adjacencies[q][a][r]
+            if not self.adjacencies[q][a]:
+                # No more a-transition from q: update sigma and alphabet
+                del self.adjacencies[q][a]
         except KeyError:
             pass
 
@@ -197,9 +200,9 @@ class Nfa(DirectedGraph):
             An iterator over the out-edges of ``u``.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, min(ns)))
             for (a, rn) in self.adjacencies.get(q, dict()).items()
-            for (r, n) in rn.items()
+            for (r, ns) in rn.items()
         )
 
     def edges(self):
@@ -211,10 +214,10 @@ class Nfa(DirectedGraph):
             An iterator over the transitions.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, min(ns)))
             for (q, arn) in self.adjacencies.items()
             for (a, rn) in arn.items()
-            for (r, n) in rn.items()
+            for (r, ns) in rn.items()
         )
 
     def alphabet(self) -> set:
-- 
2.43.0


From 64203d550e54d96df97823f82cf6e4b1f449bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 07/59] fix: GraphView subtraction must keep hiding the edges
 hidden by the left operand

---
 src/pybgl/graph_view.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 18fc175..c79f9a9 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -113,8 +113,7 @@ class GraphView:
                 lambda v: self.pmap_vrelevant[v] and not gv.pmap_vrelevant[v]
             ),
             make_func_property_map(
-                lambda e: (
-                    self.pmap_erelevant[e] and
+                lambda e: self.pmap_erelevant[e] and (
                     not gv.pmap_erelevant[e] or (
                         not gv.pmap_vrelevant[self.source(e)] and
                         not gv.pmap_vrelevant[self.target(e)]
-- 
2.43.0


From 329cf286040a2280a190793302e548955d347d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 08/59] fix: GraphView.has_vertex and has_edge must honour the
 filters

---
 src/pybgl/graph_view.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index c79f9a9..9b7c7bb 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -220,6 +220,28 @@ class GraphView:
         """
         return __len_gen__(self.in_edges(u))
 
+    def has_vertex(self) -> bool:
+        """
+        Checks if at least one vertex is relevant.
+
+        Returns:
+            ``True`` iff this :py:class:`GraphView` has at least one vertex.
+        """
+        for _ in self.vertices():
+            return True
+        return False
+
+    def has_edge(self) -> bool:
+        """
+        Checks if at least one edge is relevant.
+
+        Returns:
+            ``True`` iff this :py:class:`GraphView` has at least one edge.
+        """
+        for _ in self.edges():
+            return True
+        return False
+
     def num_vertices(self) -> int:
         """
         Counts the number of relevant vertices involved in this
-- 
2.43.0


From 4ffd6c0133034160822fc020b781c52fcfa2dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 09/59] fix: explicit empty sources and stacks must not be
 mistaken for the defaults

---
 src/pybgl/depth_first_search.py | 2 +-
 src/pybgl/topological_sort.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/depth_first_search.py b/src/pybgl/depth_first_search.py
index eebb8d8..ce5fa77 100644
--- a/src/pybgl/depth_first_search.py
+++ b/src/pybgl/depth_first_search.py
@@ -223,6 +223,6 @@ def depth_first_search_graph(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
-    for u in (sources if sources else g.vertices()):
+    for u in (sources if sources is not None else g.vertices()):
         if pmap_vcolor[u] == WHITE:
             depth_first_search(u, g, pmap_vcolor, vis, if_push)
diff --git a/src/pybgl/topological_sort.py b/src/pybgl/topological_sort.py
index 928fe83..4539ee2 100644
--- a/src/pybgl/topological_sort.py
+++ b/src/pybgl/topological_sort.py
@@ -50,7 +50,7 @@ def topological_sort(g: DirectedGraph, stack: deque = None) -> deque:
     Returns:
         The stack containing the vertices, sorted by topological order.
     """
-    stack = stack if stack else deque()
+    stack = stack if stack is not None else deque()
     depth_first_search_graph(
         g,
         pmap_vcolor=make_assoc_property_map(defaultdict(int)),
-- 
2.43.0


From 3c806ccdfbba22bcf6f2c86ba6b14e75fbf58607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 10/59] fix: breadth-first search default visitor, default
 sources and duplicated sources

---
 src/pybgl/breadth_first_search.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 02bc7e4..3b7da25 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -168,7 +168,10 @@ def breadth_first_search_graph(
         if_push = (lambda e, g: True)
 
     stack = deque()
-    for s in sources:
+    for s in (sources if sources is not None else g.vertices()):
+        if pmap_vcolor[s] != WHITE:
+            # Already visited or duplicated source
+            continue
         pmap_vcolor[s] = GRAY
         vis.discover_vertex(s, g)
         stack.append(s)
@@ -231,6 +234,8 @@ def breadth_first_search(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
+    if vis is None:
+        vis = DefaultBreadthFirstSearchVisitor()
     for u in g.vertices():
         vis.initialize_vertex(u, g)
         pmap_vcolor[u] = WHITE
-- 
2.43.0


From 32a78dbe83f55374710765f0a198588d4b1d68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 11/59] fix: parallel_breadth_first_search colours its sources,
 passes the right graph to finish_vertex and supports NodeAutomaton

---
 src/pybgl/node_automaton.py                |  2 +-
 src/pybgl/parallel_breadth_first_search.py | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 91b7448..55d16f4 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -72,7 +72,7 @@ class NodeAutomaton(Automaton):
         Returns:
             The reached state (if any), :py:data:`BOTTOM` otherwise.
         """
-        return self.adjacencies[q].get(a, BOTTOM)
+        return self.adjacencies.get(q, dict()).get(a, BOTTOM)
 
     def add_edge(self, q: int, r: int) -> tuple:
         """
diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index bde529e..23a419a 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -250,17 +250,18 @@ def parallel_breadth_first_search(
     if source_pairs is None:
         q01 = g1.initial()
         q02 = g2.initial()
-        stack.appendleft((q01, q02))
-        vis.start_vertex(q01, g1, q02, g2)
-    else:
-        for (s1, s2) in source_pairs:
-            stack.appendleft((s1, s2))
-            vis.start_vertex(s1, g1, s2, g2)
+        source_pairs = [(q01, q02)]
 
     if not pmap_vcolor:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
 
+    for (s1, s2) in source_pairs:
+        if pmap_vcolor[(s1, s2)] == WHITE:
+            pmap_vcolor[(s1, s2)] = GRAY
+            stack.appendleft((s1, s2))
+            vis.start_vertex(s1, g1, s2, g2)
+
     if not if_push:
         if_push = (lambda e1, g1, e2, g2: True)
 
@@ -285,4 +286,4 @@ def parallel_breadth_first_search(
             else:
                 vis.black_target(e1, g1, e2, g2, a)
         pmap_vcolor[(q1, q2)] = BLACK
-        vis.finish_vertex(q1, g2, q2, g2)
+        vis.finish_vertex(q1, g1, q2, g2)
-- 
2.43.0


From 0cf257af4b634931414b173e577a7b0923fcc189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 12/59] fix: deterministic intersection and union must accept
 exactly the product language

---
 src/pybgl/deterministic_intersection.py | 9 +++++++--
 src/pybgl/deterministic_union.py        | 5 +++++
 src/pybgl/product_mixin.py              | 2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 377b5db..99cb982 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -30,6 +30,11 @@ class DeterministicIntersectionVisitor(
         """
         super().__init__(g12, lambda a, b: a and b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        # Overloaded method
+        # The initial state exists even if it has no out-transition.
+        self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
@@ -81,9 +86,9 @@ def deterministic_intersection(
         vis=vis,
         if_push=lambda e1, g1, e2, g2: (
             e1 is not None
-            and g1.target(e1)
+            and g1.target(e1) is not BOTTOM
             and e2 is not None
-            and g2.target(e2)
+            and g2.target(e2) is not BOTTOM
         )
     )
     return g12
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 73e0d85..6f003b6 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -30,6 +30,11 @@ class DeterministicUnionVisitor(
         """
         super().__init__(g12, lambda a, b: a or b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        # Overloaded method
+        # The initial state exists even if it has no out-transition.
+        self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 894f68d..165c110 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -52,7 +52,7 @@ class ProductMixin:
             i.e. ``self.g12``.
         """
         q12 = self.g12.add_vertex()
-        if self.operator(g1.is_initial(q1), g2.is_initial(q2)):
+        if g1.is_initial(q1) and g2.is_initial(q2):
             self.g12.set_initial(q12)
         if self.operator(g1.is_final(q1), g2.is_final(q2)):
             self.g12.set_final(q12)
-- 
2.43.0


From e40e9bd2b85e483cdc5e14736dbd943fb9679f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 13/59] fix: Heap.decrease_key must not reorder the heap while
 it scans it

---
 src/pybgl/heap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/heap.py b/src/pybgl/heap.py
index 45bd9fc..e70f232 100644
--- a/src/pybgl/heap.py
+++ b/src/pybgl/heap.py
@@ -203,10 +203,11 @@ class Heap:
         self.index += 1
 
     def decrease_key(self, element: object):
+        comparable = self.to_comparable(element)
         for (i, (_, index, x)) in enumerate(self._data):
             if element == x:
-                self._data[i] = (self.to_comparable(element), index, element)
-                heapq.heapify(self._data)
+                self._data[i] = (comparable, index, element)
+        heapq.heapify(self._data)
 
     def pop(self) -> tuple:
         """
-- 
2.43.0


From 2021858ebea780e9682f0cc0ac687d99316e6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 14/59] fix: path extraction must terminate in presence of
 zero-weight cycles

---
 src/pybgl/dijkstra_shortest_paths.py | 30 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 2abb979..afae44f 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -318,15 +318,18 @@ def make_shortest_paths_dag(
     Returns:
         The corresponding set of arcs.
     """
+    if single_path:
+        if s != t and not pmap_vpreds[t]:
+            return set()
+        return set(make_shortest_path(g, s, t, pmap_vpreds))
+
     kept_edges = set()
     to_process = {t}
     done = set()
     while to_process:
         es = {e for u in to_process if pmap_vpreds[u] for e in pmap_vpreds[u]}
-        if single_path and es:
-            es = {es.pop()}
         kept_edges |= es
-        predecessors = {g.source(e) for e in es if e not in done}
+        predecessors = {g.source(e) for e in es}
         done |= to_process
         to_process = predecessors - done
     return kept_edges
@@ -356,13 +359,22 @@ def make_shortest_path(
         If several shortest paths exist from ``s`` to ``t``,
         this function returns an arbitrary shortest path.
     """
-# USELESS |    arcs = make_dag(g, s, t, pmap_vpreds, single_path=True)
-    u = t
+    # Explore the predecessors from t and visit each vertex at most once:
+    # the predecessors may form cycles if some arcs have a null weight.
+    map_next = {t: None}
+    to_process = [t]
+    while s not in map_next:
+        for e in pmap_vpreds[to_process.pop()]:
+            u = g.source(e)
+            if u not in map_next:
+                map_next[u] = e
+                to_process.append(u)
+
     path = list()
-    while u != s:
-        e = list(pmap_vpreds[u])[0]
-        path.insert(0, e)
-        u = g.source(e)
+    u = s
+    while u != t:
+        path.append(map_next[u])
+        u = g.target(map_next[u])
     return path
 
 
-- 
2.43.0


From 0d631cce07ac715b60e4d7a58b7cca7c41decae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 15/59] fix: AggregatedVisitor must forward keyword arguments

---
 src/pybgl/aggregated_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 9bbdc66..1c28389 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -29,7 +29,7 @@ class AggregatedVisitor:
         """
         def wrapper(*args, **kwargs):
             for vis in self.visitors:
-                getattr(vis, method_name)(*args)
+                getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
     @staticmethod
-- 
2.43.0


From 75477d30fca48b1fb81294802038e106b2f6c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 16/59] fix: a Singleton class must be instantiated at most
 once across threads

---
 src/pybgl/singleton.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/singleton.py b/src/pybgl/singleton.py
index 93477b8..532854d 100644
--- a/src/pybgl/singleton.py
+++ b/src/pybgl/singleton.py
@@ -4,6 +4,9 @@
 # This file is part of the PyBGL project.
 # https://github.com/nokia/pybgl
 
+from threading import RLock
+
+
 class Singleton(type):
     """
     The :py:class:`Singleton` allows to define singleton classes, i.e.
@@ -20,6 +23,7 @@ class Singleton(type):
     """
 
     s_instances = dict()
+    s_lock = RLock()  # Reentrant: a singleton may involve another singleton
 
     def __call__(cls, *args, **kwargs):
         """
@@ -33,9 +37,10 @@ class Singleton(type):
         Returns:
             The singleton corresponding to ``cls``.
         """
-        if cls not in cls.s_instances:
-            cls.s_instances[cls] = super(Singleton, cls).__call__(
-                *args,
-                **kwargs
-            )
-        return cls.s_instances[cls]
+        with Singleton.s_lock:
+            if cls not in cls.s_instances:
+                cls.s_instances[cls] = super(Singleton, cls).__call__(
+                    *args,
+                    **kwargs
+                )
+            return cls.s_instances[cls]
-- 
2.43.0


From bb4a6f92d981195123f7ab555b7b74d2b8f9ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 17/59] fix: hopcroft_minimize must support automata whose
 states are all (non-)final

---
 src/pybgl/hopcroft_minimize.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 85564c5..49b1023 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -28,14 +28,16 @@ def hopcroft_agglomerate_states(g: IncidenceAutomaton) -> set:
 
     g_alphabet = g.alphabet()
     final_states = {q for q in g.vertices() if g.is_final(q)}
+    # Ignore empty groups (i.e., if no state is final or if all of them are).
     aggregated_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
-    }
-    waiting_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
+        qs
+        for qs in (
+            frozenset(final_states),
+            frozenset(g.vertices()) - final_states
+        )
+        if qs
     }
+    waiting_states = set(aggregated_states)
     while waiting_states != set():
         current_states = waiting_states.pop()
         for a in g_alphabet:
-- 
2.43.0


From 5f4b722aabaebf5318791a99a00a952a768cfe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 18/59] fix: automaton_copy default property maps

---
 src/pybgl/automaton_copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index f1cfec5..36efcca 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -96,10 +96,10 @@ def automaton_copy(
 
     # Prepare the AutomatonCopyVisitor
     if not pmap_vertices:
-        map_vertices = dict()
+        map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
     if not pmap_edges:
-        map_edges = dict()
+        map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
     vis = AutomatonCopyVisitor(
-- 
2.43.0


From 038e537cab1fb412638a4685526bad9c32b464be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 19/59] fix: optional repetitions of a regular expression must
 not accept partial words

---
 src/pybgl/thompson_compile_nfa.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 489458d..b4f9dad 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -195,9 +195,18 @@ def zero_or_one(nfa: Nfa, q0: int, f: int) -> tuple:
         ``q0`` is its initial state;
         ``f`` is its initial state.
     """
+    # The bypass must neither start from a state that can be re-entered nor end
+    # in a state that can be left, hence the new initial and final states.
     eps = nfa.epsilon
-    nfa.add_edge(q0, f, eps)
-    return (nfa, q0, f)
+    new_q0 = nfa.add_vertex()
+    new_f = nfa.add_vertex()
+    nfa.add_edge(new_q0, q0, eps)
+    nfa.add_edge(f, new_f, eps)
+    nfa.add_edge(new_q0, new_f, eps)
+    nfa.set_initials({new_q0})
+    nfa.set_final(f, False)
+    nfa.set_final(new_f, True)
+    return (nfa, new_q0, new_f)
 
 
 def zero_or_more(nfa: Nfa, q0: int, f: int) -> tuple:
@@ -326,19 +335,11 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         (nfa2, q02, f2) = one_or_more(ori, q0, f)
         return concatenation(nfa1, q01, f1, nfa2, q02, f2)
     else:
-        (q0_ori, f_ori, ori) = (q0, f, copy.deepcopy(nfa))
-        (nfa, _, f) = repetition(nfa, q0, f, m)
-        final_states = {f}
-        # The m-n following NFA instances are optional. We add them
-        # one by one to get their respective final states to build an
-        # epsilon-transition toward a same and unique final state.
-        for i in range(n - m):
-            (nfa, q0, f) = concatenation(nfa, q0, f, ori, q0_ori, f_ori)
-            final_states.add(f)
-        eps = nfa.epsilon
-        for pred_f in final_states:
-            if pred_f != f:
-                nfa.add_edge(pred_f, f, eps)
+        # The n-m last NFA instances are optional.
+        (opt, q0_opt, f_opt) = zero_or_one(ori, q0, f)
+        (nfa, q0, f) = repetition(nfa, q0, f, m)
+        for _ in range(n - m):
+            (nfa, q0, f) = concatenation(nfa, q0, f, opt, q0_opt, f_opt)
         return (nfa, q0, f)
 
 
-- 
2.43.0


From ed153c26d1e3f30738c4c9698f5aa1ed74eb9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 20/59] fix: a trailing dash in a bracket expression is a
 literal dash

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index b4f9dad..01db775 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -441,7 +441,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
 
     while i < imax - 1:
         a = s[i]
-        if a == "-" and last_non_hat:
+        if a == "-" and last_non_hat and i + 1 < imax - 1:
             m = ord(last_non_hat)
             n = ord(s[i + 1])
             if m > n:
-- 
2.43.0


From b2dfa3993e7f8db48bdd9060b2b0d4cef4b963f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 21/59] fix: unary plus and prefix operators following a binary
 operator

---
 src/pybgl/shunting_yard_postfix.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 16e3bd6..fb7ce84 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -337,6 +337,12 @@ def shunting_yard_postfix(
         Returns:
             ``o1`` is priorer than ``o2``.
         """
+        if (
+            map_operators[o2].cardinality == 1
+            and map_operators[o2].associativity == RIGHT
+        ):
+            # o2 is a prefix operator: the operand of o1 is still to come.
+            return False
         return (
             (
                 map_operators[o2].associativity == RIGHT and
@@ -742,7 +748,7 @@ class RpnDequeAlg(RpnDequeOperation):
             return x ** y
         elif a == "u-":
             return -x
-        elif a == "u-":
+        elif a == "u+":
             return x
         else:
             raise ValueError(f"Unsupported operator '{a}'")
-- 
2.43.0


From 04b5ed87ec9f7fabca2d5066f692409f476fd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 22/59] fix: shunting_yard_compute must accept tokenized
 expressions

---
 src/pybgl/shunting_yard_postfix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index fb7ce84..d5279dd 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -782,9 +782,10 @@ def shunting_yard_compute(
         The output ``float`` result.
     """
     if tokenize:
-        output = RpnDequeAlg(map_operators=map_operators)
+        expression = tokenizer_alg(expression)
+    output = RpnDequeAlg(map_operators=map_operators)
     ret = shunting_yard_postfix(
-        tokenizer_alg(expression),
+        expression,
         map_operators,
         output,
         vis
-- 
2.43.0


From 68012449318edd17f22dcd57c1de30aea5ee125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 23/59] fix: Ast.to_expr must render the tree from its root

---
 src/pybgl/shunting_yard_postfix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index d5279dd..ef828a0 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -590,14 +590,14 @@ class Ast(DirectedGraph):
             if d == 0:
                 return a
             elif d == 1:
-                child = self.children(u)[0]
+                [child] = self.children(u)
                 return f"({to_expr_rec(child)}){a}"
             else:
                 return "(%s)" % a.join(
                     to_expr_rec(child)
                     for child in self.children(u)
                 )
-        if self.root:
+        if self.root is None:
             raise RuntimeError("self.root is not initialized")
         return to_expr_rec(self.root)
 
@@ -683,6 +683,7 @@ def shunting_yard_ast(
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
     root = ret.pop()
+    ast.root = root
     return (ast, root)
 
 
-- 
2.43.0


From f952faeebf3ac79da2ee3b87aa088f1da9bfe1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 24/59] fix: read_graphviz_dp must build its visitor and ignore
 unknown attributes

---
 src/pybgl/graphviz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index c5979c1..059360a 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -176,18 +176,18 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
     Graphviz file.
     """
     def __init__(self, g, dpv: dict, dpe: dict):
-        super().__init__(g)
+        super().__init__()
         self.dpv = dpv
         self.dpe = dpe
 
     def on_install_vertex_property(self, u, g, key, value):
-        pmap = self.dpv[key] if self.dpv else None
-        if pmap:
+        pmap = self.dpv.get(key) if self.dpv else None
+        if pmap is not None:
             pmap[u] = value
 
     def on_install_edge_property(self, e, g, key, value):
-        pmap = self.dpe[key] if self.dpe else None
-        if pmap:
+        pmap = self.dpe.get(key) if self.dpe else None
+        if pmap is not None:
             pmap[e] = value
 
 
-- 
2.43.0


From 3b004edf87d6bb8b865c0da9ccc22a3b9fff987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 25/59] fix: read_graphviz must read the edges of undirected
 graphs

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 059360a..f764aa3 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -106,7 +106,7 @@ class ReadGraphvizVisitor(GraphvizVisitor):
 
 PATTERN_SPACE = "\\s*"
 PATTERN_VERTEX_ID = "([0-9]+)"
-PATTERN_EDGE_CONNECTOR = "->"  # TODO manage -- for undirected graphs
+PATTERN_EDGE_CONNECTOR = "-[->]"  # TODO manage -- for undirected graphs
 PATTERN_OPTS = "(\\[(.*)\\])?"
 PATTERN_LINE_VERTEX = PATTERN_SPACE.join(
     [PATTERN_VERTEX_ID, PATTERN_OPTS, ";"]
-- 
2.43.0


From 452276a2f41f8501296b98cfa0413465c9f79668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 26/59] fix: write_graphviz must support svg and binary formats
 and not clobber the output on failure

---
 src/pybgl/graphviz.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index f764aa3..0d8d684 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -317,18 +317,22 @@ def write_graphviz(
         format: str = "svg",
         engine: str = "dot"
     ) -> bool:
-        ret = False
-        bytes_img = run_graphviz(s_dot, engine, format)
-        if bytes_img:
-            print(bytes_img.decode("utf-8"), file=f)
-            ret = True
-        return ret
-
-    if isinstance(filename, str):
-        with open(filename, "w") as f:
-            return write_graphviz_impl(s_dot, f, format, engine)
-    else:
-        return write_graphviz_impl(s_dot, filename, format, engine)
+        img = run_graphviz(s_dot, engine, format)
+        if not img:
+            return False
+        if isinstance(f, str):
+            # The file is opened only once the image is available, so that a
+            # failed rendering leaves any existing file untouched.
+            data = img.encode("utf-8") if isinstance(img, str) else img
+            with open(f, "wb") as f_out:
+                f_out.write(data)
+        elif isinstance(img, str):
+            print(img, file=f)
+        else:
+            f.write(img)
+        return True
+
+    return write_graphviz_impl(s_dot, filename, format, engine)
 
 
 def dotstr_to_html(s_dot: str, engine: str = "dot") -> str:
-- 
2.43.0


From 31f1d57d3a0d9b7c0ec75c65bd165a0e9c8bd69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 27/59] fix: run_graphviz must report its failures whatever the
 encoding of stderr

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 0d8d684..3e03432 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -257,7 +257,7 @@ def run_graphviz(s_dot: str, engine: str = None, format: str = "svg") -> bytes:
         error(
             f"dot returned {status}\n"
             "[==== stderr ====]\n"
-            f"{stderr_data.decode('utf-8')}\n"
+            f"{stderr_data.decode('utf-8', 'replace')}\n"
             "Input dot string was:\n"
             f"{s_dot}\n"
         )
-- 
2.43.0


From d95bc2b504dde6d769a8cf938b25bf899f4ddec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 28/59] fix: to_dot must not alter the dictionaries passed by
 its caller

---
 src/pybgl/graphviz_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index e4417e4..2030ca4 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -351,8 +351,8 @@ def enrich_kwargs(default_d: dict, key: str, **kwargs) -> dict:
         The updated ``**kwargs``.
     """
     if default_d:
-        if key not in kwargs:
-            kwargs[key] = dict()
+        # Copy the dictionary, as it belongs to the caller.
+        kwargs[key] = dict(kwargs.get(key) or dict())
         for (k, v) in default_d.items():
             if k not in kwargs[key].keys():
                 kwargs[key][k] = v
-- 
2.43.0


From d7b4c381226f1f5cf5469284135b86aebcd04d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 29/59] fix: GraphDp.get_dpe and GraphDp.extra_style

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 5066e9f..bfa0b9b 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -73,7 +73,7 @@ class GraphDp:
         return self.dpv
 
     def get_dpe(self) -> dict:
-        return self.dpve
+        return self.dpe
 
     def get_dg(self) -> dict:
         return self.dg
@@ -97,7 +97,8 @@ class GraphDp:
         kwargs = enrich_kwargs(self.dg, "dg", **kwargs)
         kwargs = enrich_kwargs(self.dv, "dv", **kwargs)
         kwargs = enrich_kwargs(self.de, "de", **kwargs)
-        kwargs = enrich_kwargs(self.extra_style, "extra_style", **kwargs)
+        if self.extra_style and not kwargs.get("extra_style"):
+            kwargs["extra_style"] = ";\n  ".join(self.extra_style)
         return to_dot(self.g, **kwargs)
 
     # TODO GraphView
-- 
2.43.0


From 38915587b4124e62db0649839e2b1da633b3f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 30/59] fix: display_svg must advertise the file once it is
 written

---
 src/pybgl/ipynb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/ipynb.py b/src/pybgl/ipynb.py
index ca96615..cbe1726 100644
--- a/src/pybgl/ipynb.py
+++ b/src/pybgl/ipynb.py
@@ -91,9 +91,9 @@ def display_svg(svg, filename_svg: str, background_color: str = None):
         >>> g.add_edge(0, 1)
         >>> display_svg(graph_to_html(g), "g.svg", background_color="white")
     """
-    with open(filename_svg, "w") as f:
+    with open(filename_svg, "w", encoding="utf-8") as f:
         print(svg, file=f)
-        html(f"<a href='{filename_svg}' target='_blank'>View</a>")
+    html(f"<a href='{filename_svg}' target='_blank'>View</a>")
     template_html = background_template_html(background_color)
     html(template_html % svg)
 
-- 
2.43.0


From 3132f722cdf45ed3ba6b9fece5edede25212b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 31/59] fix: the union of node automata must label its
 transitions to dead states

---
 src/pybgl/product_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 165c110..a810157 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -83,14 +83,16 @@ class ProductMixin:
         if e1:
             q1 = g1.source(e1)
             r1 = g1.target(e1)
-            a = g1.label(e1)
+            if r1 is not BOTTOM:
+                a = g1.label(e1)
         else:
             q1 = r1 = BOTTOM
 
         if e2:
             q2 = g2.source(e2)
             r2 = g2.target(e2)
-            a = g2.label(e2)
+            if r2 is not BOTTOM:
+                a = g2.label(e2)
         else:
             q2 = r2 = BOTTOM
 
-- 
2.43.0


From 15775e2c71f2bba51ab317000ce37e11751fe971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 32/59] fix: shunting_yard_postfix must reject an unclosed
 parenthesis

---
 src/pybgl/shunting_yard_postfix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index ef828a0..711b0de 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -404,7 +404,10 @@ def shunting_yard_postfix(
             push_output(a)
 
     while operators:
-        push_output(pop_operator())
+        o = pop_operator()
+        if o == "(":
+            raise RuntimeError("Mismatched parentheses")
+        push_output(o)
     return output
 
 
-- 
2.43.0


From 6d5ef1e04a53cda565ba8649e898fb1b0e566836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 33/59] fix: run_graphviz must not leave a child process behind
 when it is interrupted

---
 src/pybgl/graphviz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 3e03432..b23bcc7 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -245,9 +245,9 @@ def run_graphviz(s_dot: str, engine: str = None, format: str = "svg") -> bytes:
     if engine is None:
         engine = "dot"
     cmd = ['dot', '-T' + format, '-K', engine]
-    dot = Popen(cmd, stdin=PIPE, stdout=PIPE, stderr=PIPE)
-    stdout_data, stderr_data = dot.communicate(s_dot.encode("utf-8"))
-    status = dot.wait()
+    with Popen(cmd, stdin=PIPE, stdout=PIPE, stderr=PIPE) as dot:
+        stdout_data, stderr_data = dot.communicate(s_dot.encode("utf-8"))
+        status = dot.wait()
     if status == 0:
         if format == "svg":
             return stdout_data.decode("utf-8")
-- 
2.43.0


From 0b07ed1f4da11e0e932d39a06d1e55ded892afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:59 +0000
Subject: [PATCH 34/59] fix: GraphvizOptsParser must not mistake the separators
 for attributes

---
 src/pybgl/graphviz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index b23bcc7..7c6e711 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -30,7 +30,10 @@ class GraphvizOptsParser(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
         for (k, v) in attrs:
-            self.d[k] = v
+            # The separators are not part of the attribute names.
+            k = k.lstrip(",;")
+            if k:
+                self.d[k] = v
 
     def feed(self, graphviz_opts):
         if graphviz_opts:
-- 
2.43.0


From 74ad72908dc8ed8cae0ab97e40d57e39b91977d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 35/59] fix: an explicitly empty set of initial states is not
 the default one, and belongs to the caller

---
 src/pybgl/nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 5beeeb8..32f6307 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -44,7 +44,7 @@ class Nfa(DirectedGraph):
             epsilon (str): The symbol assigned to the epsilon-transition.
         """
         super().__init__(num_vertices)
-        self.initials = initials if initials else {0}
+        self.initials = {0} if initials is None else {q0 for q0 in initials}
         if not pmap_vfinal:
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
-- 
2.43.0


From bf9265ac91fd5a0f03ff6c4c3226804fb3d3c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 36/59] fix: a range of a bracket expression may be bounded by
 escaped symbols, and never by an operator

---
 src/pybgl/thompson_compile_nfa.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 01db775..732f537 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -443,7 +443,13 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
         a = s[i]
         if a == "-" and last_non_hat and i + 1 < imax - 1:
             m = ord(last_non_hat)
-            n = ord(s[i + 1])
+            last = {s[i + 1]}
+            if s[i + 1] == "\\":
+                last = parse_escaped(s[i+1:i+3], whole_alphabet)
+                i += 1
+            if len(last) != 1:
+                raise ValueError(f"Invalid end of interval in s = {s}")
+            n = ord(min(last))
             if m > n:
                 raise ValueError(
                     f"Invalid end of interval in s = {s} at index m = {m}"
@@ -451,13 +457,17 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
             for c in range(m, n + 1):
                 accepted.add(chr(c))
             i += 1
+            # The end of a range does not start another one.
+            last_non_hat = None
+        elif a == "\\":
+            chars = parse_escaped(s[i:i+2], whole_alphabet)
+            accepted |= chars
+            i += 1
+            # A range may start by an escaped symbol, but not by a class.
+            last_non_hat = min(chars) if len(chars) == 1 else None
         else:
-            if a == "\\":
-                accepted |= parse_escaped(s[i:i+2])
-                i += 1
-            else:
-                accepted.add(a)
-        last_non_hat = a
+            accepted.add(a)
+            last_non_hat = a
         i += 1
     return accepted if not reverse else set(whole_alphabet) - accepted
 
-- 
2.43.0


From 0151b9b8281586d12e631165dc081551e7734321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 37/59] fix: the lower bound of a repetition may be omitted

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 711b0de..3378f47 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -148,7 +148,7 @@ RE_OPERATORS_RE = [
     for op in list(MAP_OPERATORS_RE.keys()) + ["(", ")"]
 ] + [
     # Extra repetition operators
-    "\\{\\s*\\d+(\\s*,)?(\\s*\\d+)?\\s*\\}",
+    "\\{\\s*(\\d+(\\s*,)?(\\s*\\d+)?|,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
     '\\[([^]])*\\]',
-- 
2.43.0


From 144171b8f489a7c783ac48ce17a25722b8a566c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 38/59] fix: an escaped closing bracket does not end a bracket
 expression

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 3378f47..e7e3440 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -151,7 +151,7 @@ RE_OPERATORS_RE = [
     "\\{\\s*(\\d+(\\s*,)?(\\s*\\d+)?|,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
-    '\\[([^]])*\\]',
+    '\\[(\\\\.|[^]\\\\])*\\]',
     # Escape sequences (not exhaustive)
     "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}])",
 ]
-- 
2.43.0


From 61f558fe55c95e9390c3ec089e0357ab9ce285c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 39/59] fix: graph_extract and graph_copy must extract each
 undirected edge once

---
 src/pybgl/graph_copy.py    | 2 ++
 src/pybgl/graph_extract.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/pybgl/graph_copy.py b/src/pybgl/graph_copy.py
index 9cb3af1..f82296d 100644
--- a/src/pybgl/graph_copy.py
+++ b/src/pybgl/graph_copy.py
@@ -108,6 +108,8 @@ class DepthFirstSearchCopyVisitor(DepthFirstSearchExtractVisitor):
         (e_dup, _) = self.g_dup.add_edge(u_dup, v_dup)
         if self.pmap_edges:
             self.pmap_edges[e] = e_dup
+            if g.directed is False:
+                self.pmap_edges[EdgeDescriptor(v, u, e.distinguisher)] = e_dup
         if self.callback_dup_edge:
             self.callback_dup_edge(e, g, e_dup, self.g_dup)
 
diff --git a/src/pybgl/graph_extract.py b/src/pybgl/graph_extract.py
index 11aadd0..08291ec 100644
--- a/src/pybgl/graph_extract.py
+++ b/src/pybgl/graph_extract.py
@@ -62,6 +62,7 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
         self.pmap_vcolor = pmap_vcolor
         self.callback_vertex_extract = callback_vertex_extract
         self.callback_edge_extract = callback_edge_extract
+        self.undirected_edges = set()
 
     def discover_vertex(self, u: int, g: Graph):
         """
@@ -94,6 +95,12 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
             g (Graph): The considered graph.
         """
         if self.pmap_erelevant[e] and self.pmap_vrelevant[g.target(e)]:
+            if g.directed is False:
+                # An undirected edge is examined from both of its ends.
+                key = (frozenset((g.source(e), g.target(e))), e.distinguisher)
+                if key in self.undirected_edges:
+                    return
+                self.undirected_edges.add(key)
             self.examine_relevant_edge(e, g)
 
 
-- 
2.43.0


From 80c26084c7d345fd355d1dcf4a3f473b669e5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 40/59] fix: revuz_minimize must keep an initial state when it
 merges it

---
 src/pybgl/revuz_minimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pybgl/revuz_minimize.py b/src/pybgl/revuz_minimize.py
index 9af7c89..7052442 100644
--- a/src/pybgl/revuz_minimize.py
+++ b/src/pybgl/revuz_minimize.py
@@ -233,6 +233,9 @@ def revuz_minimize(
                     p = g.source(e2)
                     _move_edge(e2, p, q1)
 
+                if g.is_initial(q2):
+                    g.set_initial(q1)
+
                 # Remove q2, which is now isolated
                 vis.remove_vertex(q2, g)
                 g.remove_vertex(q2)
-- 
2.43.0


From 809a4eb96f98ab49b0e0d57202a01ba614bb8d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 41/59] fix: the escaped backslash, caret and dollar that
 re_escape emits are regular expressions

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index e7e3440..6fa5923 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -153,7 +153,7 @@ RE_OPERATORS_RE = [
     # "\\[.*\\]",
     '\\[(\\\\.|[^]\\\\])*\\]',
     # Escape sequences (not exhaustive)
-    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}])",
+    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
 
 
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 732f537..7cc1797 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -509,7 +509,8 @@ def parse_escaped(s: str, whole_alphabet: iter = None) -> set:
     if len(s) == 2:
         if s in {
             r"\+", r"\*", r"\?", r"\.", r"\|",
-            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}"
+            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}",
+            r"\^", r"\$", "\\\\"
         }:
             return {s[1]}
         elif s in {r"\A", r"\B", r"\Z"}:
-- 
2.43.0


From 4e5389cc0402970db0c9f1565fef8084161d7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 42/59] fix: Ast.to_expr must write prefix operators before
 their operand

---
 src/pybgl/shunting_yard_postfix.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 6fa5923..a58e5df 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -505,7 +505,8 @@ class Ast(DirectedGraph):
         self,
         pmap_vsymbol: ReadWritePropertyMap = None,
         num_vertices: int = 0,
-        root: int = None
+        root: int = None,
+        map_operators: dict = None
     ):
         """
         Constructor.
@@ -518,8 +519,11 @@ class Ast(DirectedGraph):
                 If the AST is empty, pass ``0``.
             root (int): The vertex descriptor of the root of the
                 AST. If the AST is empty, pass ``None``.
+            map_operators (dict): Maps each operator with its corresponding
+                characteristics. Needed to recognize the prefix operators.
         """
         super().__init__(num_vertices)
+        self.map_operators = map_operators or dict()
         if not pmap_vsymbol:
             self.map_vlabel = defaultdict()
             self.pmap_vsymbol = make_assoc_property_map(self.map_vlabel)
@@ -594,6 +598,12 @@ class Ast(DirectedGraph):
                 return a
             elif d == 1:
                 [child] = self.children(u)
+                op = self.map_operators.get(a)
+                if op and op.associativity == RIGHT:
+                    # Prefix operator. Note that tokenizer_alg turns the
+                    # unary "+" and "-" to "u+" and "u-".
+                    a = a[1:] if a in {"u+", "u-"} else a
+                    return f"({a}({to_expr_rec(child)}))"
                 return f"({to_expr_rec(child)}){a}"
             else:
                 return "(%s)" % a.join(
@@ -681,7 +691,7 @@ def shunting_yard_ast(
         instance representing the expression and ``root`` is its
         root node.
     """
-    ast = Ast()
+    ast = Ast(map_operators=map_operators)
     output = RpnDequeAst(map_operators=map_operators, ast=ast)
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
-- 
2.43.0


From 37e0c9c7453c8b8c0f3ff01b0ef92db3b8b18ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 43/59] fix: factors of length at most 0 are the empty word
 only

---
 src/pybgl/suffix_trie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index f673cbf..1c89a88 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -33,7 +33,7 @@ def slices(n, max_len: int = None) -> iter:
             for i in range(n)
             for j in range(
                 i + 1,
-                min(n, i + max_len) + 1 if max_len else n + 1
+                min(n, i + max_len) + 1 if max_len is not None else n + 1
             )
         )
     )
@@ -90,7 +90,7 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
     n = len(w)
     for i in range(n):
         q = g.initial()
-        for j in range(i, min(n, i + max_len) if max_len else n):
+        for j in range(i, min(n, i + max_len) if max_len is not None else n):
             a = w[j]
             r = g.delta(q, a)
             if r is BOTTOM:
-- 
2.43.0


From 9ed02aa996c92f9eac6856dea10ceb6cec238f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 44/59] fix: an event must reach every aggregated visitor
 though some of them leave meanwhile

---
 src/pybgl/aggregated_visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 1c28389..e9ad43e 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -28,7 +28,8 @@ class AggregatedVisitor:
                 method implemented in each nested visitor.
         """
         def wrapper(*args, **kwargs):
-            for vis in self.visitors:
+            # A nested visitor may alter self.visitors.
+            for vis in list(self.visitors):
                 getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
-- 
2.43.0


From 6db14b3d238bf326946cf32c19c2f7e0783b97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 45/59] fix: stacked repetitions of a regular expression apply
 in the order they are written

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index a58e5df..2a681a4 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -137,7 +137,7 @@ MAP_OPERATORS_RE = {
     # Unary operators
     "*":  Op(cardinality=1, precedence=4, associativity=LEFT),
     "+":  Op(cardinality=1, precedence=4, associativity=LEFT),
-    "?":  Op(cardinality=1, precedence=3, associativity=LEFT),
+    "?":  Op(cardinality=1, precedence=4, associativity=LEFT),
     # Binary operators
     ".":  Op(cardinality=2, precedence=2, associativity=LEFT),
     "|":  Op(cardinality=2, precedence=1, associativity=LEFT),
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 7cc1797..f186613 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -598,8 +598,14 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
                 (nfa1, q01, f1) = literal(a)
             self.nfas.append((nfa1, q01, f1))
 
+    # A repetition "{m}", "{m,n}" is a postfix operator, like "*".
+    map_operators = dict(MAP_OPERATORS_RE)
+    for a in expression:
+        if a[0] == "{":
+            map_operators[a] = MAP_OPERATORS_RE["*"]
+
     vis = ThompsonShuntingYardVisitor()
-    shunting_yard_postfix(expression, map_operators=MAP_OPERATORS_RE, vis=vis)
+    shunting_yard_postfix(expression, map_operators=map_operators, vis=vis)
     assert len(vis.nfas) == 1
     (nfa, q0, f) = vis.nfas.pop()
     return (nfa, q0, f)
-- 
2.43.0


From ddd28642d37d807f418c4da129297abad9315cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 46/59] fix: make_suffix_trie must store the factors in the
 trie it is given

---
 src/pybgl/suffix_trie.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index 1c89a88..944fa28 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -88,6 +88,8 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
 
     # Optimized version, designed by Elie.
     n = len(w)
+    if not g.is_final(g.initial()):
+        g.set_final(g.initial())
     for i in range(n):
         q = g.initial()
         for j in range(i, min(n, i + max_len) if max_len is not None else n):
@@ -96,5 +98,7 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
             if r is BOTTOM:
                 r = g.add_vertex()
                 g.add_edge(q, r, a)
+            if not g.is_final(r):
+                g.set_final(r)
             q = r
     return g
-- 
2.43.0


From 2f0eb5480c6e0a6fb775e93107b9d24684299155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 47/59] fix: GraphDp.to_json must write valid JSON whatever the
 attributes

---
 src/pybgl/graph_dp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index bfa0b9b..520d289 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -4,6 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
+import json
 from copy import copy
 from .graph import Graph
 from .graphviz import GraphvizStyle, enrich_kwargs, graphviz_type, to_dot
@@ -116,6 +117,9 @@ class GraphDp:
         Returns:
             The corresponding JSON string.
         """
+        def json_str(x: object) -> str:
+            return json.dumps(str(x), ensure_ascii=False)
+
         if vs is None:
             vs = self.g.vertices()
         if es is None:
@@ -127,7 +131,7 @@ class GraphDp:
                     JSON_NODE_FORMAT % {
                         "id": u,
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[u])
+                            "%s: %s" % (json_str(k), json_str(pmap[u]))
                             for k, pmap in self.dpv.items()
                         ]),
                         "sep": "," if self.dpv else "",
@@ -138,7 +142,7 @@ class GraphDp:
                         "source": self.g.source(e),
                         "target": self.g.target(e),
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[e])
+                            "%s: %s" % (json_str(k), json_str(pmap[e]))
                             for k, pmap in self.dpe.items()
                         ]),
                         "sep": "," if self.dpe else "",
-- 
2.43.0


From 3de2b76228b0d416442fe37dddb3fc132ca51600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 48/59] fix: an edge of infinite weight does not make a vertex
 reachable

---
 src/pybgl/dijkstra_shortest_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index afae44f..b64f5a7 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -123,7 +123,7 @@ def dijkstra_shortest_paths_initialization(
         vis = DijkstraVisitor()
 
     # WHITE: not yet processed, GRAY: under process, BLACK: processed.
-    pmap_vcolor[s] = WHITE
+    pmap_vcolor[s] = GRAY
     for u in g.vertices():
         pmap_vdist[u] = zero if u == s else infty
         vis.initialize_vertex(u, g)
@@ -173,7 +173,7 @@ def dijkstra_shortest_paths_iteration(
             elif pmap_vcolor[v] == GRAY:
                 heap.decrease_key(v)
             vis.edge_relaxed(e, g)
-        elif w == w_sv:  # Hence we discover equally-cost shortest paths
+        elif w == w_sv and pmap_vcolor[v] != WHITE:  # Hence we discover equally-cost shortest paths
             preds_v = pmap_vpreds[v]
             preds_v.add(e)
             pmap_vpreds[v] = preds_v
-- 
2.43.0


From 0e29da9bbc4239656c1eb502131f4561664d3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 49/59] fix: a removed state is not initial anymore

---
 src/pybgl/automaton.py                | 7 +++++++
 src/pybgl/incidence_automaton.py      | 1 +
 src/pybgl/incidence_node_automaton.py | 1 +
 src/pybgl/nfa.py                      | 7 +++++++
 4 files changed, 16 insertions(+)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab7eb8b..04af83c 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -54,10 +54,17 @@ class Automaton(DirectedGraph):
         else:
             self.pmap_vfinal = pmap_vfinal
 
+    def remove_vertex(self, q: int):
+        # Overloaded method
+        super().remove_vertex(q)
+        self.set_initial(q, False)
+
     def clear(self):
         # Overloaded method
         # The vertex descriptors are recycled: forget the final states.
+        q0 = self.q0
         super().clear()
+        self.q0 = q0
         if hasattr(self, "map_vfinal"):
             self.map_vfinal.clear()
 
diff --git a/src/pybgl/incidence_automaton.py b/src/pybgl/incidence_automaton.py
index 2d708a1..76d23d7 100644
--- a/src/pybgl/incidence_automaton.py
+++ b/src/pybgl/incidence_automaton.py
@@ -67,6 +67,7 @@ class IncidenceAutomaton(Automaton):
                     # This test is required to cope with parallel (q, r) edges.
                     del self.in_adjacencies[r][q]
             del self.adjacencies[q]
+        self.set_initial(q, False)
 
     def remove_edge(self, e: EdgeDescriptor):
         # Overloaded method
diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c6d17cc..433ed7e 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -62,6 +62,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                     # This test is required to cope with parallel (q, r) edges.
                     self.predecessors[r].remove(q)
             del self.adjacencies[q]
+        self.set_initial(q, False)
 
     def remove_edge(self, e: EdgeDescriptor):
         # Overloaded method
diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 32f6307..339c67f 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -52,10 +52,17 @@ class Nfa(DirectedGraph):
             self.pmap_vfinal = pmap_vfinal
         self.epsilon = epsilon
 
+    def remove_vertex(self, q: int):
+        # Overloaded method
+        super().remove_vertex(q)
+        self.set_initial(q, False)
+
     def clear(self):
         # Overloaded method
         # The vertex descriptors are recycled: forget the final states.
+        initials = set(self.initials)
         super().clear()
+        self.initials = initials
         if hasattr(self, "map_vfinal"):
             self.map_vfinal.clear()
 
-- 
2.43.0


From 10b6bfb6461b4b2fa2274b61515fef038383e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 50/59] fix: a pruning that cannot read the finals leaves the
 automaton as it was

---
 src/pybgl/prune_incidence_automaton.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/prune_incidence_automaton.py b/src/pybgl/prune_incidence_automaton.py
index d5fffef..8d66948 100644
--- a/src/pybgl/prune_incidence_automaton.py
+++ b/src/pybgl/prune_incidence_automaton.py
@@ -37,8 +37,10 @@ def prune_incidence_automaton(g: IncidenceAutomaton):
     """
     to_keep = find_reachable_vertices(g, {g.initial()})
     reverse_graph(g)
-    to_keep &= find_reachable_vertices(g, g.finals())
-    reverse_graph(g)
+    try:
+        to_keep &= find_reachable_vertices(g, g.finals())
+    finally:
+        reverse_graph(g)
     to_remove = set(g.vertices()) - to_keep
     for q in to_remove:
         g.remove_vertex(q)
-- 
2.43.0


From 28af243d59a771ab05ab23fc5b5fb6a4d4c39007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 51/59] fix: intersection and union of automata without initial
 state

---
 src/pybgl/deterministic_intersection.py | 8 ++++++--
 src/pybgl/deterministic_union.py        | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 99cb982..4f97cf6 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -33,7 +33,8 @@ class DeterministicIntersectionVisitor(
     def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
         # Overloaded method
         # The initial state exists even if it has no out-transition.
-        self.get_or_create_product_vertex(s1, g1, s2, g2)
+        if s1 is not BOTTOM or s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
 
     def examine_edge(
         self,
@@ -56,7 +57,10 @@ class DeterministicIntersectionVisitor(
                 of the intersection.
             a (str): The symbol that labels ``e1`` and ``e2``.
         """
-        if g1.target(e1) is not BOTTOM and g2.target(e2) is not BOTTOM:
+        if (
+            e1 is not None and g1.target(e1) is not BOTTOM and
+            e2 is not None and g2.target(e2) is not BOTTOM
+        ):
             self.add_product_edge(e1, g1, e2, g2)
 
 
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 6f003b6..6584501 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -4,7 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
-from .automaton import Automaton, EdgeDescriptor
+from .automaton import BOTTOM, Automaton, EdgeDescriptor
 from .parallel_breadth_first_search import (
     ParallelBreadthFirstSearchVisitor,
     parallel_breadth_first_search,
@@ -33,7 +33,8 @@ class DeterministicUnionVisitor(
     def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
         # Overloaded method
         # The initial state exists even if it has no out-transition.
-        self.get_or_create_product_vertex(s1, g1, s2, g2)
+        if s1 is not BOTTOM or s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
 
     def examine_edge(
         self,
-- 
2.43.0


From a177aa8004f7232a4b703b671879f6f88c659dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 52/59] fix: the names of the attributes read from a graph
 description keep their case

---
 src/pybgl/graphviz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 7c6e711..6869265 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -6,7 +6,7 @@
 
 import re
 import sys
-from html.parser import HTMLParser
+from html.parser import HTMLParser, attrfind_tolerant
 from subprocess import Popen, PIPE
 from .graph import Graph, EdgeDescriptor
 from .graphviz_impl import *
@@ -29,7 +29,10 @@ class GraphvizOptsParser(HTMLParser):
         self.d = dict()
 
     def handle_starttag(self, tag, attrs):
-        for (k, v) in attrs:
+        # HTMLParser lowers the attribute names, which are case-sensitive in Graphviz.
+        text = self.get_starttag_text()
+        names = (m.group(1) for m in attrfind_tolerant.finditer(text, len(tag) + 1))
+        for (k, (_, v)) in zip(names, attrs):
             # The separators are not part of the attribute names.
             k = k.lstrip(",;")
             if k:
-- 
2.43.0


From f64732e2bdbabfae5a6326ecfc28c423cdd661bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 53/59] fix: double quotes in attribute values are escaped in
 graph descriptions

---
 src/pybgl/graphviz.py      |  6 ++++++
 src/pybgl/graphviz_impl.py | 26 +++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 6869265..058c382 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -40,6 +40,12 @@ class GraphvizOptsParser(HTMLParser):
 
     def feed(self, graphviz_opts):
         if graphviz_opts:
+            # In HTML, a backslash does not escape a double quote.
+            graphviz_opts = re.sub(
+                r"\\.",
+                lambda m: "&quot;" if m.group(0) == '\\"' else m.group(0),
+                graphviz_opts
+            )
             graphviz_opts = "<fake_tag " + graphviz_opts[1:-1] + ">"
             super().feed(graphviz_opts)
 
diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index 2030ca4..eafb9e3 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -14,6 +14,26 @@ from .tokenize import TokenizeVisitor, tokenize
 # Graphviz style
 # ------------------------------------------------------------------
 
+RE_GRAPHVIZ_QUOTED = re.compile(r'\\.|"|\\\Z', re.DOTALL)
+
+
+def graphviz_escape_quoted(x: object) -> str:
+    """
+    Internal method, used to write an attribute value between double quotes.
+    The sequences that are already escaped are left as is.
+
+    Args:
+        x (object): The attribute value.
+
+    Returns:
+        The corresponding Graphviz string.
+    """
+    return RE_GRAPHVIZ_QUOTED.sub(
+        lambda m: m.group(0) if len(m.group(0)) == 2 else "\\" + m.group(0),
+        str(x)
+    )
+
+
 class GraphvizStyle(metaclass=Singleton):
     """
     The :py:class:`GraphvizStyle` class is a singleton that
@@ -92,7 +112,7 @@ class GraphvizStyle(metaclass=Singleton):
         return "%s [%s]" % (
             prefix,
             "; ".join([
-                "%s=\"%s\"" % (k, v) for k, v in d.items()
+                "%s=\"%s\"" % (k, graphviz_escape_quoted(v)) for k, v in d.items()
             ])
         ) if d else ""
 
@@ -220,7 +240,7 @@ def graphviz_properties_to_str(x: object, dpx: dict) -> str:
         The resulting Graphviz string.
     """
     return "[%s]" % "; ".join([
-        f"{k}=\"{pmap[x]}\"" if k != "label"
+        f"{k}=\"{graphviz_escape_quoted(pmap[x])}\"" if k != "label"
         else f"{k}=<{graphviz_escape_html(str(pmap[x]))}>"
         for (k, pmap) in dpx.items()
         if pmap[x] is not None
@@ -296,7 +316,7 @@ def graphviz_dx_to_dot(prefix: str, dx: dict) -> str:
     return "%s [%s]" % (
         prefix,
         "; ".join([
-            f"{k}=\"{v}\""
+            f"{k}=\"{graphviz_escape_quoted(v)}\""
             for (k, v) in dx.items()
         ])
     ) if dx else ""
-- 
2.43.0


From 10953b59f7dc415c8f952b13c3510a3adf5836eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 54/59] fix: caller-supplied property maps, visitors and
 predicates are used even when they are falsy

---
 src/pybgl/aggregated_visitor.py            |  2 +-
 src/pybgl/automaton.py                     |  4 ++--
 src/pybgl/automaton_copy.py                | 12 ++++++------
 src/pybgl/breadth_first_search.py          |  2 +-
 src/pybgl/deterministic_intersection.py    |  4 ++--
 src/pybgl/deterministic_union.py           |  4 ++--
 src/pybgl/dijkstra_shortest_paths.py       |  7 +++++--
 src/pybgl/graph_copy.py                    | 14 +++++++-------
 src/pybgl/graph_dp.py                      |  4 ++--
 src/pybgl/graph_extract.py                 |  8 ++++----
 src/pybgl/graph_view.py                    |  4 ++--
 src/pybgl/graphviz.py                      |  2 +-
 src/pybgl/graphviz_impl.py                 |  2 +-
 src/pybgl/heap.py                          |  2 +-
 src/pybgl/nfa.py                           |  2 +-
 src/pybgl/node_automaton.py                |  2 +-
 src/pybgl/parallel_breadth_first_search.py |  4 ++--
 src/pybgl/revuz_minimize.py                | 14 +++++++-------
 src/pybgl/shunting_yard_postfix.py         |  4 ++--
 src/pybgl/thompson_compile_nfa.py          |  2 +-
 20 files changed, 51 insertions(+), 48 deletions(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index e9ad43e..c2822d6 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -16,7 +16,7 @@ class AggregatedVisitor:
         Args:
             visitors (list): A list of visitors exposing the same callbacks.
         """
-        self.visitors = visitors if visitors else list()
+        self.visitors = visitors if visitors is not None else list()
 
     def __getattr__(self, method_name: str):
         """
diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 04af83c..2cdf095 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -48,7 +48,7 @@ class Automaton(DirectedGraph):
         """
         super().__init__(num_vertices)
         self.q0 = q0
-        if not pmap_vfinal:
+        if pmap_vfinal is None:
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
         else:
@@ -804,7 +804,7 @@ def make_automaton(
     Returns:
         The corresponding automaton.
     """
-    if not pmap_vfinal:
+    if pmap_vfinal is None:
         pmap_vfinal = make_assoc_property_map(defaultdict(bool))
     vertex_names = sorted(
         list(
diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index 36efcca..74c33bd 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -48,9 +48,9 @@ class AutomatonCopyVisitor(DepthFirstSearchCopyVisitor):
             self.dup_vertex(v, g)
         )
         (e_dup, _) = self.g_dup.add_edge(u_dup, v_dup, a)
-        if self.pmap_edges:
+        if self.pmap_edges is not None:
             self.pmap_edges[e] = e_dup
-        if self.callback_dup_edge:
+        if self.callback_dup_edge is not None:
             self.callback_dup_edge(e, g, e_dup, self.g_dup)
 
 
@@ -89,16 +89,16 @@ def automaton_copy(
     map_vcolor = defaultdict(int)
     pmap_vcolor = make_assoc_property_map(map_vcolor)
 
-    if not pmap_vrelevant:
+    if pmap_vrelevant is None:
         pmap_vrelevant = make_func_property_map(lambda u: True)
-    if not pmap_erelevant:
+    if pmap_erelevant is None:
         pmap_erelevant = make_func_property_map(lambda e: True)
 
     # Prepare the AutomatonCopyVisitor
-    if not pmap_vertices:
+    if pmap_vertices is None:
         map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
-    if not pmap_edges:
+    if pmap_edges is None:
         map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 3b7da25..13f3b7a 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -164,7 +164,7 @@ def breadth_first_search_graph(
         pmap_vcolor = make_assoc_property_map(map_vcolor)
     if vis is None:
         vis = DefaultBreadthFirstSearchVisitor()
-    if not if_push:
+    if if_push is None:
         if_push = (lambda e, g: True)
 
     stack = deque()
diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 4f97cf6..bbc335b 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -81,9 +81,9 @@ def deterministic_intersection(
             In the end, it will be the intersection automaton.
         vis (DeterministicIntersectionVisitor): An optional visitor.
     """
-    if not g12:
+    if g12 is None:
         g12 = Automaton()
-    if not vis:
+    if vis is None:
         vis = DeterministicIntersectionVisitor(g12)
     parallel_breadth_first_search(
         g1, g2,
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 6584501..ca78a16 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -77,9 +77,9 @@ def deterministic_union(
         vis (DeterministicUnionVisitor): An optional visitor.
     """
 
-    if not g12:
+    if g12 is None:
         g12 = Automaton()
-    if not vis:
+    if vis is None:
         vis = DeterministicUnionVisitor(g12)
     parallel_breadth_first_search(g1, g2, vis=vis)
     return g12
diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index b64f5a7..c33a9fc 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -262,7 +262,7 @@ def dijkstra_shortest_paths(
     )
 
     # Iteration
-    if not compare:
+    if compare is None:
         compare = Less()
         heap = Heap(
             [s],
@@ -460,7 +460,10 @@ def dijkstra_shortest_path(
         vis (DijkstraVisitor): An optional visitor.
     """
     vis_towards = DijkstraTowardsVisitor(t)
-    vis = AggregatedVisitor([vis, vis_towards]) if vis else vis_towards
+    vis = (
+        vis_towards if vis is None
+        else AggregatedVisitor([vis, vis_towards])
+    )
     try:
         dijkstra_shortest_paths(
             g, s,
diff --git a/src/pybgl/graph_copy.py b/src/pybgl/graph_copy.py
index f82296d..51f46ec 100644
--- a/src/pybgl/graph_copy.py
+++ b/src/pybgl/graph_copy.py
@@ -88,7 +88,7 @@ class DepthFirstSearchCopyVisitor(DepthFirstSearchExtractVisitor):
         u_dup = self.g_dup.add_vertex()
         self.pmap_vertices[u] = u_dup
         self.dup_vertices.add(u)
-        if self.callback_dup_vertex:
+        if self.callback_dup_vertex is not None:
             self.callback_dup_vertex(u, g, u_dup, self.g_dup)
         return u_dup
 
@@ -106,11 +106,11 @@ class DepthFirstSearchCopyVisitor(DepthFirstSearchExtractVisitor):
             else self.dup_vertex(v, g)
         )
         (e_dup, _) = self.g_dup.add_edge(u_dup, v_dup)
-        if self.pmap_edges:
+        if self.pmap_edges is not None:
             self.pmap_edges[e] = e_dup
             if g.directed is False:
                 self.pmap_edges[EdgeDescriptor(v, u, e.distinguisher)] = e_dup
-        if self.callback_dup_edge:
+        if self.callback_dup_edge is not None:
             self.callback_dup_edge(e, g, e_dup, self.g_dup)
 
 
@@ -149,16 +149,16 @@ def graph_copy(
     map_vcolor = defaultdict(int)
     pmap_vcolor = make_assoc_property_map(map_vcolor)
 
-    if not pmap_vrelevant:
+    if pmap_vrelevant is None:
         pmap_vrelevant = make_func_property_map(lambda u: True)
-    if not pmap_erelevant:
+    if pmap_erelevant is None:
         pmap_erelevant = make_func_property_map(lambda e: True)
 
     # Prepare the DepthFirstSearchCopyVisitor.
-    if not pmap_vertices:
+    if pmap_vertices is None:
         map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
-    if not pmap_edges:
+    if pmap_edges is None:
         map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 520d289..5cbf993 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -62,8 +62,8 @@ class GraphDp:
             extra_style (list): Extra style (splines, etc).
         """
         self.g = g
-        self.dpv = dpv if dpv else dict()  # Vertex attributes
-        self.dpe = dpe if dpe else dict()  # Edge attributes
+        self.dpv = dpv if dpv is not None else dict()  # Vertex attributes
+        self.dpe = dpe if dpe is not None else dict()  # Edge attributes
         gs = GraphvizStyle()
         self.dg = dg if dg else copy(gs.graph)
         self.dv = dv if dv else copy(gs.node)
diff --git a/src/pybgl/graph_extract.py b/src/pybgl/graph_extract.py
index 08291ec..5e6c250 100644
--- a/src/pybgl/graph_extract.py
+++ b/src/pybgl/graph_extract.py
@@ -72,7 +72,7 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
             u (int): The discovered vertex.
             g (Graph): The considered graph.
         """
-        if self.callback_vertex_extract:
+        if self.callback_vertex_extract is not None:
             self.callback_vertex_extract(u, g)
 
     def examine_relevant_edge(self, e: EdgeDescriptor, g: Graph):
@@ -83,7 +83,7 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
             e (EdgeDescriptor): The discovered edge.
             g (Graph): The considered graph.
         """
-        if self.callback_edge_extract:
+        if self.callback_edge_extract is not None:
             self.callback_edge_extract(e, g)
 
     def examine_edge(self, e: EdgeDescriptor, g: Graph):
@@ -134,9 +134,9 @@ def graph_extract(
         callback_edge_extract (callable): Callback triggered
             when discovering an edge to extract.
     """
-    if not pmap_vrelevant:
+    if pmap_vrelevant is None:
         pmap_vrelevant = make_func_property_map(lambda u: True)
-    if not pmap_erelevant:
+    if pmap_erelevant is None:
         pmap_erelevant = make_func_property_map(lambda e: True)
 
     map_vcolor = defaultdict(int)
diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 9b7c7bb..e42c6f2 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -38,11 +38,11 @@ class GraphView:
         """
         self.g = g
         self.pmap_vrelevant = (
-            pmap_vrelevant if pmap_vrelevant else
+            pmap_vrelevant if pmap_vrelevant is not None else
             make_func_property_map(lambda u: True)
         )
         self.pmap_erelevant = (
-            pmap_erelevant if pmap_erelevant else
+            pmap_erelevant if pmap_erelevant is not None else
             make_func_property_map(lambda e: True)
         )
 
diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 058c382..d5886e8 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -153,7 +153,7 @@ def read_graphviz(iterable, g: Graph, vis: ReadGraphvizVisitor = None):
         g (Graph): Pass an empty :py:class:`DirectedGraph`
             or :py:class:`UndirectedGraph` instance.
     """
-    if not vis:
+    if vis is None:
         vis = ReadGraphvizVisitor()
     if isinstance(iterable, str):
         iterable = iterable.splitlines()
diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index eafb9e3..7d8ff64 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -280,7 +280,7 @@ def vertex_to_graphviz(
     Returns:
         The corresponding Graphviz string.
     """
-    if not vertex_to_str:
+    if vertex_to_str is None:
         vertex_to_str = str
     return " ".join([vertex_to_str(u), graphviz_properties_to_str(u, dpv)])
 
diff --git a/src/pybgl/heap.py b/src/pybgl/heap.py
index e70f232..a05470c 100644
--- a/src/pybgl/heap.py
+++ b/src/pybgl/heap.py
@@ -29,7 +29,7 @@ class Comparable(object):
             preorder: A `callable` acting as a preorder.
         """
         self.obj = obj
-        assert preorder
+        assert preorder is not None
         self.preorder = preorder
 
     def __lt__(self, other: object) -> bool:
diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 339c67f..94a0316 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -45,7 +45,7 @@ class Nfa(DirectedGraph):
         """
         super().__init__(num_vertices)
         self.initials = {0} if initials is None else {q0 for q0 in initials}
-        if not pmap_vfinal:
+        if pmap_vfinal is None:
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
         else:
diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 55d16f4..60dc62d 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -315,7 +315,7 @@ def make_node_automaton(
     Returns:
         The corresponding `NodeAutomatonClass` instance.
     """
-    if not pmap_vfinal:
+    if pmap_vfinal is None:
         pmap_vfinal = make_assoc_property_map(defaultdict(bool))
     vertex_names = sorted(
         list(
diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index 23a419a..05ea756 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -252,7 +252,7 @@ def parallel_breadth_first_search(
         q02 = g2.initial()
         source_pairs = [(q01, q02)]
 
-    if not pmap_vcolor:
+    if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
 
@@ -262,7 +262,7 @@ def parallel_breadth_first_search(
             stack.appendleft((s1, s2))
             vis.start_vertex(s1, g1, s2, g2)
 
-    if not if_push:
+    if if_push is None:
         if_push = (lambda e1, g1, e2, g2: True)
 
     while stack:
diff --git a/src/pybgl/revuz_minimize.py b/src/pybgl/revuz_minimize.py
index 7052442..28f9869 100644
--- a/src/pybgl/revuz_minimize.py
+++ b/src/pybgl/revuz_minimize.py
@@ -142,7 +142,7 @@ def revuz_minimize(
     Returns:
         The height of g.
     """
-    if not vis:
+    if vis is None:
         vis = DefaultRevuzMinimizeVisitor()
 
     # Height are pre-computed to guarantee that a state is pushed in to_process
@@ -152,31 +152,31 @@ def revuz_minimize(
     _ = revuz_height(g, pmap_vheight)  # Init pmap_vheight
 
     # Mappings
-    if not pmap_vlabel and isinstance(g, IncidenceNodeAutomaton):
+    if pmap_vlabel is None and isinstance(g, IncidenceNodeAutomaton):
         pmap_vlabel = make_func_property_map(g.symbol)
-    if not pmap_elabel:
+    if pmap_elabel is None:
         if isinstance(g, IncidenceAutomaton):
             pmap_elabel = make_func_property_map(g.label)
         elif isinstance(g, IncidenceNodeAutomaton):
             pmap_elabel = make_func_property_map(
                 lambda e: pmap_vlabel[g.target(e)]
             )
-    assert pmap_vlabel or pmap_elabel
+    assert pmap_vlabel is not None or pmap_elabel is not None
 
     def _make_signature(q: int) -> tuple:
         return (
             g.is_final(q),
-            pmap_vlabel[q] if pmap_vlabel else None,
+            pmap_vlabel[q] if pmap_vlabel is not None else None,
             frozenset({
                 (
-                    pmap_elabel[e] if pmap_elabel else None,
+                    pmap_elabel[e] if pmap_elabel is not None else None,
                     g.target(e)
                 ) for e in g.out_edges(q)
             })
         )
 
     def _move_edge(e_old: EdgeDescriptor, q: int, r: int):
-        a = pmap_elabel[e_old] if pmap_elabel else None
+        a = pmap_elabel[e_old] if pmap_elabel is not None else None
         g.remove_edge(e_old)
 # Due to determinism, merging parents transitions should never be required.
 #
diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 2a681a4..6d0ff55 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -524,7 +524,7 @@ class Ast(DirectedGraph):
         """
         super().__init__(num_vertices)
         self.map_operators = map_operators or dict()
-        if not pmap_vsymbol:
+        if pmap_vsymbol is None:
             self.map_vlabel = defaultdict()
             self.pmap_vsymbol = make_assoc_property_map(self.map_vlabel)
         else:
@@ -635,7 +635,7 @@ class RpnDequeAst(RpnDequeOperation):
             ast (Ast): The output AST.
         """
         super().__init__(*cls, **kwargs)
-        self.ast = ast if ast else Ast()
+        self.ast = ast if ast is not None else Ast()
 
     def on_append(self, a: str) -> int:
         """
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index f186613..b510016 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -77,7 +77,7 @@ def insert_automaton(g1: Nfa, g2: Nfa, map21: dict = None) -> dict:
         A dictionary precising how the state of ``g2`` have
         been reindexed once inserted in ``g1``.
     """
-    if not map21:
+    if map21 is None:
         map21 = dict()
     for q2 in g2.vertices():
         if q2 in map21.keys():
-- 
2.43.0


From 44b03cf7e36e7ae419697febe70815ec8172515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 55/59] fix: GraphView.to_dot accepts any iterable of vertices
 and edges

---
 src/pybgl/graph_view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index e42c6f2..d482451 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -275,7 +275,7 @@ class GraphView:
         vs_ = kwargs.pop("vs", None)
         es_ = kwargs.pop("es", None)
         return self.g.to_dot(
-            vs=(vs & vs_) if vs_ is not None else vs,
-            es=(es & es_) if es_ is not None else es,
+            vs=[u for u in vs_ if u in vs] if vs_ is not None else vs,
+            es=[e for e in es_ if e in es] if es_ is not None else es,
             *cls, **kwargs
         )
-- 
2.43.0


From 1f2773096db55de31ff693b974b0ab4e4f89280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 56/59] fix: an empty default style yields no empty Graphviz
 statement

---
 src/pybgl/graphviz_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index 7d8ff64..4bbd6dd 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -123,12 +123,14 @@ class GraphvizStyle(metaclass=Singleton):
         Returns:
             The corresponding string.
         """
+        # Graphviz does not allow empty statements.
         return "; ".join(
-            [
+            instruction for instruction in [
                 GraphvizStyle.attributes_to_dot("graph", GraphvizStyle.graph),
                 GraphvizStyle.attributes_to_dot("node", GraphvizStyle.node),
                 GraphvizStyle.attributes_to_dot("edge", GraphvizStyle.edge)
             ] + GraphvizStyle.extra_style
+            if instruction
         )
 
 
-- 
2.43.0


From eea24a04f9099e3714f65d788964b459be728b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 57/59] fix: hopcroft_minimize returns another automaton even
 if there is no state

---
 src/pybgl/hopcroft_minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 49b1023..f0dc156 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -75,7 +75,7 @@ def hopcroft_minimize(g: IncidenceAutomaton) -> IncidenceAutomaton:
         The minimized automaton.
     """
     if not g.has_vertex():
-        return g
+        return IncidenceAutomaton()
     aggregated_states = list(hopcroft_agglomerate_states(g))
 
     # Find the aggregated state corresponding to the initial state
-- 
2.43.0


From e411f07dc69268362c16c0f662ee14acefa67167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 58/59] fix: compiled expressions use an epsilon that no
 character can be mistaken for

---
 src/pybgl/thompson_compile_nfa.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index b510016..9021eb5 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -41,12 +41,13 @@ DEFAULT_ALPHABET = string.printable
 #   \x    escape sequence
 # -------------------------------------------------------------
 
-def literal(a: str) -> Nfa:
+def literal(a: str, epsilon: str = EPSILON) -> Nfa:
     """
     Builds a NFA that recognizes a single symbol.
 
     Args:
         a (str): The considered symbol.
+        epsilon (str): The empty word of the built NFA.
 
     Returns:
         A ``(nfa, q0, f)`` tuple, where:
@@ -55,7 +56,7 @@ def literal(a: str) -> Nfa:
         ``q0`` is its initial state;
         ``f`` is its initial state;
     """
-    nfa = Nfa(2)
+    nfa = Nfa(2, epsilon=epsilon)
     nfa.add_edge(0, 1, a)
     nfa.set_final(1)
     return (nfa, 0, 1)
@@ -90,6 +91,8 @@ def insert_automaton(g1: Nfa, g2: Nfa, map21: dict = None) -> dict:
         q2 = g2.source(e2)
         r2 = g2.target(e2)
         a = g2.label(e2)
+        if a == getattr(g2, "epsilon", None):
+            a = g1.epsilon
         q1 = map21[q2]
         r1 = map21[r2]
         g1.add_edge(q1, r1, a)
@@ -289,7 +292,7 @@ def repetition(nfa: Nfa, q0: int, f: int, m: int) -> tuple:
     """
     assert m >= 0
     if m == 0:
-        nfa = Nfa(1)
+        nfa = Nfa(1, epsilon=nfa.epsilon)
         nfa.set_final(0)
         (nfa, q0, f) = (nfa, 0, 0)
     elif m > 1:
@@ -343,13 +346,14 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         return (nfa, q0, f)
 
 
-def bracket(chars: iter) -> tuple:
+def bracket(chars: iter, epsilon: str = EPSILON) -> tuple:
     """
     Builds a NFA that recognizes a set of words made of exactly one
     symbol of the alphabet.
 
     Args:
         chars (iter): The recognized symbols.
+        epsilon (str): The empty word of the built NFA.
 
     Returns:
         A ``(nfa, q0, f)`` tuple, where:
@@ -357,7 +361,7 @@ def bracket(chars: iter) -> tuple:
         ``q0`` is its initial state;
         ``f`` is its initial state.
     """
-    nfa = Nfa(2)
+    nfa = Nfa(2, epsilon=epsilon)
     nfa.set_final(1)
     for a in chars:
         nfa.add_edge(0, 1, a)
@@ -548,8 +552,10 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
         The correspoding NFA, made of single initial state and a single
         final state.
     """
+    # Any character, including EPSILON, may be a symbol of the expression.
+    epsilon = ""
     if not expression:
-        g = Nfa(1)
+        g = Nfa(1, epsilon=epsilon)
         g.set_final(0)
         return (g, 0, 0)
     if whole_alphabet is None:
@@ -590,12 +596,12 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
                 (nfa1, q01, f1) = repetition_range(nfa1, q01, f1, m, n)
             elif a[0] == "[":
                 chars = parse_bracket(a, whole_alphabet)
-                (nfa1, q01, f1) = bracket(chars)
+                (nfa1, q01, f1) = bracket(chars, epsilon)
             elif a[0] == "\\":
                 chars = parse_escaped(a, whole_alphabet)
-                (nfa1, q01, f1) = bracket(chars)
+                (nfa1, q01, f1) = bracket(chars, epsilon)
             else:
-                (nfa1, q01, f1) = literal(a)
+                (nfa1, q01, f1) = literal(a, epsilon)
             self.nfas.append((nfa1, q01, f1))
 
     # A repetition "{m}", "{m,n}" is a postfix operator, like "*".
-- 
2.43.0


From 6fd07eed215ad2ff6ac6cb31461d360d62e9ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 59/59] fix: edit distances of long words do not exceed the
 recursion limit

---
 src/pybgl/damerau_levenshtein_distance.py | 51 +++++++++++++----------
 src/pybgl/lcs_distance.py                 | 34 ++++++++++-----
 src/pybgl/levenshtein_distance.py         | 35 ++++++++++------
 3 files changed, 76 insertions(+), 44 deletions(-)

diff --git a/src/pybgl/damerau_levenshtein_distance.py b/src/pybgl/damerau_levenshtein_distance.py
index dfd181b..41c139e 100644
--- a/src/pybgl/damerau_levenshtein_distance.py
+++ b/src/pybgl/damerau_levenshtein_distance.py
@@ -74,28 +74,37 @@ class DamerauLevenshteinDistance:
             The minimal number of insertion/deletion/substitution/swap
             operations needed to transform ``x`` into ``y``.
         """
-
-        ret = self.memoize.get((i, j))
-        if ret is None:
-            ret = self.memoize[(i, j)] = (
-                len(self.x) - i if not j < len(self.y) else
-                len(self.y) - j if not i < len(self.x) else
-                self.compute(i + 1, j + 1) if self.x[i] == self.y[j] else
-                1 + min(
-                    [
-                        self.compute(i + 1, j),
-                        self.compute(i, j + 1),
-                        self.compute(i + 1, j + 1)
-                    ] + (
-                        [self.compute(i + 2, j + 2)] if (
-                            i + 1 < len(self.x) and j + 1 < len(self.y)
-                            and self.x[i] == self.y[j + 1]
-                            and self.x[i + 1] == self.y[j]
-                        ) else []
-                    )
+        # Long words would exceed the recursion limit, hence this stack.
+        to_process = [(i, j)]
+        while to_process:
+            (k, l) = to_process[-1]
+            if not l < len(self.y):
+                ret = len(self.x) - k
+            elif not k < len(self.x):
+                ret = len(self.y) - l
+            else:
+                same = (self.x[k] == self.y[l])
+                needed = (
+                    [(k + 1, l + 1)] if same else
+                    [(k + 1, l), (k, l + 1), (k + 1, l + 1)]
                 )
-            )
-        return ret
+                if (
+                    not same
+                    and k + 1 < len(self.x) and l + 1 < len(self.y)
+                    and self.x[k] == self.y[l + 1]
+                    and self.x[k + 1] == self.y[l]
+                ):
+                    needed.append((k + 2, l + 2))
+                missing = [kl for kl in needed if kl not in self.memoize]
+                if missing:
+                    to_process += missing
+                    continue
+                ret = min(self.memoize[kl] for kl in needed)
+                if not same:
+                    ret += 1
+            self.memoize[(k, l)] = ret
+            to_process.pop()
+        return self.memoize[(i, j)]
 
 
 def damerau_levenshtein_distance(x: str, y: str) -> int:
diff --git a/src/pybgl/lcs_distance.py b/src/pybgl/lcs_distance.py
index 074bd16..76b009c 100644
--- a/src/pybgl/lcs_distance.py
+++ b/src/pybgl/lcs_distance.py
@@ -63,18 +63,30 @@ class LcsDistance:
             The minimal number of insertion/deletion operations needed to
             transform ``x`` into ``y``.
         """
-        ret = self.memoize.get((i, j))
-        if ret is None:
-            ret = self.memoize[(i, j)] = (
-                len(self.x) - i if not j < len(self.y) else
-                len(self.y) - j if not i < len(self.x) else
-                self.compute(i + 1, j + 1) if self.x[i] == self.y[j] else
-                1 + min(
-                    self.compute(i + 1, j),
-                    self.compute(i, j + 1),
+        # Long words would exceed the recursion limit, hence this stack.
+        to_process = [(i, j)]
+        while to_process:
+            (k, l) = to_process[-1]
+            if not l < len(self.y):
+                ret = len(self.x) - k
+            elif not k < len(self.x):
+                ret = len(self.y) - l
+            else:
+                same = (self.x[k] == self.y[l])
+                needed = (
+                    [(k + 1, l + 1)] if same else
+                    [(k + 1, l), (k, l + 1)]
                 )
-            )
-        return ret
+                missing = [kl for kl in needed if kl not in self.memoize]
+                if missing:
+                    to_process += missing
+                    continue
+                ret = min(self.memoize[kl] for kl in needed)
+                if not same:
+                    ret += 1
+            self.memoize[(k, l)] = ret
+            to_process.pop()
+        return self.memoize[(i, j)]
 
 
 def lcs_distance(x: str, y: str) -> int:
diff --git a/src/pybgl/levenshtein_distance.py b/src/pybgl/levenshtein_distance.py
index 5efc694..1710aa6 100644
--- a/src/pybgl/levenshtein_distance.py
+++ b/src/pybgl/levenshtein_distance.py
@@ -64,19 +64,30 @@ class LevenshteinDistance:
             The minimal number of insertion/deletion/substitution
             operations needed to transform ``x`` into ``y``.
         """
-        ret = self.memoize.get((i, j))
-        if ret is None:
-            ret = self.memoize[(i, j)] = (
-                len(self.x) - i if not j < len(self.y) else
-                len(self.y) - j if not i < len(self.x) else
-                self.compute(i + 1, j + 1) if self.x[i] == self.y[j] else
-                1 + min(
-                    self.compute(i + 1, j),
-                    self.compute(i, j + 1),
-                    self.compute(i + 1, j + 1),
+        # Long words would exceed the recursion limit, hence this stack.
+        to_process = [(i, j)]
+        while to_process:
+            (k, l) = to_process[-1]
+            if not l < len(self.y):
+                ret = len(self.x) - k
+            elif not k < len(self.x):
+                ret = len(self.y) - l
+            else:
+                same = (self.x[k] == self.y[l])
+                needed = (
+                    [(k + 1, l + 1)] if same else
+                    [(k + 1, l), (k, l + 1), (k + 1, l + 1)]
                 )
-            )
-        return ret
+                missing = [kl for kl in needed if kl not in self.memoize]
+                if missing:
+                    to_process += missing
+                    continue
+                ret = min(self.memoize[kl] for kl in needed)
+                if not same:
+                    ret += 1
+            self.memoize[(k, l)] = ret
+            to_process.pop()
+        return self.memoize[(i, j)]
 
 
 def levenshtein_distance(x: str, y: str) -> int:
-- 
2.43.0

