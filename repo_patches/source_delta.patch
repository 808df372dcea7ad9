From 7c56bf9f76ef5e324f16f75582ab8455b680f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 01/48] fix: Automaton.add_edge refused no duplicate when the
 existing target is state 0

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab74894..27a7d1b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -89,7 +89,7 @@ class Automaton(DirectedGraph):
         """
         assert q is not None
         assert r is not None
-        if self.delta(q, a):
+        if self.delta(q, a) is not BOTTOM:
             return (None, False)
         self.adjacencies[q][a] = r
         return (EdgeDescriptor(q, r, a), True)
-- 
2.43.0


From 7a0a69e5dd979e5d03ffe1bc370935b09cdc5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 02/48] fix: Nfa.edges and out_edges yielded unhashable
 descriptors, different from those of add_edge

---
 src/pybgl/nfa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 4637ce5..c2303b8 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -190,9 +190,9 @@ class Nfa(DirectedGraph):
             An iterator over the out-edges of ``u``.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, min(s)))
             for (a, rn) in self.adjacencies.get(q, dict()).items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
         )
 
     def edges(self):
@@ -204,10 +204,10 @@ class Nfa(DirectedGraph):
             An iterator over the transitions.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, min(s)))
             for (q, arn) in self.adjacencies.items()
             for (a, rn) in arn.items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
         )
 
     def alphabet(self) -> set:
-- 
2.43.0


From 0e1eca87b5d1c7a9896aa0d65996a399fd8daffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 03/48] fix: Nfa.remove_edge left the symbol of a removed
 transition in alphabet() and sigma()

---
 src/pybgl/nfa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index c2303b8..8e9fd7f 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -175,6 +175,8 @@ class Nfa(DirectedGraph):
         (a, n) = e.distinguisher
         try:
             del self.adjacencies[q][a][r]
+            if not self.adjacencies[q][a]:
+                del self.adjacencies[q][a]
         except KeyError:
             pass
 
-- 
2.43.0


From f2b70c3d2a93454a74a00d1892cb084fe6abddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 04/48] fix: deterministic_union could move the initial state
 to a pair holding only one initial state

---
 src/pybgl/product_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 894f68d..165c110 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -52,7 +52,7 @@ class ProductMixin:
             i.e. ``self.g12``.
         """
         q12 = self.g12.add_vertex()
-        if self.operator(g1.is_initial(q1), g2.is_initial(q2)):
+        if g1.is_initial(q1) and g2.is_initial(q2):
             self.g12.set_initial(q12)
         if self.operator(g1.is_final(q1), g2.is_final(q2)):
             self.g12.set_final(q12)
-- 
2.43.0


From 12a7c188d169b8b4041b6155b94b58d4d80f4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 05/48] fix: deterministic_intersection did not explore the
 pairs involving the state 0

---
 src/pybgl/deterministic_intersection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 377b5db..3b3f95f 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -81,9 +81,9 @@ def deterministic_intersection(
         vis=vis,
         if_push=lambda e1, g1, e2, g2: (
             e1 is not None
-            and g1.target(e1)
+            and g1.target(e1) is not BOTTOM
             and e2 is not None
-            and g2.target(e2)
+            and g2.target(e2) is not BOTTOM
         )
     )
     return g12
-- 
2.43.0


From a66371ae3ea6726f7cb58eb0114e9b5ca57adbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 06/48] fix: deterministic_union and deterministic_intersection
 lost the empty word when the product has no transition

---
 src/pybgl/deterministic_intersection.py | 12 ++++++++++++
 src/pybgl/deterministic_union.py        | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 3b3f95f..bf3c51d 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -30,6 +30,18 @@ class DeterministicIntersectionVisitor(
         """
         super().__init__(g12, lambda a, b: a and b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when the pair of initial states is pushed to the queue.
+
+        Args:
+            s1 (int): The initial state of ``g1``.
+            g1 (Automaton): The automaton corresponding to left operand.
+            s2 (int): The initial state of ``g2``.
+            g2 (Automaton): The automaton corresponding to right operand.
+        """
+        self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 73e0d85..c669048 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -30,6 +30,18 @@ class DeterministicUnionVisitor(
         """
         super().__init__(g12, lambda a, b: a or b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when the pair of initial states is pushed to the queue.
+
+        Args:
+            s1 (int): The initial state of ``g1``.
+            g1 (Automaton): The automaton corresponding to left operand.
+            s2 (int): The initial state of ``g2``.
+            g2 (Automaton): The automaton corresponding to right operand.
+        """
+        self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
-- 
2.43.0


From 0005056d22d9fbe1594cbc5bb1e906c51c33cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 07/48] fix: parallel_breadth_first_search passed g2 twice to
 finish_vertex

---
 src/pybgl/parallel_breadth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index bde529e..b8ff0bf 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -285,4 +285,4 @@ def parallel_breadth_first_search(
             else:
                 vis.black_target(e1, g1, e2, g2, a)
         pmap_vcolor[(q1, q2)] = BLACK
-        vis.finish_vertex(q1, g2, q2, g2)
+        vis.finish_vertex(q1, g1, q2, g2)
-- 
2.43.0


From 93e601112809d213cca34d571c7a386d8edf2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 08/48] fix: parallel_breadth_first_search discovered its
 source pairs a second time

---
 src/pybgl/parallel_breadth_first_search.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index b8ff0bf..3d63d6a 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -247,20 +247,17 @@ def parallel_breadth_first_search(
 
     if vis is None:
         vis = ParallelBreadthFirstSearchVisitor()
-    if source_pairs is None:
-        q01 = g1.initial()
-        q02 = g2.initial()
-        stack.appendleft((q01, q02))
-        vis.start_vertex(q01, g1, q02, g2)
-    else:
-        for (s1, s2) in source_pairs:
-            stack.appendleft((s1, s2))
-            vis.start_vertex(s1, g1, s2, g2)
-
     if not pmap_vcolor:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
 
+    if source_pairs is None:
+        source_pairs = [(g1.initial(), g2.initial())]
+    for (s1, s2) in source_pairs:
+        pmap_vcolor[(s1, s2)] = GRAY
+        stack.appendleft((s1, s2))
+        vis.start_vertex(s1, g1, s2, g2)
+
     if not if_push:
         if_push = (lambda e1, g1, e2, g2: True)
 
-- 
2.43.0


From 9d8938e219a0b7061a15bb162f85c35e65f10966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 09/48] fix: hopcroft_minimize failed when the states are all
 final or all non-final

---
 src/pybgl/hopcroft_minimize.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 85564c5..1d472b7 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -24,18 +24,19 @@ def hopcroft_agglomerate_states(g: IncidenceAutomaton) -> set:
         to a group of agglomerated states.
     """
     def union(sets) -> set:
-        return reduce(lambda a, b: a | b, sets)
+        return reduce(lambda a, b: a | b, sets, frozenset())
 
     g_alphabet = g.alphabet()
     final_states = {q for q in g.vertices() if g.is_final(q)}
     aggregated_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
-    }
-    waiting_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
+        qs
+        for qs in (
+            frozenset(final_states),
+            frozenset(g.vertices()) - final_states
+        )
+        if qs
     }
+    waiting_states = set(aggregated_states)
     while waiting_states != set():
         current_states = waiting_states.pop()
         for a in g_alphabet:
-- 
2.43.0


From e97391a3a32a7494eb3a301a87284493fa9f8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 10/48] fix: depth_first_search_graph explored every vertex
 when given an empty set of sources

---
 src/pybgl/depth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/depth_first_search.py b/src/pybgl/depth_first_search.py
index eebb8d8..ce5fa77 100644
--- a/src/pybgl/depth_first_search.py
+++ b/src/pybgl/depth_first_search.py
@@ -223,6 +223,6 @@ def depth_first_search_graph(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
-    for u in (sources if sources else g.vertices()):
+    for u in (sources if sources is not None else g.vertices()):
         if pmap_vcolor[u] == WHITE:
             depth_first_search(u, g, pmap_vcolor, vis, if_push)
-- 
2.43.0


From 081ce4c7cc730bdc23ce966d0a904798fb7771f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 11/48] fix: breadth_first_search failed when no visitor is
 passed

---
 src/pybgl/breadth_first_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 02bc7e4..6f307dd 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -231,6 +231,8 @@ def breadth_first_search(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
+    if vis is None:
+        vis = DefaultBreadthFirstSearchVisitor()
     for u in g.vertices():
         vis.initialize_vertex(u, g)
         pmap_vcolor[u] = WHITE
-- 
2.43.0


From a764a46cd27afc3cbf503954938cd6df4d312e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 12/48] fix: topological_sort did not fill the empty deque
 passed by the caller

---
 src/pybgl/topological_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/topological_sort.py b/src/pybgl/topological_sort.py
index 928fe83..4539ee2 100644
--- a/src/pybgl/topological_sort.py
+++ b/src/pybgl/topological_sort.py
@@ -50,7 +50,7 @@ def topological_sort(g: DirectedGraph, stack: deque = None) -> deque:
     Returns:
         The stack containing the vertices, sorted by topological order.
     """
-    stack = stack if stack else deque()
+    stack = stack if stack is not None else deque()
     depth_first_search_graph(
         g,
         pmap_vcolor=make_assoc_property_map(defaultdict(int)),
-- 
2.43.0


From 3afd47a47aa53074c55344219688cb24fffc08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 13/48] fix: automaton_copy failed when pmap_vertices or
 pmap_edges is omitted

---
 src/pybgl/automaton_copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index f1cfec5..36efcca 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -96,10 +96,10 @@ def automaton_copy(
 
     # Prepare the AutomatonCopyVisitor
     if not pmap_vertices:
-        map_vertices = dict()
+        map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
     if not pmap_edges:
-        map_edges = dict()
+        map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
     vis = AutomatonCopyVisitor(
-- 
2.43.0


From 2b9753169830b09c01645d1ece761a265f135623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 14/48] fix: the difference of two GraphViews showed edges
 hidden by the first view

---
 src/pybgl/graph_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 18fc175..1213f47 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -114,10 +114,11 @@ class GraphView:
             ),
             make_func_property_map(
                 lambda e: (
-                    self.pmap_erelevant[e] and
-                    not gv.pmap_erelevant[e] or (
-                        not gv.pmap_vrelevant[self.source(e)] and
-                        not gv.pmap_vrelevant[self.target(e)]
+                    self.pmap_erelevant[e] and (
+                        not gv.pmap_erelevant[e] or (
+                            not gv.pmap_vrelevant[self.source(e)] and
+                            not gv.pmap_vrelevant[self.target(e)]
+                        )
                     )
                 )
             )
-- 
2.43.0


From eadad056a35c2a9220f9d205ace01439c4e4a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 15/48] fix: AggregatedVisitor dropped keyword arguments

---
 src/pybgl/aggregated_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 9bbdc66..1c28389 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -29,7 +29,7 @@ class AggregatedVisitor:
         """
         def wrapper(*args, **kwargs):
             for vis in self.visitors:
-                getattr(vis, method_name)(*args)
+                getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
     @staticmethod
-- 
2.43.0


From 20318a146b0ed5152e202fd72a66911f7e5db7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:36 +0000
Subject: [PATCH 16/48] fix: zero_or_one accepted extra words when its operand
 loops on its initial or final state, e.g. (a+b)?

---
 src/pybgl/thompson_compile_nfa.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 489458d..42273ab 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -196,8 +196,15 @@ def zero_or_one(nfa: Nfa, q0: int, f: int) -> tuple:
         ``f`` is its initial state.
     """
     eps = nfa.epsilon
-    nfa.add_edge(q0, f, eps)
-    return (nfa, q0, f)
+    new_q0 = nfa.add_vertex()
+    new_f = nfa.add_vertex()
+    nfa.add_edge(new_q0, q0, eps)
+    nfa.add_edge(f, new_f, eps)
+    nfa.add_edge(new_q0, new_f, eps)
+    nfa.set_initials({new_q0})
+    nfa.set_final(f, False)
+    nfa.set_final(new_f, True)
+    return (nfa, new_q0, new_f)
 
 
 def zero_or_more(nfa: Nfa, q0: int, f: int) -> tuple:
-- 
2.43.0


From d1ac4110cdd9f7c85d04a2b1c0ad3304872166df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:42 +0000
Subject: [PATCH 17/48] fix: repetition_range with a null lower bound used a
 stale initial state, e.g. (a|b){0,2}

---
 src/pybgl/thompson_compile_nfa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 42273ab..239fdef 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -326,6 +326,11 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         return zero_or_more(nfa, q0, f)
     elif (m, n) == (1, None):
         return one_or_more(nfa, q0, f)
+    elif (m, n) == (0, 0):
+        return repetition(nfa, q0, f, 0)
+    elif m == 0:
+        (nfa, q0, f) = repetition_range(nfa, q0, f, 1, n)
+        return zero_or_one(nfa, q0, f)
 
     ori = copy.deepcopy(nfa)
     if n is None:
-- 
2.43.0


From 2d60286a258a58fd6aff5857a82563de06568431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 18/48] fix: shunting_yard_compute did not support the unary
 plus, e.g. 2 * +3

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 16e3bd6..3cfb9a8 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -742,7 +742,7 @@ class RpnDequeAlg(RpnDequeOperation):
             return x ** y
         elif a == "u-":
             return -x
-        elif a == "u-":
+        elif a == "u+":
             return x
         else:
             raise ValueError(f"Unsupported operator '{a}'")
-- 
2.43.0


From 329cc994e294253d500a0c5727cea34204732323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 19/48] fix: shunting_yard_postfix applied a binary operator
 before its prefixed right operand, e.g. 2^-1

---
 src/pybgl/shunting_yard_postfix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 3cfb9a8..4947d4c 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -386,8 +386,13 @@ def shunting_yard_postfix(
                 push_output(o)
                 o = pop_operator()
         elif a in map_operators.keys():
+            op = map_operators[a]
+            # The left operand of the stacked operators cannot be the one of
+            # a prefix operator: it has none.
+            is_prefix = op.cardinality == 1 and op.associativity == RIGHT
             while (
-                operators
+                not is_prefix
+                and operators
                 and operators[-1] in map_operators.keys()
                 and preceeds(operators[-1], a)
             ):
-- 
2.43.0


From 75bdd51fe28d2f8f1fbc93222ffe08303c6ce04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 20/48] fix: shunting_yard_compute failed on a tokenized
 expression (tokenize=False)

---
 src/pybgl/shunting_yard_postfix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 4947d4c..0cdcace 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -780,10 +780,9 @@ def shunting_yard_compute(
     Returns:
         The output ``float`` result.
     """
-    if tokenize:
-        output = RpnDequeAlg(map_operators=map_operators)
+    output = RpnDequeAlg(map_operators=map_operators)
     ret = shunting_yard_postfix(
-        tokenizer_alg(expression),
+        tokenizer_alg(expression) if tokenize else expression,
         map_operators,
         output,
         vis
-- 
2.43.0


From f1b329922db5ff34457a6ad0f9c8a4b3b17572bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 21/48] fix: Ast.to_expr always failed and shunting_yard_ast
 did not set the root of the AST

---
 src/pybgl/shunting_yard_postfix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 0cdcace..00ef329 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -589,14 +589,14 @@ class Ast(DirectedGraph):
             if d == 0:
                 return a
             elif d == 1:
-                child = self.children(u)[0]
+                (child,) = self.children(u)
                 return f"({to_expr_rec(child)}){a}"
             else:
                 return "(%s)" % a.join(
                     to_expr_rec(child)
                     for child in self.children(u)
                 )
-        if self.root:
+        if self.root is None:
             raise RuntimeError("self.root is not initialized")
         return to_expr_rec(self.root)
 
@@ -682,6 +682,7 @@ def shunting_yard_ast(
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
     root = ret.pop()
+    ast.root = root
     return (ast, root)
 
 
-- 
2.43.0


From 5dcccabeb1054cfaf6b0f73d301c5475f5807d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 22/48] fix: the {,n} repetition operator of the regular
 expressions was not tokenized

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 00ef329..a2f59d4 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -148,7 +148,7 @@ RE_OPERATORS_RE = [
     for op in list(MAP_OPERATORS_RE.keys()) + ["(", ")"]
 ] + [
     # Extra repetition operators
-    "\\{\\s*\\d+(\\s*,)?(\\s*\\d+)?\\s*\\}",
+    "\\{\\s*(\\d+|\\d*\\s*,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
     '\\[([^]])*\\]',
-- 
2.43.0


From 42e21e31f03d5af4484c93e67461e6b40e508145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 23/48] fix: the escape sequences of ^, $ and \\ that re_escape
 produces were not supported

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index a2f59d4..facd5a1 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -153,7 +153,7 @@ RE_OPERATORS_RE = [
     # "\\[.*\\]",
     '\\[([^]])*\\]',
     # Escape sequences (not exhaustive)
-    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}])",
+    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
 
 
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 239fdef..bbedc3d 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -510,7 +510,8 @@ def parse_escaped(s: str, whole_alphabet: iter = None) -> set:
     if len(s) == 2:
         if s in {
             r"\+", r"\*", r"\?", r"\.", r"\|",
-            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}"
+            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}",
+            r"\^", r"\$", "\\\\"
         }:
             return {s[1]}
         elif s in {r"\A", r"\B", r"\Z"}:
-- 
2.43.0


From 275a036f1bb2a7bf346506794bdbac1298552fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 24/48] fix: a trailing - in a bracket expression was not a
 literal, e.g. [+-]

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index bbedc3d..622a1de 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -452,7 +452,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
 
     while i < imax - 1:
         a = s[i]
-        if a == "-" and last_non_hat:
+        if a == "-" and last_non_hat and i + 1 < imax - 1:
             m = ord(last_non_hat)
             n = ord(s[i + 1])
             if m > n:
-- 
2.43.0


From 3923bd9591369d504a6c35c153a5d81f56fc3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 25/48] fix: parse_bracket ignored whole_alphabet for the
 escape sequences, e.g. [\\D]

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 622a1de..aacf68b 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -464,7 +464,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
             i += 1
         else:
             if a == "\\":
-                accepted |= parse_escaped(s[i:i+2])
+                accepted |= parse_escaped(s[i:i+2], whole_alphabet)
                 i += 1
             else:
                 accepted.add(a)
-- 
2.43.0


From 43bd6a248722eb5b48c3ee3cae2b20906dd730c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 26/48] fix: a postfix operator could be applied before the one
 it follows, e.g. a?{2} or a?*

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index facd5a1..3aece1d 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -137,7 +137,7 @@ MAP_OPERATORS_RE = {
     # Unary operators
     "*":  Op(cardinality=1, precedence=4, associativity=LEFT),
     "+":  Op(cardinality=1, precedence=4, associativity=LEFT),
-    "?":  Op(cardinality=1, precedence=3, associativity=LEFT),
+    "?":  Op(cardinality=1, precedence=4, associativity=LEFT),
     # Binary operators
     ".":  Op(cardinality=2, precedence=2, associativity=LEFT),
     "|":  Op(cardinality=2, precedence=1, associativity=LEFT),
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index aacf68b..5742f77 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -600,7 +600,12 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
             self.nfas.append((nfa1, q01, f1))
 
     vis = ThompsonShuntingYardVisitor()
-    shunting_yard_postfix(expression, map_operators=MAP_OPERATORS_RE, vis=vis)
+    # The {m,n} repetitions are postfix operators, like the other ones.
+    map_operators = dict(MAP_OPERATORS_RE)
+    map_operators.update(
+        (a, MAP_OPERATORS_RE["*"]) for a in expression if a[0] == "{"
+    )
+    shunting_yard_postfix(expression, map_operators=map_operators, vis=vis)
     assert len(vis.nfas) == 1
     (nfa, q0, f) = vis.nfas.pop()
     return (nfa, q0, f)
-- 
2.43.0


From 597bf29b761bd41a5b9637881189e7d8cd77b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 27/48] fix: automaton_insert_string did not return the state
 it documents

---
 src/pybgl/automaton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 27a7d1b..f70edeb 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -439,6 +439,7 @@ class Automaton(DirectedGraph):
             self.add_edge(q, r, a)
             q = r
         self.set_final(q)
+        return q
 
 
 # ------------------------------------------------------------------
@@ -845,4 +846,4 @@ def automaton_insert_string(g: Automaton, w: str) -> int:
     Returns:
         The reached state in best effort.
     """
-    g.automaton_insert_string(w)
+    return g.automaton_insert_string(w)
-- 
2.43.0


From 470ede1f0ed96e542366a5f5ebe09eb79232b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 28/48] fix: factors and make_suffix_trie ignored max_len=0

---
 src/pybgl/suffix_trie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index f673cbf..1c89a88 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -33,7 +33,7 @@ def slices(n, max_len: int = None) -> iter:
             for i in range(n)
             for j in range(
                 i + 1,
-                min(n, i + max_len) + 1 if max_len else n + 1
+                min(n, i + max_len) + 1 if max_len is not None else n + 1
             )
         )
     )
@@ -90,7 +90,7 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
     n = len(w)
     for i in range(n):
         q = g.initial()
-        for j in range(i, min(n, i + max_len) if max_len else n):
+        for j in range(i, min(n, i + max_len) if max_len is not None else n):
             a = w[j]
             r = g.delta(q, a)
             if r is BOTTOM:
-- 
2.43.0


From f239cb5802a6b85d29512c47e77595e082d4f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 29/48] fix: dijkstra_shortest_paths lost equally-cost
 predecessors when compare is not strict, e.g. >=

---
 src/pybgl/dijkstra_shortest_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 2abb979..b9aa6da 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -163,7 +163,7 @@ def dijkstra_shortest_paths_iteration(
         w_sv = pmap_vdist[v]
         w_uv = pmap_eweight[e]
         w = combine(w_su, w_uv)
-        if compare(w, w_sv):  # Traversing u is worth!
+        if w != w_sv and compare(w, w_sv):  # Traversing u is worth!
             pmap_vdist[v] = w
             pmap_vpreds[v] = {e}
             if pmap_vcolor[v] == WHITE:
-- 
2.43.0


From b3754a1d3099d218961c41c8423276ea979da988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:57 +0000
Subject: [PATCH 30/48] fix: make_shortest_path could loop forever if some arcs
 have a null weight

---
 src/pybgl/dijkstra_shortest_paths.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index b9aa6da..974bbec 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -357,12 +357,23 @@ def make_shortest_path(
         this function returns an arbitrary shortest path.
     """
 # USELESS |    arcs = make_dag(g, s, t, pmap_vpreds, single_path=True)
-    u = t
+    # Go back from t to s. Two vertices may be predecessors of each other
+    # (e.g., if they are connected by null arcs), so visit a vertex once.
+    next_edge = {t: None}
+    to_process = [t]
+    while s not in next_edge:
+        u = to_process.pop()
+        for e in pmap_vpreds[u]:
+            v = g.source(e)
+            if v not in next_edge:
+                next_edge[v] = e
+                to_process.append(v)
     path = list()
-    while u != s:
-        e = list(pmap_vpreds[u])[0]
-        path.insert(0, e)
-        u = g.source(e)
+    u = s
+    while u != t:
+        e = next_edge[u]
+        path.append(e)
+        u = g.target(e)
     return path
 
 
-- 
2.43.0


From f5587e82559c483a3a5d943b0c223f0063f27434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 31/48] fix: make_node_automaton looked up the final states by
 index instead of by identifier

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 714eda4..a6e93de 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -324,7 +324,7 @@ def make_node_automaton(
     for vertex_name in vertex_names:
         a = pmap_vlabel[vertex_name]
         u = g.add_vertex(a)
-        if pmap_vfinal[u]:
+        if pmap_vfinal[vertex_name]:
             g.set_final(u)
     for (qn, rn) in transitions:
         q = map_vertices[qn]
-- 
2.43.0


From d2b50ec6ba1647783d91564f26c961efdc892e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 32/48] fix: enrich_kwargs altered the dictionary passed by the
 caller, so a style could leak from a to_dot to the next one

---
 src/pybgl/graphviz_impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index e4417e4..a7a366d 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -351,11 +351,11 @@ def enrich_kwargs(default_d: dict, key: str, **kwargs) -> dict:
         The updated ``**kwargs``.
     """
     if default_d:
-        if key not in kwargs:
-            kwargs[key] = dict()
+        # Copy the dictionary, as it may have been passed by the caller.
+        d = dict(kwargs.get(key) or ())
         for (k, v) in default_d.items():
-            if k not in kwargs[key].keys():
-                kwargs[key][k] = v
+            d.setdefault(k, v)
+        kwargs[key] = d
     return kwargs
 
 
-- 
2.43.0


From 688e5dc9da557f1ee3603487d1ea823d3915a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 33/48] fix: GraphDp.get_dpe always failed

---
 src/pybgl/graph_dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 5066e9f..3d50d13 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -73,7 +73,7 @@ class GraphDp:
         return self.dpv
 
     def get_dpe(self) -> dict:
-        return self.dpve
+        return self.dpe
 
     def get_dg(self) -> dict:
         return self.dg
-- 
2.43.0


From 1b98426601ca5b78ad83784be859b20a08b83d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 34/48] fix: GraphDp.to_dot failed when extra_style is not
 empty

---
 src/pybgl/graph_dp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 3d50d13..209c5d7 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -97,7 +97,8 @@ class GraphDp:
         kwargs = enrich_kwargs(self.dg, "dg", **kwargs)
         kwargs = enrich_kwargs(self.dv, "dv", **kwargs)
         kwargs = enrich_kwargs(self.de, "de", **kwargs)
-        kwargs = enrich_kwargs(self.extra_style, "extra_style", **kwargs)
+        if self.extra_style and "extra_style" not in kwargs:
+            kwargs["extra_style"] = ";\n  ".join(self.extra_style)
         return to_dot(self.g, **kwargs)
 
     # TODO GraphView
-- 
2.43.0


From 48a89f68ccec0e8a0b8422d97d84d6f7f5888f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 35/48] fix: GraphDp.to_json produced invalid JSON if an
 attribute involves a quote, a backslash or a newline

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 209c5d7..adf9aad 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -5,6 +5,7 @@
 # https://github.com/nokia/pybgl
 
 from copy import copy
+from json import dumps
 from .graph import Graph
 from .graphviz import GraphvizStyle, enrich_kwargs, graphviz_type, to_dot
 
@@ -127,7 +128,7 @@ class GraphDp:
                     JSON_NODE_FORMAT % {
                         "id": u,
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[u])
+                            "%s: %s" % (dumps(k), dumps(str(pmap[u])))
                             for k, pmap in self.dpv.items()
                         ]),
                         "sep": "," if self.dpv else "",
@@ -138,7 +139,7 @@ class GraphDp:
                         "source": self.g.source(e),
                         "target": self.g.target(e),
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[e])
+                            "%s: %s" % (dumps(k), dumps(str(pmap[e])))
                             for k, pmap in self.dpe.items()
                         ]),
                         "sep": "," if self.dpe else "",
-- 
2.43.0


From 62f8932524728828044e46186437bb9ccfa85b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 36/48] fix: the union of NodeAutomaton instances labelled by
 None the transitions defined in g1 only

---
 src/pybgl/product_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 165c110..a810157 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -83,14 +83,16 @@ class ProductMixin:
         if e1:
             q1 = g1.source(e1)
             r1 = g1.target(e1)
-            a = g1.label(e1)
+            if r1 is not BOTTOM:
+                a = g1.label(e1)
         else:
             q1 = r1 = BOTTOM
 
         if e2:
             q2 = g2.source(e2)
             r2 = g2.target(e2)
-            a = g2.label(e2)
+            if r2 is not BOTTOM:
+                a = g2.label(e2)
         else:
             q2 = r2 = BOTTOM
 
-- 
2.43.0


From 3e785546f3b92770ea086e54c01d9fcf1f1f95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 37/48] fix: NodeAutomaton.delta failed for BOTTOM, so the
 products of NodeAutomaton instances failed

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index a6e93de..10ad10e 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -65,7 +65,7 @@ class NodeAutomaton(Automaton):
         Returns:
             The reached state (if any), :py:data:`BOTTOM` otherwise.
         """
-        return self.adjacencies[q].get(a, BOTTOM)
+        return self.adjacencies.get(q, dict()).get(a, BOTTOM)
 
     def add_edge(self, q: int, r: int) -> tuple:
         """
-- 
2.43.0


From c9527a4f479a3ed29395a44d9f9869e6dc10fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 38/48] fix: IncidenceNodeAutomaton ignored the q0 and
 pmap_vfinal keywords

---
 src/pybgl/incidence_node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c0b0cd1..b2cea0a 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -25,7 +25,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                 each state with its corresponding symbol.
         """
         self.predecessors = defaultdict(set)  # predecessors[r] = {q}
-        super().__init__(*args, pmap_vsymbol=pmap_vsymbol)  # UGLY
+        super().__init__(*args, pmap_vsymbol=pmap_vsymbol, **kwargs)  # UGLY
 
     # TODO: Factorize with IncidenceAutomaton
     def add_edge(self, q: int, r: int) -> tuple:
-- 
2.43.0


From 9ad53d579dd5ed851739a1dae2482970b012ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 39/48] fix: clear kept the final marks of the former states of
 Automaton and Nfa

---
 src/pybgl/automaton.py | 7 +++++++
 src/pybgl/nfa.py       | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index f70edeb..4b87843 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -305,6 +305,13 @@ class Automaton(DirectedGraph):
             if self.is_final(q)
         }
 
+    def clear(self):
+        # Overloaded method: the state descriptors are reused afterwards.
+        for q in range(self.last_vertex_id):
+            if self.is_final(q):
+                self.set_final(q, False)
+        super().clear()
+
     def to_dot(self, **kwargs) -> str:
         """
         Exports this :py:class:`Automaton` instance to a Graphviz string.
diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 8e9fd7f..712fe8a 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -316,6 +316,13 @@ class Nfa(DirectedGraph):
         """
         return self.pmap_vfinal[q]
 
+    def clear(self):
+        # Overloaded method: the state descriptors are reused afterwards.
+        for q in range(self.last_vertex_id):
+            if self.is_final(q):
+                self.set_final(q, False)
+        super().clear()
+
     def to_dot(self, **kwargs) -> str:
         """
         Exports this :py:class:`Nfa` instance to a Graphviz string.
-- 
2.43.0


From d55cc8740320bdb25cc873fba85330bb0ca3c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 40/48] fix: parse_bracket misread a hyphen following a range
 ([a-c-e]) and the ranges bounded by an escape sequence ([\\*-9])

---
 src/pybgl/thompson_compile_nfa.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 5742f77..cdb6768 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -447,29 +447,34 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
     reverse = (s[1] == "^")
     i = 2 if s[1] == "^" else 1
     accepted = set()
-    last_non_hat = None
     imax = len(s)
 
     while i < imax - 1:
-        a = s[i]
-        if a == "-" and last_non_hat and i + 1 < imax - 1:
-            m = ord(last_non_hat)
-            n = ord(s[i + 1])
+        # An item is either a single character, or an escape sequence
+        item = s[i:i+2] if s[i] == "\\" else s[i]
+        i += len(item)
+        if s[i:i+1] == "-" and i + 1 < imax - 1:
+            i += 1
+            last = s[i:i+2] if s[i] == "\\" else s[i]
+            i += len(last)
+            if item in MAP_ESCAPED_BRACKET or last in MAP_ESCAPED_BRACKET:
+                raise ValueError(f"Invalid bound of interval in s = {s}")
+            (m, n) = (
+                ord(parse_escaped(a).pop() if len(a) > 1 else a)
+                for a in (item, last)
+            )
             if m > n:
                 raise ValueError(
                     f"Invalid end of interval in s = {s} at index m = {m}"
                 )
             for c in range(m, n + 1):
                 accepted.add(chr(c))
-            i += 1
+        elif len(item) > 1:
+            accepted |= parse_escaped(item, whole_alphabet)
         else:
-            if a == "\\":
-                accepted |= parse_escaped(s[i:i+2], whole_alphabet)
-                i += 1
-            else:
-                accepted.add(a)
-        last_non_hat = a
-        i += 1
+            accepted.add(item)
+    if i != imax - 1:
+        raise ValueError(f"Unmatched []: s = {s}")
     return accepted if not reverse else set(whole_alphabet) - accepted
 
 
-- 
2.43.0


From 58069f3170851015beb0ba1873a8d78c92c3de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 41/48] fix: an escaped closing bracket ended the character
 class ([a\\]b])

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 3aece1d..0e741f1 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -151,7 +151,7 @@ RE_OPERATORS_RE = [
     "\\{\\s*(\\d+|\\d*\\s*,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
-    '\\[([^]])*\\]',
+    '\\[(\\\\.|[^]\\\\])*\\]',
     # Escape sequences (not exhaustive)
     "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
-- 
2.43.0


From 9585f5682a9acf7e1ab69df274c56c3e13f750ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 42/48] fix: read_graphviz_dp always failed, and failed on the
 attributes which have no property map

---
 src/pybgl/graphviz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index c5979c1..52191fb 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -176,17 +176,17 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
     Graphviz file.
     """
     def __init__(self, g, dpv: dict, dpe: dict):
-        super().__init__(g)
+        super().__init__()
         self.dpv = dpv
         self.dpe = dpe
 
     def on_install_vertex_property(self, u, g, key, value):
-        pmap = self.dpv[key] if self.dpv else None
+        pmap = self.dpv.get(key) if self.dpv else None
         if pmap:
             pmap[u] = value
 
     def on_install_edge_property(self, e, g, key, value):
-        pmap = self.dpe[key] if self.dpe else None
+        pmap = self.dpe.get(key) if self.dpe else None
         if pmap:
             pmap[e] = value
 
-- 
2.43.0


From fb6a74739c3702fc8efc901ca8983dc3ee1c82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 43/48] fix: GraphView.to_dot failed if vs or es is an iterable
 other than a set

---
 src/pybgl/graph_view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 1213f47..c207cb3 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -255,7 +255,7 @@ class GraphView:
         vs_ = kwargs.pop("vs", None)
         es_ = kwargs.pop("es", None)
         return self.g.to_dot(
-            vs=(vs & vs_) if vs_ is not None else vs,
-            es=(es & es_) if es_ is not None else es,
+            vs=(vs & set(vs_)) if vs_ is not None else vs,
+            es=(es & set(es_)) if es_ is not None else es,
             *cls, **kwargs
         )
-- 
2.43.0


From e19d9c5906fd13b2a804ab9f3bf5f8eacd8b71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 44/48] fix: write_graphviz: write SVG (a str) and binary
 formats

---
 src/pybgl/graphviz.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 52191fb..5f70d4f 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -318,9 +318,13 @@ def write_graphviz(
         engine: str = "dot"
     ) -> bool:
         ret = False
-        bytes_img = run_graphviz(s_dot, engine, format)
-        if bytes_img:
-            print(bytes_img.decode("utf-8"), file=f)
+        img = run_graphviz(s_dot, engine, format)
+        if img:
+            if isinstance(img, bytes):
+                # Binary format (e.g., "png").
+                getattr(f, "buffer", f).write(img)
+            else:
+                print(img, file=f)
             ret = True
         return ret
 
-- 
2.43.0


From 71bc6b42c4eb78a13e4f458743f669964372200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 45/48] fix: background_template_html: support colors involving
 %

---
 src/pybgl/ipynb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/ipynb.py b/src/pybgl/ipynb.py
index ca96615..7e3a27c 100644
--- a/src/pybgl/ipynb.py
+++ b/src/pybgl/ipynb.py
@@ -47,7 +47,11 @@ def background_template_html(background_color: str = None) -> str:
         The corresponding HTML template.
     """
     template_html = "<div style='background-color:%s'>%%s</div>"
-    return template_html % background_color if background_color else "%s"
+    return (
+        # The color may involve "%", e.g., "hsl(173, 71%, 56%)".
+        template_html % background_color.replace("%", "%%")
+        if background_color else "%s"
+    )
 
 
 def ipynb_display_graph(g, background_color: str = None, **kwargs):
-- 
2.43.0


From 77306753a07b900b97c7e92f19cad9b7e669b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 46/48] fix: insert_automaton: keep epsilon-transitions if the
 NFAs use distinct epsilon symbols

---
 src/pybgl/thompson_compile_nfa.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index cdb6768..18d812c 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -89,7 +89,11 @@ def insert_automaton(g1: Nfa, g2: Nfa, map21: dict = None) -> dict:
     for e2 in g2.edges():
         q2 = g2.source(e2)
         r2 = g2.target(e2)
-        a = g2.label(e2)
+        # The two NFAs may use distinct symbols for epsilon.
+        a = (
+            g1.epsilon if g2.is_epsilon_transition(e2)
+            else g2.label(e2)
+        )
         q1 = map21[q2]
         r1 = map21[r2]
         g1.add_edge(q1, r1, a)
-- 
2.43.0


From 6631798b7f5fb51c1faca3c5e8861d4037a765e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 47/48] fix: repetition: keep the epsilon symbol of the NFA in
 the {0} operator

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 18d812c..e7dbd1f 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -291,7 +291,7 @@ def repetition(nfa: Nfa, q0: int, f: int, m: int) -> tuple:
     """
     assert m >= 0
     if m == 0:
-        nfa = Nfa(1)
+        nfa = Nfa(1, epsilon=nfa.epsilon)
         nfa.set_final(0)
         (nfa, q0, f) = (nfa, 0, 0)
     elif m > 1:
-- 
2.43.0


From e9b1af1f78cfab278e8d50aa62a96252c6be452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 48/48] fix: read_graphviz: keep the case of attribute names
 (e.g. URL)

---
 src/pybgl/graphviz.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 5f70d4f..1731eec 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -16,6 +16,12 @@ from .graphviz_impl import *
 # Graphviz read
 # ------------------------------------------------------------------
 
+# Matches an attribute and its (possibly quoted) value, captures its name.
+RE_GRAPHVIZ_OPT_NAME = re.compile(
+    "([^\\s;,=\"']+)\\s*=\\s*(?:\"[^\"]*\"|'[^']*'|[^\\s;,]*)"
+)
+
+
 class GraphvizOptsParser(HTMLParser):
     """
     The :py:class:`GraphvizOptsVisitor` is
@@ -29,8 +35,14 @@ class GraphvizOptsParser(HTMLParser):
         self.d = dict()
 
     def handle_starttag(self, tag, attrs):
+        # HTMLParser puts the attribute names in lower case, whereas they
+        # are case-sensitive in Graphviz (e.g., "URL").
+        names = {
+            name.lower(): name
+            for name in RE_GRAPHVIZ_OPT_NAME.findall(self.get_starttag_text())
+        }
         for (k, v) in attrs:
-            self.d[k] = v
+            self.d[names.get(k, k)] = v
 
     def feed(self, graphviz_opts):
         if graphviz_opts:
-- 
2.43.0

