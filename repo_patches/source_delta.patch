From 9f7dee6bc3f3477e288ae00c242a82a8cc8ac9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 001/100] fix: build leftist heaps from zero or one value

---
 rosemary/data_structures/heaps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..a583c35 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -109,7 +109,7 @@ class LeftistHeap(object):
             heap, which we return.
         """
         num_values = len(values)
-        size = 0
+        self.size = num_values
         nodes = deque([_LeftistHeapNode(val) for val in values])
 
         while num_values > 1:
@@ -118,10 +118,8 @@ class LeftistHeap(object):
             nodeA = _leftist_heap_merge(nodeA, nodeB)
             nodes.append(nodeA)
             num_values -= 1
-            size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes[0] if nodes else None
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From b3d48241f170698db421ca94dfd8e4742673c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 002/100] fix: complete_graph(1) has one vertex

---
 rosemary/graphs/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 7cdcb77..1447e9f 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1040,6 +1040,7 @@ def complete_graph(n):
         6
     """
     Kn = Graph()
+    Kn.add_vertices(range(n))
 
     for u in range(n):
         for v in range(u):
-- 
2.43.0


From d9de93ec984e6744b610cc5b21a1dd56f13d52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 003/100] fix: coprime_pairs_graph(1) has one vertex

---
 rosemary/graphs/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 1447e9f..c878345 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1194,6 +1194,7 @@ def coprime_pairs_graph(n):
         return x
 
     graph = Graph()
+    graph.add_vertices(range(1, n + 1))
     for i in range(1, n + 1):
         for j in range(1, i):
             if gcd(i, j) == 1:
-- 
2.43.0


From 931d0b35b88f28f66527e12e2c8d189d8d1bcdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 004/100] fix: grid_graph(1) has one vertex

---
 rosemary/graphs/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index c878345..df91e9d 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1255,6 +1255,7 @@ def odd_graph(k):
 
 def grid_graph(n):
     graph = Graph()
+    graph.add_vertices(range(n*n))
 
     for i in range(n):
         for j in range(n):
-- 
2.43.0


From cecc8481c67228065cb72b682c8d6d5dc92c8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 005/100] fix: odd_graph labels are unambiguous when there are
 more than ten elements

---
 rosemary/graphs/graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index df91e9d..3cce72b 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1,6 +1,7 @@
 import copy
 import itertools
 import random
+import string
 
 from rosemary.algebra.matrices.matrices import MatrixZZ
 
@@ -1240,7 +1241,8 @@ def odd_graph(k):
     [('0', '1'), ('0', '2'), ('1', '2')]
     """
     graph = Graph()
-    ints = ''.join(map(str, range(2*k - 1)))
+    # One distinct character per element, so that labels are unambiguous.
+    ints = (string.digits + string.ascii_letters)[:2*k - 1]
 
     for tup in itertools.combinations(ints, k - 1):
         u = ''.join(tup)
-- 
2.43.0


From d32720b615053db9b1c9c46e28bbed1a4edbf5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 006/100] fix: dijkstra_bidirectional from a vertex to itself

---
 rosemary/graphs/algorithms/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..8d582fa 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -575,6 +575,9 @@ def dijkstra_bidirectional(graph, s, t):
     if t not in graph_dict:
         raise ValueError("dijkstra_bidirectional: {} is not a vertex of graph.".format(t))
 
+    if s == t:
+        return 0, [s]
+
     # Search forward from `s`.
     forward_search = dijkstra_iterator(graph, s)
     forward_estimate = {}
-- 
2.43.0


From 9c283b1d7f08f44d58fef7ce3b4c0743a4f53859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 007/100] fix: kruskal returns a spanning forest of a
 disconnected graph

---
 rosemary/graphs/algorithms/spanning_trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..06b370d 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -180,8 +180,9 @@ def kruskal(graph):
     find = X.find
     union = X.union
 
-    # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    # A tree on n vertices has n - 1 edges, so break when finished. If the graph
+    # is not connected, then we run out of edges first.
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
-- 
2.43.0


From 368ba276762a9d166ddbef35fa644597f1219bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 008/100] fix: cheriton_tarjan returns a spanning forest of a
 disconnected graph

---
 rosemary/graphs/algorithms/spanning_trees.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 06b370d..17bc222 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -249,11 +249,12 @@ def cheriton_tarjan(graph):
             triples.append((weight, u, v))
         PQ[u] = LeftistHeap(triples)
 
-    while num_edges < num_vertices - 1:
+    while PQ and num_edges < num_vertices - 1:
         u = choice(list(PQ.keys()))
         Tu = find(u)
+        Tv = None
 
-        while True:
+        while len(PQ[Tu]) > 0:
             (_, x, y) = PQ[Tu].delete_min()
             Tx = find(x)
             Ty = find(y)
@@ -267,6 +268,11 @@ def cheriton_tarjan(graph):
                 Tv = Tx
             break
 
+        if Tv is None:
+            # No edges leave this component, so its tree is complete.
+            del PQ[Tu]
+            continue
+
         union(Tu, Tv)
         u = find(Tu)
 
-- 
2.43.0


From f55e8930d5913994d57971538e5ea65a64266224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 009/100] fix: gabow no longer compares dicts when exchanges
 tie

---
 rosemary/graphs/algorithms/spanning_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 17bc222..1bc7984 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -1,4 +1,5 @@
 from heapq import heappush, heappop, heapify
+from itertools import count
 from random import choice
 
 from rosemary.data_structures.unionfind import UnionFind, NamedUnionFind
@@ -366,14 +367,16 @@ def gabow(graph, k=None):
     father[root] = root
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+    # The counter breaks ties, since the remaining entries can't be compared.
+    counter = count()
+    heap = [(tree_weight + exchange_weight, e, f, next(counter), father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, e, f, _, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -395,8 +398,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, e, f, next(counter), father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, e, f, next(counter), new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From c83f45684fa6f6166a6a69c01fb36153cb7a5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 010/100] fix: Steiner heuristics accept a single terminal

---
 rosemary/graphs/algorithms/steiner_trees.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rosemary/graphs/algorithms/steiner_trees.py b/rosemary/graphs/algorithms/steiner_trees.py
index 2f17a78..10d6f4e 100644
--- a/rosemary/graphs/algorithms/steiner_trees.py
+++ b/rosemary/graphs/algorithms/steiner_trees.py
@@ -77,6 +77,9 @@ def distance_network_heuristic(graph, terminals):
     (17, [('u1', 'u2'), ('u1', 'v1'), ('u1', 'v2'), ('u2', 'v3'),
           ('u2', 'v4'), ('v2', 'v5')])
     """
+    if len(terminals) == 1:
+        return (0, [])
+
     # Create the distance network induced by the terminal set.
     distance_network = Graph()
 
@@ -176,6 +179,9 @@ def minimum_cost_paths_heuristic(graph, terminals):
     (17, [('u1', 'u2'), ('u1', 'v1'), ('u1', 'v2'), ('u2', 'v3'),
           ('u2', 'v4'), ('v2', 'v5')])
     """
+    if len(terminals) == 1:
+        return (0, [])
+
     # shortest_prev[u] holds the predecessor dict for the shortest path
     # tree rooted at u.
     shortest_prev = {}
-- 
2.43.0


From 0ba597e7c72d2226ff1acf965423c517bbc26ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 011/100] fix: the Erdos-Gallai test rejects sequences with odd
 sum

---
 rosemary/graphs/algorithms/degree_sequences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 575b73d..c8ca15d 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -77,6 +77,11 @@ def is_graphic(S):
 
 def is_graphic_erdos_gallai(S):
     T = sorted(S, reverse=True)
+
+    # The degrees of a graph sum to twice the number of edges.
+    if sum(T) % 2 == 1:
+        return False
+
     d_sum = 0
 
     for k in range(len(T)):
-- 
2.43.0


From 16c32f246c617c810e592d2dfbeb866d5c9c95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 012/100] fix: greedy_sequential colors the graph with no
 vertices

---
 rosemary/graphs/algorithms/coloring.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..005d65a 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -162,12 +162,9 @@ def greedy_sequential(graph, vertices=None, passes=1, classes=True):
         vertices = graph.vertices(order='degree')[::-1]
 
     color_map = {}
-    v = vertices[0]
-    color_map[v] = 0
-    num_colors = 1
+    num_colors = 0
 
-    for i in range(1, len(vertices)):
-        v = vertices[i]
+    for v in vertices:
         adjacent_colors = set([])
         for u in graph[v]:
             if u in color_map:
-- 
2.43.0


From 1e1ff7a9b4b5b69c95ab65d72389038c56ae4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 013/100] fix: branch_and_bound returns a coloring of complete
 graphs

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 005d65a..a123051 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -450,7 +450,7 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    best = [len(vertices), {u: i for (i, u) in enumerate(vertices, 1)}]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
-- 
2.43.0


From 7c2fd83d2cba703c8f0bc561e97220fa7488275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 014/100] fix: branch_and_bound colors the graph with no
 vertices

---
 rosemary/graphs/algorithms/coloring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index a123051..325a7e0 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -465,7 +465,8 @@ def branch_and_bound(graph, classes=True):
         neighbors[u] = graph.neighbors(u)
 
     # Main entry to the recursive function.
-    color(len(vertices), 0)
+    if vertices:
+        color(len(vertices), 0)
     num_colors, color_map = best
 
     if not classes:
-- 
2.43.0


From a355e3d01188a40ecb5e7cbe69622cb98c87298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 015/100] fix: culberson includes isolated vertices in its
 independent set

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..6d647ab 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -159,7 +159,7 @@ def culberson(graph):
             return (0, 0, [])
 
         max_size = 0
-        max_deg = 0
+        max_deg = -1
         max_set = []
 
         vertices[0], vertices[-1] = vertices[-1], vertices[0]
-- 
2.43.0


From 112d0d5fbccfd3cc68493b76e86acb649513eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 016/100] fix: dsatur colors the graph with no vertices

---
 rosemary/graphs/algorithms/coloring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 325a7e0..0ea49a4 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -52,6 +52,9 @@ def dsatur(graph, classes=True):
     uncolored = set(vertices)
     color_map = {}
 
+    if not vertices:
+        return (0, [] if classes else {})
+
     # Pick a vertex of maximal degree and color it with color 0.
     u = graph.maximum_degree_vertex()
     color_map[u] = 0
-- 
2.43.0


From 77b5de47c22c55ae60357abfb0354754cce59c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:59 +0000
Subject: [PATCH 017/100] fix: korman selects uncolored vertices that have no
 neighbors

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 0ea49a4..8bec2cd 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -566,7 +566,7 @@ def korman(graph, classes=True):
 
         while idx >= clique_size:
             if find_next_s:
-                max_adj = 0
+                max_adj = -1
                 max_deg = 0
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
-- 
2.43.0


From a192dbffadaf9f80b5020cf6720a3f6e1422776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 018/100] fix: walks counts the walk of length zero

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index d5f1f7a..9fd89ea 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -236,10 +236,9 @@ def walks(graph, a, n, allowed):
     neighbors = {u: graph.neighbors(u) & allowed for u in allowed}
 
     num_walks = {u: 0 for u in allowed}
-    for u in neighbors[a]:
-        num_walks[u] += 1
+    num_walks[a] = 1
 
-    for i in range(n - 1):
+    for i in range(n):
         num_walks2 = {u: 0 for u in allowed}
         for u in allowed:
             for v in neighbors[u]:
-- 
2.43.0


From e2f07a65e45073980e699dc975548c7ee13c659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 019/100] fix: number_of_hamiltonian_paths5_con sums over every
 vertex subset

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index 9fd89ea..8329a75 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -278,13 +278,18 @@ def number_of_hamiltonian_paths5_con(graph):
     vertices = graph.vertices()
     n = len(vertices)
 
+    # A graph that is not connected has no hamiltonian paths. Subsets of the
+    # vertices can not be skipped, connected or not, since the terms of the
+    # inclusion-exclusion sum cancel against each other.
+    if not is_connected2(graph, graph.vertex_set()):
+        return 0
+
     def extend(partial, idx):
-        if is_connected2(graph, graph.vertex_set() - set(partial)):
-            yield partial
+        yield partial
 
-            for i in range(idx, n):
-                for foo in extend(partial + [vertices[i]], i + 1):
-                    yield foo
+        for i in range(idx, n):
+            for foo in extend(partial + [vertices[i]], i + 1):
+                yield foo
 
     total = 0
     for allowed in extend([], 0):
-- 
2.43.0


From 8bc59699e0fccb3d565a0d5c9f0d3ae8dbf84fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 020/100] fix: matrix addition checks the dimensions of both
 operands

---
 rosemary/algebra/matrices/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..7eb00d1 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -102,8 +102,8 @@ class Matrix(object):
 
         self_ncols = self.__ncols
         self_nrows = self.__nrows
-        other_ncols = self.__ncols
-        other_nrows = self.__nrows
+        other_ncols = other.__ncols
+        other_nrows = other.__nrows
 
         if self_ncols != other_ncols or self_nrows != other_nrows:
             raise ValueError("Invalid dimensions for matrix addition")
-- 
2.43.0


From 4947fbe7262d36eb12a149d7dc635f76cd1ae1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 021/100] fix: matrix subtraction checks dimensions

---
 rosemary/algebra/matrices/matrices.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 7eb00d1..e41bd12 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -163,6 +163,10 @@ class Matrix(object):
 
         ncols = self.__ncols
         nrows = self.__nrows
+
+        if ncols != other.__ncols or nrows != other.__nrows:
+            raise ValueError("Invalid dimensions for matrix subtraction")
+
         entries = list(self.__entries)
         other_entries = list(other.__entries)
         result = [[0]*ncols for _ in range(nrows)]
-- 
2.43.0


From e4698c36ff7cc61e5d65fdfab6b4ce46761f4518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 022/100] fix: shape of the product of matrices that are not
 square

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index e41bd12..44af9eb 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -211,7 +211,7 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*nrows for _ in range(other_ncols)]
+        result = [[0]*other_ncols for _ in range(nrows)]
 
         for i in range(nrows):
             for j in range(other_ncols):
-- 
2.43.0


From 77f5a31a3db67ca8f6491bbc22aea9d100eacf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 023/100] fix: matrices own their rows

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 44af9eb..3b9f2ff 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -34,7 +34,7 @@ class Matrix(object):
             if isinstance(m, int):
                 entries = [[0]*m for _ in range(m)]
             else:
-                entries = list(m)
+                entries = [list(row) for row in m]
         elif isinstance(n, int):
             entries = [[0]*n for _ in range(m)]
 
-- 
2.43.0


From 9cbbff2e3637e14e60604aed01c5d10efc6a7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 024/100] fix: determinant does not change the matrix

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 3b9f2ff..ce00502 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -317,7 +317,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [list(row) for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
-- 
2.43.0


From 9eb8643571e699f7621d7b77d85ba6428170d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 025/100] fix: determinant uses a nonzero entry in the last row
 as pivot

---
 rosemary/algebra/matrices/matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index ce00502..f9e22f6 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -329,8 +329,9 @@ class Matrix(object):
 
                 # If no nonzero entry was found in column k, then the
                 # determinant is zero.
-                if i == ncols - 1:
+                else:
                     return 0
+
                 # Othwerwise, we perform exchanges.
                 for j in range(k, ncols):
                     m[i][j], m[k][j] = m[k][j], m[i][j]
-- 
2.43.0


From 0cf95fda9cd72e01adaa4823b8e8259f9e2a1658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 026/100] fix: determinant of matrices with fractional entries

---
 rosemary/algebra/matrices/matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index f9e22f6..8e76581 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -340,7 +340,8 @@ class Matrix(object):
             for i in range(k + 1, ncols):
                 for j in range(k + 1, ncols):
                     # This is exact division.
-                    m[i][j] = (pivot*m[i][j] - m[i][k]*m[k][j])//den
+                    num = pivot*m[i][j] - m[i][k]*m[k][j]
+                    m[i][j] = num//den if num % den == 0 else num/den
             den = pivot
         return sign*m[ncols - 1][ncols - 1]
 
-- 
2.43.0


From dd094df6be7f60f81710228b9c6f2470684dcd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 027/100] fix: subtracting a number from a polynomial

---
 rosemary/algebra/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9bb53f2..6e4f2ea 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -150,7 +150,7 @@ class Polynomial(object):
             try:
                 parent_class = self.__class__
                 other_poly = parent_class(other, self.variable)
-                return self + other_poly
+                return self - other_poly
             except:
                 raise ValueError('Other cannot be coerced into a polynomial')
 
-- 
2.43.0


From 48c0dd25c050c01098fd785ff4f546db12adfa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 028/100] fix: degree of the zero polynomial

---
 rosemary/algebra/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 6e4f2ea..9e3cc68 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -52,7 +52,7 @@ class Polynomial(object):
             else:
                 coeffs = [L]
                 num_coeffs = 1
-        if num_coeffs == 0:
+        if num_coeffs == 1:
             if coeffs[0] == 0:
                 self.degree = -1
             else:
-- 
2.43.0


From 142c33dda2068ba557509e00b5443c3fbb55be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 029/100] fix: powers of the zero polynomial

---
 rosemary/algebra/polynomials/algorithms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 83e6ae1..ddf37e1 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -130,9 +130,13 @@ def power_jcp(A, k):
         [1, 6, 13, 12, 4]
     """
     shift = 0
-    while A[shift] == 0:
+    while shift < len(A) and A[shift] == 0:
         shift += 1
 
+    # The zero polynomial.
+    if shift == len(A):
+        return [0] if k else [1]
+
     B = A[shift:]
     n = len(B)
     new_deg = (n - 1) * k + 1
-- 
2.43.0


From 306af06e316530389c3dca3b3d2e33281ae5c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 030/100] fix: powers of polynomials with fractional
 coefficients

---
 rosemary/algebra/polynomials/algorithms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index ddf37e1..327848a 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -147,7 +147,9 @@ def power_jcp(A, k):
         ss = 0
         for j in range(1, min(n, i + 1)):
             ss += B[j] * ((k + 1) * j - i) * P[i - j]
-        P[i] = ss // (i * a0)
+        # This is exact division.
+        den = i * a0
+        P[i] = ss // den if ss % den == 0 else ss / den
     return [0]*shift*k + P
 
 
-- 
2.43.0


From 3c4f86fc82a4fa4c241af68f0473b6521b73abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 031/100] fix: gcd_list of a single negative number

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index d04b7b4..98a7619 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -59,7 +59,7 @@ def gcd_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = gcd(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From c1bce5eca6ab23c8da9943331fa284723acd3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 032/100] fix: lcm_list of a single negative number

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 98a7619..5892287 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -177,7 +177,7 @@ def lcm_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = lcm(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From 15fe8fd65bbab3454c66bb421e1a1cf8f6927b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 033/100] fix: polynomial gcd when more than one division is
 needed

---
 rosemary/algebra/polynomials/polynomials.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9e3cc68..c948262 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -386,24 +386,23 @@ class Polynomial(object):
         u = self.primitive_part()
         v = other.primitive_part()
         h = g = 1
-        dd = u.degree - v.degree
+        parent_class = self.__class__
 
-        if dd < 0:
+        if u.degree < v.degree:
             return other.gcd(self)
 
         while True:
+            dd = u.degree - v.degree
             (q, r) = u.pseudo_quo_rem(v)
             if r == 0:
                 return d * v.primitive_part()
             elif r.degree == 0:
-                return Polynomial([d])
+                return parent_class([d], self.variable)
             u = v
-            v = Polynomial([e // (g*h**dd) for e in r._coefficients])
+            v = parent_class([e // (g*h**dd) for e in r._coefficients], self.variable)
             g = u.lead_coeff
-            if dd > 1:
+            if dd > 0:
                 h = g**dd // h**(dd - 1)
-            else:
-                h = h**(1 - dd) // g**(-dd)
 
 
 class PolyZZ(Polynomial):
-- 
2.43.0


From 853eff03d6620548dd09aa25a7b67f9aeb7a14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 034/100] fix: gcd of polynomials when one of them is zero

---
 rosemary/algebra/polynomials/polynomials.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index c948262..6588fbb 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -382,6 +382,11 @@ class Polynomial(object):
         by Cohen, or Algorithm C in section 4.6.1 of "The Art of Computer
         Programmming: Vol II" by Knuth.
         """
+        if self == 0:
+            return other.content() * other.primitive_part()
+        if other == 0:
+            return self.content() * self.primitive_part()
+
         d = gcd(self.content(), other.content())
         u = self.primitive_part()
         v = other.primitive_part()
@@ -427,6 +432,8 @@ class PolyZZ(Polynomial):
         """
         coeffs = self._coefficients
         content = gcd_list(coeffs)
+        if content == 0:
+            return self
         if coeffs[-1] < 0:
             content *= -1
         parent_class = self.__class__
-- 
2.43.0


From 95f4713992f1b3ad87436bd8e57d28564917ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 035/100] fix: powers of power series with zero constant term

---
 rosemary/algebra/power_series/power_series.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rosemary/algebra/power_series/power_series.py b/rosemary/algebra/power_series/power_series.py
index dbb79a2..c6934d6 100644
--- a/rosemary/algebra/power_series/power_series.py
+++ b/rosemary/algebra/power_series/power_series.py
@@ -63,6 +63,21 @@ def ps_power(A, k):
     the J.C.P pure power recurrence.
     """
     n = len(A)
+
+    if k == 0:
+        return [1] + [0] * (n - 1)
+
+    # Write p(x) = x^shift * q(x), where q(x) has nonzero constant term.
+    shift = 0
+    while shift < n and A[shift] == 0:
+        shift += 1
+
+    if shift*k >= n:
+        return [0] * n
+    elif shift and k > 0:
+        Q = ps_power(list(A[shift:]) + [0] * shift, k)
+        return ([0] * (shift * k) + Q)[:n]
+
     P = [0] * n
     a0 = A[0]
     P[0] = a0**k
-- 
2.43.0


From 5f63f853abf766ef751ef99b5470a04cca3c1e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 036/100] fix: phillips yields the arrangement of no elements

---
 rosemary/combinatorics/generation/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 1c71f7f..895e225 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -69,7 +69,7 @@ def phillips(elements):
 
     # The Phillips algorithm assumes that there at least three elements in
     # the list. We handle the other cases separately.
-    if n == 0:
+    if n <= 0:
         yield entries[:]
         return
 
-- 
2.43.0


From d56a389620fcc06343e9009400c9be495f42d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 037/100] fix: phillips yields the arrangement of two equal
 elements once

---
 rosemary/combinatorics/generation/permutations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 895e225..b6adacc 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -75,7 +75,8 @@ def phillips(elements):
 
     if n == 1:
         yield [entries[0], entries[1]]
-        yield [entries[1], entries[0]]
+        if entries[0] < entries[1]:
+            yield [entries[1], entries[0]]
         return
 
     while True:
-- 
2.43.0


From 3ec0a5230f7b1512274724c357a6b3be4dc4c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 038/100] fix: phillips stops after the last arrangement

---
 rosemary/combinatorics/generation/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index b6adacc..c91328a 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -108,7 +108,7 @@ def phillips(elements):
             # L2.2' [Find j]
             j = n - 3
             y = entries[j]
-            while y >= x:
+            while j >= 0 and y >= x:
                 j -= 1
                 x = y
                 y = entries[j]
-- 
2.43.0


From df43e4794675972b38ac1966a0867d50cb93c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 039/100] fix: there are no r-variations of fewer than r
 elements

---
 rosemary/combinatorics/generation/permutations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index c91328a..e1a7337 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -379,6 +379,9 @@ def knuth_algorithm_l_rvariations(elements, r):
     """
     entries = sorted(elements)
     n = len(entries) - 1
+    if r > len(entries):
+        return
+
     r = r - 1
 
     while True:
-- 
2.43.0


From f84a8a2cf99ad82c62fe2f56cb0642f23e1bc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 040/100] fix: the empty variation is the only 0-variation

---
 rosemary/combinatorics/generation/permutations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index e1a7337..a1cee07 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -382,6 +382,10 @@ def knuth_algorithm_l_rvariations(elements, r):
     if r > len(entries):
         return
 
+    if r == 0:
+        yield []
+        return
+
     r = r - 1
 
     while True:
-- 
2.43.0


From 250cda9ac2ec29e0d3213bb63721d3d882a0096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 041/100] fix: there are no combinations of more elements than
 available

---
 rosemary/combinatorics/generation/combinations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/generation/combinations.py b/rosemary/combinatorics/generation/combinations.py
index fbc247a..443360a 100644
--- a/rosemary/combinatorics/generation/combinations.py
+++ b/rosemary/combinatorics/generation/combinations.py
@@ -2,6 +2,9 @@ def combinations(n, t):
     """
     generates all combinations of 0, 1, ..., n - 1 of size t.
     """
+    if t > n:
+        return
+
     c = [0] + [j - 1 for j in range(1, t + 1)] + [n, 0]
 
     while True:
-- 
2.43.0


From 5d772156ee812fe55a56bb72310f9af053fe5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 042/100] fix: there are no partitions of n into more than n
 parts

---
 rosemary/combinatorics/generation/partitions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 04955e8..39bdde6 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -69,7 +69,6 @@ def integer_partitions(n, **kwargs):
     if 'num_parts' in kwargs:
         num_parts = kwargs['num_parts']
         if num_parts > n:
-            yield []
             return
     else:
         num_parts = 0
-- 
2.43.0


From 5f54ad45a142541027b44c900ad7fb0a5bc69df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 043/100] fix: zero has exactly one partition

---
 rosemary/combinatorics/generation/partitions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 39bdde6..17e9eb9 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -78,6 +78,10 @@ def integer_partitions(n, **kwargs):
         Generates all partitions of n. This is Algorithm P from 7.2.1.4 of
         Knuth, Vol. 4.
         """
+        if n == 0:
+            yield []
+            return
+
         partition = [0]*n
         last_replaced = 0
         partition[last_replaced] = n
-- 
2.43.0


From b81bcd2e047862c9b37a8e4a95faaef88744bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 044/100] fix: partitions into one part

---
 rosemary/combinatorics/generation/partitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 17e9eb9..a888de0 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -118,6 +118,8 @@ def integer_partitions(n, **kwargs):
 
         while True:
             yield partition[:]
+            if m == 1:
+                return
             if partition[1] < partition[0] - 1:
                 partition[0] -= 1
                 partition[1] += 1
-- 
2.43.0


From 9db1c7bd0a7c654049ac117dae6c1ca6d895662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 045/100] fix: partitions into distinct parts never repeat the
 largest part

---
 rosemary/combinatorics/generation/partitions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index a888de0..09409dd 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -140,20 +140,18 @@ def integer_partitions(n, **kwargs):
                     j -= 1
                 partition[0] = s
 
-    def backtrack(partial_sum, used, num_used, last_idx):
+    def backtrack(partial_sum, used, num_used, idx):
         if partial_sum == n:
             if not num_parts or (num_parts and num_used == num_parts):
                 yield used
         elif partial_sum < n:
             if num_parts and num_used >= num_parts:
                 return
-            idx = 0
-            if last_idx != 0:
-                idx = last_idx + distinct
             for i in range(idx, total_number):
                 part = parts[i]
                 for partition in backtrack(partial_sum + part,
-                                           used + [part], num_used + 1, i):
+                                           used + [part], num_used + 1,
+                                           i + distinct):
                     yield partition
 
     if distinct or custom_parts:
-- 
2.43.0


From 9f87e3f273e2f9dd7df09ecba957bdb3ae576df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 046/100] fix: recurrence of the Stirling numbers of the second
 kind

---
 rosemary/combinatorics/enumeration/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 489a572..fb9a3dd 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -61,7 +61,7 @@ def stirling_number2(m, n):
 
     for i in range(1, m + 1):
         for j in range(1, min(i, n) + 1):
-            S[i, j] = j*S[i - 1, j] + S[i - j, j - 1]
+            S[i, j] = j*S[i - 1, j] + S[i - 1, j - 1]
 
     return S[m, n]
 
-- 
2.43.0


From 8ea150d4a57ac2994d6a94a0100764ce2924f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 047/100] fix: Stirling numbers of the second kind with more
 blocks than elements

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index fb9a3dd..be018bb 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -50,6 +50,9 @@ def bell_number(n):
 
 
 def stirling_number2(m, n):
+    if n > m:
+        return 0
+
     S = {}
     S[0, 0] = 1
 
-- 
2.43.0


From c86359d7947fb3eee98a81cab973f4fbb0ad3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 048/100] fix: binomial coefficients with k > n are zero

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index be018bb..772d189 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -87,6 +87,9 @@ def binomial(n, k):
         >>> binomial(2, 0)
         1
     """
+    if k > n:
+        return 0
+
     pp = 1
     k = min(k, n - k)
     for e in range(n - k + 1, n + 1):
-- 
2.43.0


From 41c4d05dad601eb1275876c1900d81e4dd1545c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 049/100] fix: partition_list(0)

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 772d189..7276730 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -172,9 +172,8 @@ def partition_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = 1
 
-    for m in range(2, n + 1):
+    for m in range(1, n + 1):
         max_idx = int((1 + (1 + 24*m)**(0.5))/6)
         sign = (-1)**(max_idx + 1)
         total = 0
-- 
2.43.0


From 26d1c25f8bc2ad6a3635c61bb220b33f876cdcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 050/100] fix: necklaces with given weights

---
 rosemary/combinatorics/enumeration/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 7276730..b895b34 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -3,7 +3,7 @@
 # in to an enumeration algorithm, but we prefer algorithms more advanced than
 # simply listing and counting whenever possible.
 
-from rosemary.number_theory.core import gcd
+from rosemary.number_theory.core import gcd_list
 from rosemary.number_theory.factorization.factorization import xdivisors
 from rosemary.number_theory.arithmetic_functions.functions import euler_phi, factorial
 
@@ -397,7 +397,7 @@ def necklaces(n, k, weights=None):
         16
     """
     if weights:
-        j = gcd(weights)
+        j = gcd_list(weights)
         ss = 0
         for d in xdivisors(j):
             ll = [e//d for e in weights]
-- 
2.43.0


From cf6900788eb4da399d70e90e7d14d618816cbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 051/100] fix: a board with one cell has no domino tiling

---
 rosemary/combinatorics/optimization/exact_cover.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/combinatorics/optimization/exact_cover.py b/rosemary/combinatorics/optimization/exact_cover.py
index db7afea..253392b 100644
--- a/rosemary/combinatorics/optimization/exact_cover.py
+++ b/rosemary/combinatorics/optimization/exact_cover.py
@@ -223,6 +223,7 @@ def domino_ints(n):
 def domino_tilings(n):
     ints = domino_ints(n)
     E = ExactCoverBinary(ints)
+    E.num_bits = n*n
     num_sols = E.number_of_solutions()
     return num_sols
 
-- 
2.43.0


From 41f2047d14cc1aa2f50461ab4e60e2a38e42c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 052/100] fix: steepest_ascent_two_opt starts from the tour of
 the given distance matrix

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..41b9234 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From 1163dacd80816b9eb2ae573b1d734332cc0c488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 053/100] fix: simulated annealing never takes the logarithm of
 zero

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index 41b9234..2ce13e6 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -356,7 +356,7 @@ def simulated_annealing_two_opt(points, distance_matrix=None):
             else:
                 r = random.random()
                 diff = cost_new - cost_old
-                if math.log(r) < diff/temp:
+                if math.log(1 - r) < diff/temp:
                     sol = new_sol
 
             temp *= alpha
-- 
2.43.0


From 5da0238ae8798e29afe596ea63da773ec9f43ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 054/100] fix: genetic tsp returns the tour of least cost

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..77bc74a 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -166,7 +166,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = list(population[0][1])
                 best_cost = current_cost
                 print(c, best_cost)
 
-- 
2.43.0


From 80831f6c2ef9e8e187dce709f8cbf11fb29cf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 055/100] fix: simulated annealing with no items to pack

---
 rosemary/combinatorics/optimization/knapsack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index c9f3844..a2deb3b 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -179,6 +179,8 @@ def simulated_annealing(items, capacity):
     temp = 1000
     alpha = 0.99999
     n = len(items)
+    if n == 0:
+        return 0, []
 
     current_items = [0]*n
     current_weight = 0
-- 
2.43.0


From 21caf45f3b3909fdf39e93809342b5fada3f8fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 056/100] fix: power_mod with exponent zero and base divisible
 by the modulus

---
 rosemary/number_theory/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 5892287..fd91a18 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -223,10 +223,12 @@ def power_mod(a, k, m):
     if m < 1:
         raise ValueError("power_mod: Must have m >= 1.")
 
-    if a % m == 0:
+    if m == 1:
         return 0
     if k == 0:
         return 1
+    if a % m == 0:
+        return 0
 
     a = a % m
     t = 1
-- 
2.43.0


From 0bbb3c0244ba2e38ec27032357eec78a9261ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 057/100] fix: integer_sqrt only uses floats where they are
 exact

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index fd91a18..5a94a2f 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -527,7 +527,7 @@ def integer_sqrt(n):
         return n
 
     # if n is small enough, compute the square root and round
-    if n <= 2**60:
+    if n <= 2**50:
         return int(n**(0.5))
 
     bits = n.bit_length()
-- 
2.43.0


From d3107ccc909f1c985f85642202b9e7586977936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 058/100] fix: chinese reduces the residue of a single
 congruence

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 5a94a2f..824a8ea 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -594,7 +594,7 @@ def chinese(congruences):
         m *= mi
         x = x % m
 
-    return x
+    return x % m
 
 
 def crt_preconditioning_data(moduli):
-- 
2.43.0


From 4de2453557991fbeba80cefd266895e1d6a22c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 059/100] fix: valuation of negative numbers

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 824a8ea..9141871 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -792,7 +792,7 @@ def valuation(p, n):
         that divides n. The method is essentially the same as the one used to
         compute an integer logarithm.
     """
-    if n % p != 0 or p > n:
+    if n % p != 0 or n == 0:
         return 0
 
     p = abs(p)
-- 
2.43.0


From d1057eb644ae3b7401a552c5793b2a0396b120a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 060/100] fix: prime_range excludes its upper end

---
 rosemary/number_theory/primes/sieves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 9bf9a5d..8622968 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -518,7 +518,7 @@ def prime_range(a, b=None):
     # If the upper bound is less than some appropriate cutoff, we generate all
     # primes up to this limit yield the ones in the interval.
     if b <= cutoff:
-        prime_list = primes(b)
+        prime_list = primes(b - 1)
         idx = bisect_left(prime_list, a)
         for i in range(idx, len(prime_list)):
             yield prime_list[i]
-- 
2.43.0


From 89c4c07f76dddc5556db414a46cf41e0c016998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 061/100] fix: prime_range includes its lower end when it
 sieves in segments

---
 rosemary/number_theory/primes/sieves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 8622968..9001a27 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -531,7 +531,7 @@ def prime_range(a, b=None):
         # case, then we yield the primes <= sqrt(b) first.
         if a <= sqrt:
             # If a*a <= b, iterate over the primes a <= p <= sqrt(b) first.
-            idx = bisect(prime_list, a)
+            idx = bisect_left(prime_list, a)
             for i in range(idx, len(prime_list)):
                 yield prime_list[i]
 
-- 
2.43.0


From 7f63ef0bfb85ef861e6e8fd99e9adbbc9a7b42d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 062/100] fix: the prime after zero is two

---
 rosemary/number_theory/primes/primality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..92cdc0a 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -234,7 +234,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
-- 
2.43.0


From 5b2231121acce403a4485c9049c465668c288a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 063/100] fix: the probable prime after zero is two

---
 rosemary/number_theory/primes/primality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index 92cdc0a..aae83ac 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -257,7 +257,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
-- 
2.43.0


From 17feb4b7e90ce5448bccba74e9b17ec7b0a186d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 064/100] fix: lmo_bit counts primes up to perfect cubes

---
 rosemary/number_theory/primes/prime_counting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ac1c280..9a8d948 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,13 +300,13 @@ def lmo(x):
 
 
 def lmo_bit(x):
-    root = int(x**(2.0/3.0))
+    root = integer_nth_root(3, x**2)
 
     primes = sieves.primes(root)
-    t = x**(0.33333333333333)
+    t = integer_nth_root(3, x)
 
     c = bisect(primes, t)
-    b = bisect(primes, x**(0.5))
+    b = bisect(primes, integer_sqrt(x))
 
     value = (b + c - 2)*(b - c + 1)//2
 
-- 
2.43.0


From daa0ba39b3b442591729a63f60621d7e25757e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 065/100] fix: lmo_bit counts primes below eight

---
 rosemary/number_theory/primes/prime_counting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 9a8d948..5c6235f 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,6 +300,9 @@ def lmo(x):
 
 
 def lmo_bit(x):
+    if x < 8:
+        return bisect(_PRIME_LIST, x)
+
     root = integer_nth_root(3, x**2)
 
     primes = sieves.primes(root)
-- 
2.43.0


From e749d2aa503d67809ea398d6e997b7b5bd44ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 066/100] fix: prime_sum2(0)

---
 rosemary/number_theory/primes/prime_counting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 5c6235f..7314300 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -361,6 +361,9 @@ def lmo_bit(x):
 
 
 def prime_sum2(n):
+    if n <= 1:
+        return 0
+
     root = integer_sqrt(n)
     primes = sieves.primes(root)
     a = len(primes)
-- 
2.43.0


From 7cb39193f7698a1ba2e21045ceacd9133f86012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 067/100] fix: prime_sum(0)

---
 rosemary/number_theory/primes/prime_counting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 7314300..84e761f 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -403,6 +403,9 @@ def prime_sum2(n):
 
 
 def prime_sum(n):
+    if n <= 1:
+        return 0
+
     r = integer_sqrt(n)
     V = [n//i for i in range(1, r + 1)]
     V += range(V[-1] - 1, 0, -1)
-- 
2.43.0


From 9b80e45373daebe58b5c338307522c140486c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 068/100] fix: pi_table when there are no primes

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 84e761f..ff1ef6d 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -459,7 +459,7 @@ def pi_table(n):
         table[last:p] = [i]*(p - last)
         last = p
 
-    table[last:n + 1] = [i + 1]*(n + 1 - last)
+    table[last:n + 1] = [len(primes)]*(n + 1 - last)
 
     return primes, table
 
-- 
2.43.0


From 6528f353b1dff9eaf44a09f25221cae032e3e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 069/100] fix: prime_count counts no primes up to one

---
 rosemary/number_theory/primes/prime_counting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ff1ef6d..b63a41f 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -476,4 +476,7 @@ def prime_count(n):
                 if v < p*p:
                     break
                 S[v] -= (S[v//p] - S[p - 1])
+
+    # One was counted with the odd numbers.
+    S[1] = 0
     return S
-- 
2.43.0


From 91f76f9f8e425a295c5729ea0378842c083af7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 070/100] fix: lehmer looks counts up for all arguments its
 primes cover

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index b63a41f..9c3efe5 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -203,7 +203,7 @@ def lehmer(n):
                          x//24310 - x//34034 - x//15015 - x//19635 - x//23205 - x//36465 - x//51051 - x//85085 +
                          x//30030 + x//39270 + x//46410 + x//72930 + x//102102 + x//170170 + x//255255 - x//510510)
 
-        elif a >= bisect(primes, x**(0.5)) and x < primes[-1]:
+        elif a >= bisect(primes, x**(0.5)) and x <= root:
             pi = bisect(primes, x)
             value = pi - a + 1
 
-- 
2.43.0


From 119dc0557be6322f2010933da1106f49b766a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 071/100] fix: fermat factors squares of primes and proves 3
 prime

---
 rosemary/number_theory/factorization/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 2ed8636..c1b4d13 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,10 +137,11 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n) + 1, (n + 9)//6 + 1):
+    # Start at the least a with a^2 >= n, so that squares are not missed.
+    for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
-        if b*b == t:
+        if b*b == t and a - b > 1:
             return a - b
 
     return n
-- 
2.43.0


From 4aea8d396c4a0e7d6b5a8b2efc615f3c69709a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 072/100] fix: lehman searches from the ceiling of the square
 root, up to a rounded up cube root

---
 rosemary/number_theory/factorization/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index c1b4d13..f1b5a32 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -185,8 +185,8 @@ def lehman(n):
     >>> lehman(1112470797641561909)
     1056689261L
     """
-    # first, we trial divide up to floor(n^(1/3))
-    bound = integer_nth_root(3, n)
+    # first, we trial divide up to n^(1/3), rounded up
+    bound = integer_nth_root(3, n) + 1
     d = trial_division(n, bound)
     if d < n:
         return d
@@ -201,7 +201,7 @@ def lehman(n):
         # we want to iterate over a, where 4*k*n <= a^2 <= 4*k*n + bound^2
         # and a = r (mod m)
         fkn = 4*k*n
-        a = integer_sqrt(fkn)
+        a = integer_sqrt(fkn - 1) + 1
         # now, increase a until a = r (mod m)
         rm = r % m
         while a % m != rm:
-- 
2.43.0


From 6697273d098f6cf3ed5dc7d4927ccb111c09242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 073/100] fix: cfrac finds a divisor when the period is short
 or the relations are trivial

---
 .../number_theory/factorization/algorithms.py | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index f1b5a32..32b11b5 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -491,7 +491,12 @@ def cfrac(n, k=None):
     # Choose a multiplier if none is provided.
     if k is None:
         k = _cfrac_multiplier(n)
-    kn = k*n
+
+    # The method cannot split powers of a prime.
+    for e in range(2, n.bit_length()):
+        root = integer_nth_root(e, n)
+        if root**e == n:
+            return root
 
     # Perform simple trial division by the primes we computed to find any
     # small prime divisors.
@@ -499,6 +504,24 @@ def cfrac(n, k=None):
         if n % p == 0:
             return p
 
+    # The relations found with one multiplier may all be trivial, so fall back
+    # on others.
+    for multiplier in itertools.chain([k], range(1, 1000)):
+        d = _cfrac_split(n, multiplier, prime_list)
+        if d is not None:
+            return d
+
+    return n
+
+
+def _cfrac_split(n, k, prime_list):
+    r"""Returns a nontrivial divisor of `n`, or None if the relations found
+    from the continued fraction expansion of sqrt(k*n) are all trivial.
+    """
+    kn = k*n
+    if integer_sqrt(kn)**2 == kn:
+        return None
+
     # Our factor base needs to include -1 and 2, and the odd primes p for
     # which (kN|p) = 0 or 1.
     factor_base = [-1]
@@ -531,6 +554,8 @@ def cfrac(n, k=None):
 
     while num_smooths_found <= num_primes:
         (i, a, q) = next(aq_pairs)
+        # Q_i = 1 ends the period of the expansion; relations repeat after it.
+        period_ended = (q == 1)
 
         # This is from the batch smoothness test given as Algorithm 3.3.1
         # in [1].
@@ -547,6 +572,9 @@ def cfrac(n, k=None):
         num_smooths_found += 1
         a_list.append(a)
 
+        if period_ended:
+            break
+
     kernel = _z2_gaussian_elimination(exponent_matrix)
 
     for i in range(len(kernel)):
@@ -567,6 +595,8 @@ def cfrac(n, k=None):
             if 1 < d < n:
                 return d
 
+    return None
+
 
 def _z2_gaussian_elimination(exponents):
     r"""Returns the zero linear combinations of the given vectors.
-- 
2.43.0


From 089f63b5a4547a21f23380b86317a824527d8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 074/100] fix: divisor functions accept the factorization of
 one

---
 .../number_theory/factorization/factorization.py  | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..5583b3a 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -187,8 +187,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
-            factorization = factorization[1:]
+        factorization = [(p, e) for (p, e) in factorization if p > 1]
 
     p_divisors = [p for (p, e) in factorization]
     div_list = []
@@ -234,8 +233,7 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
-            factorization = factorization[1:]
+        factorization = [(p, e) for (p, e) in factorization if p > 1]
 
     div_list = divisors(n, factorization=factorization)
 
@@ -279,8 +277,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
-            factorization = factorization[1:]
+        factorization = [(p, e) for (p, e) in factorization if p > 1]
 
     return [p for (p, e) in factorization]
 
@@ -312,8 +309,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
-            factorization = factorization[1:]
+        factorization = [(p, e) for (p, e) in factorization if p > 1]
 
     p_divisors = [p for (p, e) in factorization]
     iter_list = (range(e + 1) for (p, e) in factorization)
@@ -331,8 +327,7 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
-            factorization = factorization[1:]
+        factorization = [(p, e) for (p, e) in factorization if p > 1]
 
     pk_divisors = [p**k for (p, k) in factorization]
     div_list = [1, n]
-- 
2.43.0


From 83764c37f9e498d5f10ccfb44ca7081b22da0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 075/100] fix: divisor_pairs works from a factorization and for
 negative integers

---
 rosemary/number_theory/factorization/factorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 5583b3a..b8540fa 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -235,7 +235,8 @@ def divisor_pairs(n=None, factorization=None):
     else:
         factorization = [(p, e) for (p, e) in factorization if p > 1]
 
-    div_list = divisors(n, factorization=factorization)
+    div_list = divisors(factorization=factorization)
+    n = div_list[-1]
 
     pairs = []
     for d in div_list:
-- 
2.43.0


From 9b6fe019a7a2233210210cc638aee4336f66f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 076/100] fix: unitary_divisors works from a factorization, for
 one and for negative integers

---
 rosemary/number_theory/factorization/factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index b8540fa..7a9e145 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -331,9 +331,9 @@ def unitary_divisors(n=None, factorization=None):
         factorization = [(p, e) for (p, e) in factorization if p > 1]
 
     pk_divisors = [p**k for (p, k) in factorization]
-    div_list = [1, n]
+    div_list = [1]
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(1, len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From 9063bcbe7a9f452d6f95ce44c4cc02c40081f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 077/100] fix: arithmetic functions accept the empty
 factorization of one

---
 rosemary/number_theory/arithmetic_functions/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/arithmetic_functions/functions.py b/rosemary/number_theory/arithmetic_functions/functions.py
index 573442d..dc7e71d 100644
--- a/rosemary/number_theory/arithmetic_functions/functions.py
+++ b/rosemary/number_theory/arithmetic_functions/functions.py
@@ -53,6 +53,8 @@ def _validate_input(n):
             message = "{}: Must have n > 0.".format(caller_name)
             raise ValueError(message)
         factorization = rosemary.number_theory.factorization.factorization.factor(n)
+    elif n == []:
+        return [(1, 1)]
     elif isinstance(n, list) and n[0][0] > 0:
         factorization = n
     else:
-- 
2.43.0


From c088d6d2a81eccce65acae9f0463f0bffbbc30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 078/100] fix: factor handles negative integers when detecting
 powers

---
 .../number_theory/factorization/factorization.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 7a9e145..4739d6c 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -76,6 +76,12 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     if n == 0:
         raise ValueError("Prime factorization of 0 not defined")
 
+    # Take care of the sign
+    sign = []
+    if n < 0:
+        sign = [(-1, 1)]
+        n *= -1
+
     # Detect perfect powers.
     if not skip_power_detection:
         ab = rosemary.number_theory.classification.is_power(n)
@@ -86,11 +92,6 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     else:
         (n, multiplier) = (n, 1)
 
-    # Take care of the sign
-    if n < 0:
-        fac[-1] = 1
-        n *= -1
-
     # Strip off all small factors of n
     for p in _PRIME_LIST:
         if n == 1:
@@ -117,7 +118,7 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
                 fac[d] += 1
                 n = n // d
 
-    factorization = sorted([(p, fac[p]*multiplier) for p in fac])
+    factorization = sign + sorted([(p, fac[p]*multiplier) for p in fac])
     return factorization
 
 
-- 
2.43.0


From 3f3b417e20760a64fad80218650e769e9b060126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 079/100] fix: inverse_phi changes its cache while iterating
 over it, and misses one

---
 .../arithmetic_functions/inverse_functions.py     | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..e7c7e2d 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -103,21 +103,18 @@ def euler_phi_inverse(n):
 def inverse_phi(n):
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
     phi_cache = defaultdict(list)
+    phi_cache[1] = [1]
 
     for p in prime_list[::-1]:
         a = p - 1
         pk = p
+        # The values found so far, none of which is divisible by p.
+        coprime = [(b, x) for b in phi_cache for x in phi_cache[b]]
 
         while a <= n:
-            if n % a == 0:
-                phi_cache[a] += [pk]
-
-            for b in phi_cache.keys():
-                if a*b > n:
-                    continue
-                for x in phi_cache[b]:
-                    if x % p != 0 and n % (a*b) == 0:
-                        phi_cache[a*b] += [x*pk]
+            for (b, x) in coprime:
+                if n % (a*b) == 0:
+                    phi_cache[a*b] += [x*pk]
 
             a *= p
             pk *= p
-- 
2.43.0


From 43fe38374f2efa3be3241531f676dd6587b577dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 080/100] fix: multiplicative_order modulo one

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 7e7d5c2..9866dc6 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -723,7 +723,7 @@ def multiplicative_order(
 
     # Guaranteed to exist since (a, n) = 1
     for d in phi_divisors:
-        if pow(a, d, n) == 1:
+        if pow(a, d, n) == 1 % n:
             return d
 
 
-- 
2.43.0


From bfbf74359630bad9430377a75c94ae53df0d3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 081/100] fix: sqrts_mod_p reduces the powers it takes, so that
 it ends for primes with p - 1 highly even

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 9866dc6..99c3c45 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -329,7 +329,7 @@ def sqrts_mod_p(a, p):
         m = 0
 
         for i in range(s):
-            if pow(A*D**m, 2**(s - 1 - i), p) == p - 1:
+            if pow(A*pow(D, m, p), 2**(s - 1 - i), p) == p - 1:
                 m += 2**i
 
         x = pow(a, (t + 1)//2, p)*pow(D, m//2, p) % p
-- 
2.43.0


From 9306b516d49af884441ccd2a221fdab01570ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 082/100] fix: square roots modulo one

---
 rosemary/number_theory/zn_arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 99c3c45..f2b87b1 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -489,7 +489,9 @@ def sqrts_mod_n(a, n, n_factorization=None):
         congruences.append(pairs)
         moduli.append(pk)
 
-    if len(congruences) == 1:
+    if len(congruences) == 0:
+        values = [0]
+    elif len(congruences) == 1:
         values = [r for (r, _) in congruences[0]]
     else:
         preconditioning_data = crt_preconditioning_data(moduli)
-- 
2.43.0


From c72657b4d4fa39af8fe6742197b39bfdcb6a8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 083/100] fix: period of a quadratic irrational whose terms had
 to be scaled

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 4f09d9b..f398830 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -62,7 +62,7 @@ class QuadraticIrrational(object):
             D = q*q*d
             r = integer_sqrt(D)
 
-        pq_pairs = {(p, q): 0}
+        pq_pairs = {(P, Q): 0}
         partial_quotients = []
 
         for i in itertools.count(1):
-- 
2.43.0


From 1be785d1f4590b1e53fdbdc44c1480d1ae5c03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 084/100] fix: partial quotients of quadratic irrationals with
 negative denominators

---
 rosemary/number_theory/continued_fractions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index f398830..20b31b2 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -66,7 +66,8 @@ class QuadraticIrrational(object):
         partial_quotients = []
 
         for i in itertools.count(1):
-            a = (P + r)//Q
+            # The floor of (P + sqrt(D))/Q.
+            a = (P + r + (Q < 0))//Q
             P = a*Q - P
             Q = (D - P*P)//Q
             partial_quotients.append(a)
-- 
2.43.0


From ad8518db85e58aa3ce2ca41fe6cab963e8cf105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 085/100] fix: string form of p + sqrt(d)

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 20b31b2..3006886 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -30,7 +30,7 @@ class QuadraticIrrational(object):
                 s = "sqrt({})/{}".format(self.d, self.q)
         else:
             if self.q == 1:
-                s = "{} + sqrt({})".format(self.q, self.d)
+                s = "{} + sqrt({})".format(self.p, self.d)
             else:
                 s = "({} + sqrt({}))/{}".format(self.p, self.d, self.q)
 
-- 
2.43.0


From 3ab6e934f52b89f123841dd439ccf991395c9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 086/100] fix: PellEquation.resolvent_solution uses undefined
 names

---
 rosemary/number_theory/diophantine_equations/pell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..79eb1f0 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -14,7 +14,7 @@ class PellEquation(object):
     def __repr__(self):
         return "Pell Equation x^2 - {}*y^2 = {}".format(self.D, self.N)
 
-    def resolvent_solution(self):
+    def resolvent_solution(self, n=1):
         r"""Returns the fundamental solution to the Pell equation
         x**2 - D*y**2 == n, where n in (-1, 1).
 
@@ -74,6 +74,7 @@ class PellEquation(object):
         ...
         ValueError: pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).
         """
+        D = self.D
         if D <= 0 or is_square(D) or n not in (1, -1):
             raise ValueError("pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).")
 
-- 
2.43.0


From 1a179dd8ccb2466dbc69ab2679085ca5baa8a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 087/100] fix: pell_minimal_positive_solutions misses the class
 of (sqrt(N), 0) and reports x = 0 as positive

---
 rosemary/number_theory/diophantine_equations/pell.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 79eb1f0..c3115d7 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -273,7 +273,7 @@ def pell_minimal_positive_solutions(D, N):
     for r in residues:
         for x in range(r, B, D):
             y = is_square((x*x - N) // D)
-            if y > 0 and y is not False:
+            if y is not False:
                 if (-x*x - D*y*y) % N == 0 and 2*x*y % N == 0:
                     fundamental_solutions.append((x, y))
                 else:
@@ -283,9 +283,9 @@ def pell_minimal_positive_solutions(D, N):
     # Find the minimal positive solutions for each class.
     minimal_positive_solutions = []
     for (x, y) in fundamental_solutions:
-        if x < 0:
+        if x <= 0 or y == 0:
             if N > 0:
-                (p, q) = (-x, -y)
+                (p, q) = (abs(x), -y)
             else:
                 (p, q) = (x, y)
             p, q = p*u + q*v*D, p*v + q*u
-- 
2.43.0


From 4e32c7c9f296a6d91accb4a26c26f9393edd75c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 088/100] fix: pell_small checks its documented bound on N

---
 rosemary/number_theory/diophantine_equations/pell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index c3115d7..0f8a800 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -166,7 +166,7 @@ def pell_fundamental_solution(D, n=1):
 
 
 def pell_small(D, N):
-    if D <= 0 or is_square(D) or D*D <= N:
+    if D <= 0 or is_square(D) or N*N >= D:
         raise ValueError("pell_small: Must have D > 0 not a perfect square and N < sqrt(D)")
 
     contfrac = QuadraticIrrational(D)
-- 
2.43.0


From 516d09d4591b21bd7cc6cc740ceea0d4aa0b509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 089/100] fix: largest_divisor calls a missing function, and
 multiplies prime powers past n

---
 rosemary/number_theory/misc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..12404e1 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,6 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
+import rosemary.number_theory.factorization.factorization
 
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
@@ -31,13 +31,11 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
+    n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
     L = []
     for (p, e) in n_factorization:
-        pp = p
         for _ in range(e):
-            L.append(pp)
-            pp *= p
+            L.append(p)
 
     k = len(L) // 2
     P1 = L[:k]
@@ -46,10 +44,10 @@ def largest_divisor(n, b):
     # Form all of the products in each half
     prods1 = [1]
     for p in P1:
-        prods1 += [x*p for x in prods1 if x*p <= b and n % (x*p) == 0]
+        prods1 = list({y for x in prods1 for y in (x, x*p) if y <= b})
     prods2 = [1]
     for p in P2:
-        prods2 += [x*p for x in prods2 if x*p <= b and n % (x*p) == 0]
+        prods2 = list({y for x in prods2 for y in (x, x*p) if y <= b})
 
     prods1.sort()
     prods2.sort(reverse=True)
-- 
2.43.0


From 17f4d45e088c8dd1f87daca63f2b4280deccd7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 090/100] fix: bernoulli_list(0)

---
 rosemary/number_theory/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 12404e1..1d9240d 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -158,7 +158,8 @@ def bernoulli_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = Fraction(-1, 2)
+    if n >= 1:
+        values[1] = Fraction(-1, 2)
 
     for m in range(2, n + 1, 2):
         total = 1
-- 
2.43.0


From 7b0623344e6632f6aa28f02ee601fd6e7593fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 091/100] fix: longest_ap misses pairs ending at the last
 element

---
 rosemary/number_theory/arithmetic_progressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_progressions.py b/rosemary/number_theory/arithmetic_progressions.py
index f7bb392..ab85c90 100644
--- a/rosemary/number_theory/arithmetic_progressions.py
+++ b/rosemary/number_theory/arithmetic_progressions.py
@@ -70,8 +70,9 @@ def longest_ap(A):
         >>> longest_ap(p_list)
         [(199, 409, 619, 829, 1039, 1249, 1459, 1669, 1879, 2089)]
     """
-    L = {}
     n = len(A)
+    # L[i, j] is the length of the longest progression starting with A[i], A[j].
+    L = {(i, n - 1): 2 for i in range(n - 1)}
     longest = 2
 
     for j in range(n - 2, 0, -1):
-- 
2.43.0


From ff6ee855acf150089ee536f3c6bf4ce7a6072a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 092/100] fix: the probable prime test, and with it factor, no
 longer takes the composite 341550071728321 for a prime

---
 rosemary/number_theory/primes/primality.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index aae83ac..5c9e990 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -180,7 +180,9 @@ def is_probable_prime(n):
         Crandall and Pomerance for details.
     """
     # return all(solovay_strassen(n, a) for a in range(2, min(n - 1, 20)))
-    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 20)))
+    # No composite below 3317044064679887385961981 passes for the first 13 primes.
+    bases = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
+    return all(miller_rabin(n, a) for a in bases if a < n - 1)
 
 
 def is_prime(n):
-- 
2.43.0


From 9fcb37ff0d29456ddd1a6b85c32109bd39e61198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 093/100] fix: pell_minimal_positive_solutions bounds its
 search with integers rather than floats

---
 rosemary/number_theory/diophantine_equations/pell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 0f8a800..9e430b9 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -1,5 +1,6 @@
 from rosemary.number_theory.classification import is_square
 from rosemary.number_theory.continued_fractions import QuadraticIrrational
+from rosemary.number_theory.core import integer_sqrt
 from rosemary.number_theory.zn_arithmetic import sqrts_mod_n
 
 
@@ -251,10 +252,10 @@ def pell_minimal_positive_solutions(D, N):
 
     if N > 0:
         # See Theorem 7.1 in [2]
-        B = int(((u + 1)*N / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u + 1)*N // 2) + 1
     else:
         # See Theorem 7.2 in [2]
-        B = int(((u - 1)*(-N) / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u - 1)*(-N) // 2) + 1
 
     # We can proceed in two different ways at this point:
     # 1) We can check all values of y in the range described in Theorems
-- 
2.43.0


From e3249be5977fd9464a73b2a4a5fbd24dbfb3e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 094/100] fix: branch_and_bound_depth_first compares exact
 ratios of value to weight

---
 rosemary/combinatorics/optimization/knapsack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index a2deb3b..4a06550 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -10,6 +10,7 @@ constraint \\sum_{i = 0}^{n - 1} w_i x_i <= M.
 
 import math
 import random
+from fractions import Fraction
 
 
 def depth_first(items, capacity):
@@ -93,7 +94,7 @@ def dynamic_programming(items, capacity):
 
 
 def branch_and_bound_depth_first(items, capacity):
-    unit_cost = [(float(v)/float(w), v, w, i) for (i, (v, w)) in enumerate(items)]
+    unit_cost = [(Fraction(v)/Fraction(w), v, w, i) for (i, (v, w)) in enumerate(items)]
     unit_cost.sort(reverse=True)
     num_items = len(items)
     best = [0, []]
-- 
2.43.0


From 26d581e64e8f863670295345e1a9e1339756865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 095/100] fix: floyd_warshall: do not add distances to
 infinity, which fails on weights beyond the range of floats

---
 rosemary/graphs/algorithms/paths.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index 8d582fa..1cd10e2 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -728,7 +728,11 @@ def floyd_warshall(graph):
             raise ValueError("Negative Cycle!")
 
         for v in vertices:
+            if dist[v, u] == inf:
+                continue
             for w in vertices:
+                if dist[u, w] == inf:
+                    continue
                 if dist[v, w] > dist[v, u] + dist[u, w]:
                     dist[v, w] = dist[v, u] + dist[u, w]
                     pred[v, w] = pred[u, w]
-- 
2.43.0


From 6fb06d6aebe72d53fa3f489528d90d49763afccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 096/100] fix: gabow: leave exhausted exchanges out of the heap
 instead of adding infinity, which fails on weights beyond the range of floats

---
 rosemary/graphs/algorithms/spanning_trees.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 1bc7984..be943ab 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -369,13 +369,15 @@ def gabow(graph, k=None):
     (exchange_weight, e, f) = find_exchange(father, [], [])
     # The counter breaks ties, since the remaining entries can't be compared.
     counter = count()
-    heap = [(tree_weight + exchange_weight, e, f, next(counter), father, [], [])]
+    heap = []
+    if f is not None:
+        heap.append((tree_weight + exchange_weight, e, f, next(counter), father, [], []))
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
-    while j < k:
+    while heap and j < k:
         (tree_weight, e, f, _, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
@@ -398,8 +400,10 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, next(counter), father, included_i, excluded))
+        if f is not None:
+            heappush(heap, (new_tree_weight + exchange_weight, e, f, next(counter), father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, next(counter), new_father, included, excluded_j))
+        if f is not None:
+            heappush(heap, (tree_weight + exchange_weight, e, f, next(counter), new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From 9f70b69257314b1cc1074b37c3e8ced25a67eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 097/100] fix: is_square and is_power accept the empty
 factorization of one

---
 rosemary/number_theory/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/classification.py b/rosemary/number_theory/classification.py
index 1c1e69f..38cf072 100644
--- a/rosemary/number_theory/classification.py
+++ b/rosemary/number_theory/classification.py
@@ -88,7 +88,7 @@ def is_square(n):
 
     """
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             return False
         n_factorization = n[:]
         sqrt = 1
@@ -177,7 +177,7 @@ def is_power(n, k=None, detect_only=False):
         raise ValueError("is_power: Must have k >= 1.")
 
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             raise ValueError("is_power: Must have n >= 1.")
         n_factorization = n[:]
 
@@ -189,6 +189,8 @@ def is_power(n, k=None, detect_only=False):
                 else:
                     return False
             return (kth_root, k)
+        elif not n_factorization:
+            return False
         else:
             exponents = [e for (p, e) in n_factorization]
             d = gcd_list(exponents)
-- 
2.43.0


From b32b3deca31ff5410973cf418becd31e438417c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 098/100] fix: is_square and is_power accept the factorization
 of one that factored_range yields

---
 rosemary/number_theory/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/classification.py b/rosemary/number_theory/classification.py
index 38cf072..b11eb34 100644
--- a/rosemary/number_theory/classification.py
+++ b/rosemary/number_theory/classification.py
@@ -90,7 +90,7 @@ def is_square(n):
     if isinstance(n, list):
         if n and n[0][0] == -1:
             return False
-        n_factorization = n[:]
+        n_factorization = [(p, e) for (p, e) in n if p != 1]
         sqrt = 1
         for (p, e) in n_factorization:
             if e % 2 == 1:
@@ -179,7 +179,7 @@ def is_power(n, k=None, detect_only=False):
     if isinstance(n, list):
         if n and n[0][0] == -1:
             raise ValueError("is_power: Must have n >= 1.")
-        n_factorization = n[:]
+        n_factorization = [(p, e) for (p, e) in n if p != 1]
 
         kth_root = 1
         if k is not None:
-- 
2.43.0


From 4f00475f918386e4399acefca483750f9fe58709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 099/100] fix: carmichael_lambda accepts the factorizations of
 one, euler_phi_inverse the empty one

---
 rosemary/number_theory/arithmetic_functions/functions.py        | 2 ++
 .../number_theory/arithmetic_functions/inverse_functions.py     | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_functions/functions.py b/rosemary/number_theory/arithmetic_functions/functions.py
index dc7e71d..a94c233 100644
--- a/rosemary/number_theory/arithmetic_functions/functions.py
+++ b/rosemary/number_theory/arithmetic_functions/functions.py
@@ -439,6 +439,8 @@ def carmichael_lambda(n):
         elif n <= 0:
             raise ValueError("carmichael_lambda: Must have n > 0.")
         n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
+    elif n in ([], [(1, 1)]):
+        return 1
     elif isinstance(n, list) and n[0][0] > 0:
         n_factorization = n
     else:
diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index e7c7e2d..d8b9c1d 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -51,7 +51,7 @@ def euler_phi_inverse(n):
         elif n <= 0:
             raise ValueError("euler_phi_inverse: Must have n > 0.")
         n_factorization = factor.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         n_factorization = n
         n = factor.factor_back(n_factorization)
     else:
-- 
2.43.0


From 4efbd27dc2191f93e0cb174a7b722c2138a1db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 100/100] fix: density of a graph with fewer than two vertices
 divides by zero, as does a verbose maxis on it

---
 rosemary/graphs/graphs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 3cce72b..e24e08c 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -420,6 +420,11 @@ class Graph(object):
         """
         num_vertices = self.num_vertices()
         num_edges = self.num_edges()
+
+        # There are no possible edges with fewer than two vertices.
+        if num_vertices < 2:
+            return 0.0
+
         total_possible = num_vertices*(num_vertices - 1) / 2.0
         density = num_edges / total_possible
         return density
-- 
2.43.0

