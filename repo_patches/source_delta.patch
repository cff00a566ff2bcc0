From 274c25341ba0b50b8d267168327f9756c9d59109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 01/36] fix: minimum spanning trees must not share vertices
 with the input graph

---
 pydatastructs/graphs/algorithms.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6c2182f..95da412 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -225,8 +225,14 @@ def _breadth_first_search_parallel_adjacency_list(
 
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
+def _copy_vertex(graph, name):
+    # The vertices of the result must not be shared with the input,
+    # adding edges to the result modifies the vertices it contains.
+    node = graph.__getattribute__(str(name))
+    return type(node)(node.name, node.data)
+
 def _generate_mst_object(graph):
-    mst = Graph(*[getattr(graph, str(v)) for v in graph.vertices])
+    mst = Graph(*[_copy_vertex(graph, v) for v in graph.vertices])
     return mst
 
 def _sort_edges(graph, num_threads=None):
@@ -263,10 +269,10 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     while not q.is_empty:
         v = q.pop()
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph, v))
             if e.get(v, None) is not None:
                 edge = e[v]
-                mst.add_vertex(edge.target)
+                mst.add_vertex(_copy_vertex(graph, edge.target.name))
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
@@ -405,10 +411,10 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
         q[idx].pop()
 
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph, v))
             if e[idx].get(v, None) is not None:
                 edge = e[idx][v]
-                mst.add_vertex(edge.target)
+                mst.add_vertex(_copy_vertex(graph, edge.target.name))
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
-- 
2.43.0


From 1dcab7d5255e18b9bbf6efabf38d0fe015dd592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 02/36] fix: kahn's topological sort must not remove the edges
 of its input graph

---
 pydatastructs/graphs/algorithms.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 95da412..40daede 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1093,7 +1093,6 @@ def _kahn_adjacency_list(graph: Graph) -> list:
         n = S.popleft()
         L.append(n)
         for m in graph.neighbors(n):
-            graph.remove_edge(n, m.name)
             in_degree[m.name] -= 1
             if in_degree[m.name] == 0:
                 S.append(m.name)
-- 
2.43.0


From 4b41d65b1830a9d405d7283ba021a1d169394bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 03/36] fix: parallel topological sort must not destroy its
 input graph nor drop failures of its jobs

---
 pydatastructs/graphs/algorithms.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 40daede..f7e0901 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1159,32 +1159,34 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
 
 def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     num_vertices = len(graph.vertices)
+    # The remaining part of the graph, the input is left as it is.
+    adjacency = {u: [v.name for v in graph.neighbors(u)]
+                 for u in graph.vertices}
 
-    def _collect_source_nodes(graph: Graph) -> list:
+    def _collect_source_nodes(adjacency: dict) -> list:
         S = []
-        in_degree = {u: 0 for u in graph.vertices}
-        for u in graph.vertices:
-            for v in graph.neighbors(u):
-                in_degree[v.name] += 1
+        in_degree = {u: 0 for u in adjacency}
+        for u in adjacency:
+            for v in adjacency[u]:
+                in_degree[v] += 1
         for u in in_degree:
             if in_degree[u] == 0:
                 S.append(u)
         return list(S)
 
-    def _job(graph: Graph, u: str):
-        for v in graph.neighbors(u):
-            graph.remove_edge(u, v.name)
+    def _job(adjacency: dict, u: str):
+        adjacency[u] = []
 
     L = []
-    source_nodes = _collect_source_nodes(graph)
+    source_nodes = _collect_source_nodes(adjacency)
     while source_nodes:
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in source_nodes:
                 L.append(node)
-                Executor.submit(_job, graph, node)
+                Executor.submit(_job, adjacency, node).result()
         for node in source_nodes:
-            graph.remove_vertex(node)
-        source_nodes = _collect_source_nodes(graph)
+            adjacency.pop(node)
+        source_nodes = _collect_source_nodes(adjacency)
 
     if len(L) != num_vertices:
         raise ValueError("Graph is not acyclic.")
-- 
2.43.0


From 177c017aa3aa3964644497e82a902631b2b6a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 04/36] fix: johnson's algorithm must not reweight its input
 graph

---
 pydatastructs/graphs/algorithms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index f7e0901..c0fdf6c 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -231,6 +231,15 @@ def _copy_vertex(graph, name):
     node = graph.__getattribute__(str(name))
     return type(node)(node.name, node.data)
 
+def _copy_graph(graph):
+    new_graph = Graph(*[_copy_vertex(graph, v) for v in graph.vertices],
+                      implementation=graph._impl)
+    for u in graph.vertices:
+        for v in graph.neighbors(u):
+            edge = graph.get_edge(u, v.name)
+            new_graph.add_edge(u, v.name, edge.value if edge is not None else None)
+    return new_graph
+
 def _generate_mst_object(graph):
     mst = Graph(*[_copy_vertex(graph, v) for v in graph.vertices])
     return mst
@@ -981,6 +990,8 @@ def _floyd_warshall_adjacency_list(graph: Graph):
 _floyd_warshall_adjacency_matrix = _floyd_warshall_adjacency_list
 
 def _johnson_adjacency_list(graph: Graph):
+    # Reweighting is done on a copy, the input is left as it is.
+    graph = _copy_graph(graph)
     new_vertex = AdjacencyListGraphNode('__q__')
     graph.add_vertex(new_vertex)
 
-- 
2.43.0


From 17a78764bb96aabf8369b327faed73d1a0318742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 05/36] fix: constructing an array must not convert the
 caller's list in place

---
 .../linear_data_structures/arrays.py          | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2e0c3fd..10951ca 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -90,15 +90,9 @@ class OneDimensionalArray(Array):
         if len(args) == 2:
             if _check_type(args[0], list) and \
                 _check_type(args[1], int):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
                 size, data = args[1], list(args[0])
             elif _check_type(args[1], list) and \
                 _check_type(args[0], int):
-                for i in range(len(args[1])):
-                    if _check_type(args[1][i], dtype) is False:
-                        args[1][i] = dtype(args[1][i])
                 size, data = args[0], list(args[1])
             else:
                 raise TypeError("Expected type of size is int and "
@@ -106,6 +100,9 @@ class OneDimensionalArray(Array):
             if size != len(data):
                 raise ValueError("Conflict in the size, %s and length of data, %s"
                                  %(size, len(data)))
+            for i in range(size):
+                if _check_type(data[i], dtype) is False:
+                    data[i] = dtype(data[i])
             obj._size, obj._data = size, data
 
         elif len(args) == 1:
@@ -114,11 +111,11 @@ class OneDimensionalArray(Array):
                 init = kwargs.get('init', None)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
-                obj._size, obj._data = len(args[0]), \
-                                        list(args[0])
+                data = list(args[0])
+                for i in range(len(data)):
+                    if _check_type(data[i], dtype) is False:
+                        data[i] = dtype(data[i])
+                obj._size, obj._data = len(data), data
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
-- 
2.43.0


From 204ddea10e10c37f4e603034571a8fce11f92037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 06/36] fix: constructing a segment tree must not rewrite the
 caller's list of segments

---
 pydatastructs/trees/space_partitioning_trees.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index f13c1f2..382775b 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -57,10 +57,7 @@ class OneDimensionalSegmentTree(object):
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
                     raise ValueError('%s is invalid set of intervals'%(segs))
-        for i in range(len(segs)):
-            segs[i] = list(segs[i])
-            segs[i].sort()
-        obj.segments = list(segs)
+        obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
 
-- 
2.43.0


From b3864b29e6485656141b800e4b30f4a4e6fa6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 07/36] fix: binary and m-ary trees must order keys by the
 comparator they were given

---
 pydatastructs/trees/binary_trees.py | 5 +++--
 pydatastructs/trees/m_ary_trees.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 48446d1..6a90eb8 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -70,7 +70,7 @@ class BinaryTree(object):
         root.is_root = True
         obj.root_idx = 0
         obj.tree, obj.size = ArrayForTrees(TreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
@@ -1196,7 +1196,8 @@ class SplayTree(SelfBalancingBinaryTree):
         if e is None:
             return
         self.splay(e, p)
-        other = SplayTree(None, None)
+        other = SplayTree(None, None, self.comparator,
+                          self.is_order_statistic)
         if self.tree[self.root_idx].right is not None:
             traverse = BinaryTreeTraversal(self)
             elements = traverse.depth_first_search(order='pre_order', node=self.tree[self.root_idx].right)
diff --git a/pydatastructs/trees/m_ary_trees.py b/pydatastructs/trees/m_ary_trees.py
index a06fda9..11ef37d 100644
--- a/pydatastructs/trees/m_ary_trees.py
+++ b/pydatastructs/trees/m_ary_trees.py
@@ -59,7 +59,7 @@ class MAryTree(object):
         obj.root_idx = 0
         obj.max_children = max_children
         obj.tree, obj.size = ArrayForTrees(MAryTreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
-- 
2.43.0


From d36bb58f080bb11618068da77b5f9bc91dfcde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 08/36] fix: parallel breadth first search must visit each
 vertex once, in a fixed order, and honour every status

---
 pydatastructs/graphs/algorithms.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index c0fdf6c..811a58e 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -196,9 +196,9 @@ def _generate_layer(**kwargs):
     status = True
     if len(next_nodes) != 0:
         for next_node in next_nodes:
-            if visited.get(next_node, False) is False:
+            if visited.get(next_node.name, False) is False:
                 status = status and operation(curr_node, next_node.name, *op_args, **op_kwargs)
-                next_layer.add(next_node.name)
+                next_layer.append(next_node.name)
                 visited[next_node.name] = True
     else:
         status = status and operation(curr_node, "", *op_args, **op_kwargs)
@@ -207,18 +207,19 @@ def _generate_layer(**kwargs):
 def _breadth_first_search_parallel_adjacency_list(
     graph, source_node, num_threads, operation, *args, **kwargs):
     visited, layers = {}, {}
-    layers[0] = set()
-    layers[0].add(source_node)
+    layers[0] = []
+    layers[0].append(source_node)
     visited[source_node] = True
     layer = 0
     while len(layers[layer]) != 0:
-        layers[layer+1] = set()
+        layers[layer+1] = []
+        status = True
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in layers[layer]:
                 status = Executor.submit(
                          _generate_layer, args=
                          (graph, node, layers[layer+1], visited,
-                          operation, *args), kwargs=kwargs).result()
+                          operation, *args), kwargs=kwargs).result() and status
         layer += 1
         if not status:
             return None
-- 
2.43.0


From dcb40b6367c115d33bcded4a7b347843132a1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 09/36] fix: the C++ backend must refuse graph algorithms it
 does not have instead of returning None

---
 pydatastructs/graphs/algorithms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 811a58e..dd4e6bd 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -99,6 +99,9 @@ def breadth_first_search(
         if (graph._impl == "adjacency_matrix"):
             extra_args = args if args else ()
             return bfs_adjacency_matrix(graph, source_node, operation, extra_args)
+        raise NotImplementedError(
+            "Currently breadth first search isn't implemented for "
+            "%s graphs in the C++ backend."%(graph._impl))
 
 def _breadth_first_search_adjacency_list(
     graph, source_node, operation, *args, **kwargs):
@@ -368,6 +371,10 @@ def minimum_spanning_tree(graph, algorithm, **kwargs):
         from pydatastructs.graphs._backend.cpp._graph import minimum_spanning_tree_prim_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'prim':
             return minimum_spanning_tree_prim_adjacency_list(graph)
+        raise NotImplementedError(
+            "Currently %s algorithm for %s implementation of graphs isn't "
+            "implemented for finding minimum spanning trees in the C++ backend."
+            %(algorithm, graph._impl))
 
 def _minimum_spanning_tree_parallel_kruskal_adjacency_list(graph, num_threads):
     mst = _generate_mst_object(graph)
@@ -833,6 +840,10 @@ def shortest_paths(graph: Graph, algorithm: str,
         from pydatastructs.graphs._backend.cpp._graph import shortest_paths_dijkstra_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'dijkstra':
             return shortest_paths_dijkstra_adjacency_list(graph, source, target)
+        raise NotImplementedError(
+            "Currently %s algorithm for %s implementation of graphs isn't "
+            "implemented for finding shortest paths in the C++ backend."
+            %(algorithm, graph._impl))
 
 def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tuple:
     distances, predecessor, visited, cnts = {}, {}, {}, {}
-- 
2.43.0


From 6188638c94b8e9d1d33959d2826ee8dc7326fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 10/36] fix: string and graph algorithms must refuse names of
 algorithms they do not offer

---
 pydatastructs/graphs/algorithms.py  | 8 +++++---
 pydatastructs/strings/algorithms.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index dd4e6bd..b0a8cd6 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -831,7 +831,8 @@ def shortest_paths(graph: Graph, algorithm: str,
     if (backend == Backend.PYTHON):
         import pydatastructs.graphs.algorithms as algorithms
         func = "_" + algorithm + "_" + graph._impl
-        if not hasattr(algorithms, func):
+        if algorithm not in ('bellman_ford', 'dijkstra') or \
+            not hasattr(algorithms, func):
             raise NotImplementedError(
             "Currently %s algorithm isn't implemented for "
             "finding shortest paths in graphs."%(algorithm))
@@ -964,7 +965,8 @@ def all_pair_shortest_paths(graph: Graph, algorithm: str,
         all_pair_shortest_paths, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_" + algorithm + "_" + graph._impl
-    if not hasattr(algorithms, func):
+    if algorithm not in ('floyd_warshall', 'johnson') or \
+        not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algorithm isn't implemented for "
         "finding shortest paths in graphs."%(algorithm))
@@ -1094,7 +1096,7 @@ def topological_sort(graph: Graph, algorithm: str,
         topological_sort, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_" + algorithm + "_" + graph._impl
-    if not hasattr(algorithms, func):
+    if algorithm != 'kahn' or not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algorithm isn't implemented for "
         "performing topological sort on %s graphs."%(algorithm, graph._impl))
diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 1e26b94..64b111e 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -76,7 +76,9 @@ def find(text, query, algorithm, **kwargs):
             find, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.strings.algorithms as algorithms
     func = "_" + algorithm
-    if not hasattr(algorithms, func):
+    if algorithm not in ('kmp', 'knuth_morris_pratt', 'rabin_karp',
+                         'boyer_moore', 'z_function') or \
+        not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algoithm for searching strings "
         "inside a text isn't implemented yet."
-- 
2.43.0


From dc15b43cc072fc0286381bae6aee485a56c397e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 11/36] fix: search trees must link nodes by their real
 positions, also when the array of nodes is compacted

---
 .../linear_data_structures/arrays.py          |  2 +-
 pydatastructs/trees/binary_trees.py           | 32 ++++++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 10951ca..46882e5 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -404,7 +404,7 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self[self._last_pos_filled + 1] = el
         self._last_pos_filled += 1
         self._num += 1
-        self._modify()
+        return self._modify()
 
     def delete(self, idx):
         if idx <= self._last_pos_filled and idx >= 0 and \
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 6a90eb8..ae3476f 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -254,19 +254,21 @@ class BinarySearchTree(BinaryTree):
             if not self.comparator(key, self.tree[walk].key):
                 if self.tree[walk].right is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].right = self.size
-                    self.size += 1
+                    self.tree[walk].right = self.tree._last_pos_filled + 1
                     flag = False
                 prev_node = walk = self.tree[walk].right
             else:
                 if self.tree[walk].left is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].left = self.size
-                    self.size += 1
+                    self.tree[walk].left = self.tree._last_pos_filled + 1
                     flag = False
                 prev_node = walk = self.tree[walk].left
+        root_key = self.tree[self.root_idx].key
+        new_indices = self.tree.append(new_node)
+        self.size += 1
+        if new_indices is not None:
+            walk = new_indices[key]
+            self.root_idx = new_indices[root_key]
         self._update_size(walk)
 
     def search(self, key, **kwargs):
@@ -439,10 +441,15 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.root_idx].data = self.tree[child].data
                 self.tree[self.root_idx].key = self.tree[child].key
                 self.tree[self.root_idx].parent = None
+                for grand_child in (self.tree[child].left, self.tree[child].right):
+                    if grand_child is not None:
+                        self.tree[grand_child].parent = self.root_idx
                 root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
                     self.root_idx = new_indices[root_key]
+                a = self.root_idx
+                self._update_size(a)
             else:
                 if self.tree[parent].left == walk:
                     self.tree[parent].left = child
@@ -454,8 +461,6 @@ class BinarySearchTree(BinaryTree):
                                      self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    parent = new_indices[par_key]
-                    self.tree[child].parent = new_indices[par_key]
                     a = new_indices[par_key]
                     self.root_idx = new_indices[root_key]
                 self._update_size(a)
@@ -1030,7 +1035,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
     def insert(self, key, data=None):
         super(AVLTree, self).insert(key, data)
-        self._balance_insertion(self.size - 1, self.tree[self.size-1].parent)
+        node_idx = self.search(key)
+        self._balance_insertion(node_idx, self.tree[node_idx].parent)
 
     def _balance_deletion(self, start_idx, key):
         walk = start_idx
@@ -1125,7 +1131,6 @@ class SplayTree(SelfBalancingBinaryTree):
     def insert(self, key, x):
         super(SelfBalancingBinaryTree, self).insert(key, x)
         e, p = super(SelfBalancingBinaryTree, self).search(key, parent=True)
-        self.tree[self.size-1].parent = p
         self.splay(e, p)
 
     def delete(self, x):
@@ -1487,6 +1492,9 @@ class RedBlackTree(SelfBalancingBinaryTree):
             parent = self._get_parent(node_idx)
             par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
+            if new_indices is not None:
+                a = new_indices[par_key]
+                self.root_idx = new_indices[root_key]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1532,11 +1540,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             else:
                 self.tree[parent].right = walk1
             self.tree[walk1].parent = parent
-            a = self._remove_node(walk)
             if self.__walk1_walk_isblack(walk_original_color, walk1):
                 self.__fix_deletion(walk1)
             else:
                 self.tree[walk1].color = 0
+            self._remove_node(walk)
 
     def __two_child_case(self, node_idx):
         walk = node_idx
@@ -1664,7 +1672,7 @@ class BinaryTreeTraversal(object):
         of a binary tree using iterative algorithm.
         """
         visit = []
-        tree, size = self.tree.tree, self.tree.size
+        tree, size = self.tree.tree, self.tree.tree._last_pos_filled + 1
         s = Stack()
         s.push(node)
         last = OneDimensionalArray(int, size)
-- 
2.43.0


From 4d1be62ed6c19aa54d860bb7780a180f9b9a6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 12/36] fix: inserting into an emptied Cartesian tree or treap
 must not compare the root with a missing parent

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index ae3476f..4cf0899 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -823,7 +823,7 @@ class CartesianTree(SelfBalancingBinaryTree):
     def _bubble_up(self, node_idx):
         node = self.tree[node_idx]
         parent_idx = self.tree[node_idx].parent
-        parent = self.tree[parent_idx]
+        parent = self.tree[parent_idx] if parent_idx is not None else None
         while (node.parent is not None) and (parent.priority > node.priority):
             if parent.right == node_idx:
                 self._left_rotate(parent_idx, node_idx)
-- 
2.43.0


From ef3acf3fcafee058dff5ae2afde52af07c2f48bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 13/36] fix: deleting from an empty search tree must be a no-op

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 4cf0899..765e31c 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -276,7 +276,7 @@ class BinarySearchTree(BinaryTree):
         parent = None
         walk = self.root_idx
         if self.tree[walk].key is None:
-            return None
+            return (None, None) if ret_parent else None
         while walk is not None:
             if self.tree[walk].key == key:
                 break
-- 
2.43.0


From 93a6a7a5e11c7d067c6416bf3797374a73201a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 14/36] fix: lowest common ancestor must not depend on the
 root's position or on index 0

---
 pydatastructs/trees/binary_trees.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 765e31c..eb350c2 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -571,18 +571,18 @@ class BinarySearchTree(BinaryTree):
             if self.tree[node].key == key:
                 node_idx = node
                 break
-            if self.tree[node].left:
+            if self.tree[node].left is not None:
                 stack.push(self.tree[node].left)
-            if self.tree[node].right:
+            if self.tree[node].right is not None:
                 stack.push(self.tree[node].right)
 
         if node_idx == -1:
             return path
 
-        while node_idx != 0:
+        while node_idx != root:
             path.append(node_idx)
             node_idx = self.tree[node_idx].parent
-        path.append(0)
+        path.append(root)
         path.reverse()
 
         return path
@@ -602,7 +602,7 @@ class BinarySearchTree(BinaryTree):
                 return self.tree[path1[i - 1]].key
             i += 1
             j += 1
-        if path1 < path2:
+        if n < m:
             return self.tree[path1[-1]].key
         return self.tree[path2[-1]].key
 
@@ -612,6 +612,8 @@ class BinarySearchTree(BinaryTree):
         if (u is None) or (v is None):
             raise ValueError("One of the nodes with key %s "
                              "or %s doesn't exits"%(j, k))
+        if curr_root == u or curr_root == v:
+            return self.tree[curr_root].key
         u_left = self.comparator(self.tree[u].key, \
             self.tree[curr_root].key)
         v_left = self.comparator(self.tree[v].key, \
-- 
2.43.0


From f8691c54dad657e91949c9b2e3204e0157fc1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 15/36] fix: deleting an absent key from an AVL tree must not
 report success

---
 pydatastructs/trees/binary_trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index eb350c2..7ecd7b3 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1065,6 +1065,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
 
     def delete(self, key, **kwargs):
+        if self.search(key) is None:
+            return None
         a = super(AVLTree, self).delete(key, balancing_info=True)
         self._balance_deletion(a, key)
         return True
-- 
2.43.0


From 7da3a2ae3a7a900f3a92e2ec64d85fedac902b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 16/36] fix: inserting a present key must keep the colours of
 red black trees and the heap order of Cartesian trees

---
 pydatastructs/trees/binary_trees.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 7ecd7b3..12368a9 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -852,6 +852,8 @@ class CartesianTree(SelfBalancingBinaryTree):
             node = self.tree[node_idx]
 
     def insert(self, key, priority, data=None):
+        if super(CartesianTree, self).search(key) is not None:
+            self.delete(key)
         super(CartesianTree, self).insert(key, data)
         node_idx = super(CartesianTree, self).search(key)
         node = self.tree[node_idx]
@@ -1330,7 +1332,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].color=0
 
     def insert(self, key, data=None):
+        present = super(RedBlackTree, self).search(key) is not None
         super(RedBlackTree, self).insert(key, data)
+        if present:
+            return None
         node_idx = super(RedBlackTree, self).search(key)
         node = self.tree[node_idx]
         new_node = RedBlackTreeNode(key, data)
-- 
2.43.0


From f4493079cdc497450aba39e33553e70dfca0f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 17/36] fix: rotations must keep the subtree sizes of order
 statistic trees

---
 pydatastructs/trees/binary_trees.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 12368a9..60d5b4b 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -698,6 +698,13 @@ class SelfBalancingBinaryTree(BinarySearchTree):
             return _trees.SelfBalancingBinaryTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
         return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
 
+    def _update_rotated_sizes(self, *nodes):
+        # the nodes are given from the lowest to the highest
+        if self.is_order_statistic:
+            for idx in nodes:
+                self.tree[idx].size = (self.left_size(self.tree[idx]) +
+                                       self.right_size(self.tree[idx]) + 1)
+
     def _right_rotate(self, j, k):
         y = self.tree[k].right
         if y is not None:
@@ -714,6 +721,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_rotated_sizes(j, k)
 
     def _left_right_rotate(self, j, k):
         i = self.tree[k].right
@@ -734,6 +742,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_rotated_sizes(j, k, i)
 
     def _right_left_rotate(self, j, k):
         i = self.tree[k].left
@@ -754,6 +763,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_rotated_sizes(j, k, i)
 
     def _left_rotate(self, j, k):
         y = self.tree[k].left
@@ -771,6 +781,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_rotated_sizes(j, k)
 
 class CartesianTree(SelfBalancingBinaryTree):
     """
@@ -861,6 +872,7 @@ class CartesianTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         if node.is_root:
             self.tree[node_idx].is_root = True
@@ -1342,6 +1354,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         if node.is_root:
             self.tree[node_idx].is_root = True
@@ -1515,6 +1528,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
                 self.root_idx = new_indices[root_key]
+            self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
         walk = node_idx
-- 
2.43.0


From 9db82f9ec9d12ce519c47a41f15f8ee3ed1e5da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 18/36] fix: joining and splitting splay trees must keep links,
 sizes and node count consistent

---
 pydatastructs/trees/binary_trees.py | 66 +++++++++++++++++++----------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 60d5b4b..7abf14f 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1171,30 +1171,52 @@ class SplayTree(SelfBalancingBinaryTree):
             SplayTree which needs to be joined with the self tree.
 
         """
-        maxm = self.root_idx
-        while self.tree[maxm].right is not None:
-            maxm = self.tree[maxm].right
-        minm = other.root_idx
-        while other.tree[minm].left is not None:
-            minm = other.tree[minm].left
-        if not self.comparator(self.tree[maxm].key,
-                                other.tree[minm].key):
-            raise ValueError("Elements of %s aren't less "
-                             "than that of %s"%(self, other))
-        self.splay(maxm, self.tree[maxm].parent)
-        idx_update = self.tree._size
+        if other.tree[other.root_idx].key is None:
+            return
+        root_key = self.tree[self.root_idx].key
+        if root_key is not None:
+            maxm = self.root_idx
+            while self.tree[maxm].right is not None:
+                maxm = self.tree[maxm].right
+            minm = other.root_idx
+            while other.tree[minm].left is not None:
+                minm = other.tree[minm].left
+            if not self.comparator(self.tree[maxm].key,
+                                    other.tree[minm].key):
+                raise ValueError("Elements of %s aren't less "
+                                 "than that of %s"%(self, other))
+            self.splay(maxm, self.tree[maxm].parent)
+            root_key = self.tree[self.root_idx].key
+        else:
+            self.tree = ArrayForTrees(TreeNode, [])
         for node in other.tree:
             if node is not None:
-                node_copy = TreeNode(node.key, node.data)
-                if node.left is not None:
-                    node_copy.left = node.left + idx_update
-                if node.right is not None:
-                    node_copy.right = node.right + idx_update
-                self.tree.append(node_copy)
+                self.tree.append(TreeNode(node.key, node.data))
             else:
                 self.tree.append(node)
-        self.tree[self.root_idx].right = \
-            other.root_idx + idx_update
+                self.tree._num -= 1
+        # appending may move the nodes, so they are linked by their keys
+        indices = {self.tree[i].key: i
+                   for i in range(self.tree._last_pos_filled + 1)
+                   if self.tree[i] is not None}
+        for node in other.tree:
+            if node is not None:
+                idx = indices[node.key]
+                if node.left is not None:
+                    self.tree[idx].left = indices[other.tree[node.left].key]
+                    self.tree[self.tree[idx].left].parent = idx
+                if node.right is not None:
+                    self.tree[idx].right = indices[other.tree[node.right].key]
+                    self.tree[self.tree[idx].right].parent = idx
+                self.tree[idx].size = node.size
+        other_root_idx = indices[other.tree[other.root_idx].key]
+        if root_key is None:
+            self.root_idx = other_root_idx
+        else:
+            self.root_idx = indices[root_key]
+            self.tree[self.root_idx].right = other_root_idx
+            self.tree[other_root_idx].parent = self.root_idx
+            self._update_size(self.root_idx)
 
     def split(self, x):
         """
@@ -1227,9 +1249,7 @@ class SplayTree(SelfBalancingBinaryTree):
             for i in range(len(elements)):
                 super(SelfBalancingBinaryTree, other).insert(elements[i].key, elements[i].data)
             for j in range(len(elements) - 1, -1, -1):
-                e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
-                self.tree[e] = None
-            self.tree[self.root_idx].right = None
+                super(SelfBalancingBinaryTree, self).delete(elements[j].key)
         return other
 
 class RedBlackTree(SelfBalancingBinaryTree):
-- 
2.43.0


From d07fd4e3c0cfa24e617af2a26bd99610008210de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 19/36] fix: Cartesian trees, treaps and red black trees built
 with a root key need a root node of their own kind

---
 pydatastructs/trees/binary_trees.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 7abf14f..b3f911a 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -827,7 +827,12 @@ class CartesianTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.CartesianTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        if obj.tree[obj.root_idx].key is not None:
+            root = CartesianTreeNode(key, 0, root_data)
+            root.is_root = True
+            obj.tree[obj.root_idx] = root
+        return obj
 
     @classmethod
     def methods(cls):
@@ -931,7 +936,12 @@ class Treap(CartesianTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.Treap(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        if obj.tree[obj.root_idx].key is not None:
+            root = CartesianTreeNode(key, random.random(), root_data)
+            root.is_root = True
+            obj.tree[obj.root_idx] = root
+        return obj
 
     @classmethod
     def methods(cls):
@@ -1287,7 +1297,13 @@ class RedBlackTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.RedBlackTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        if obj.tree[obj.root_idx].key is not None:
+            root = RedBlackTreeNode(key, root_data)
+            root.is_root = True
+            root.color = 0
+            obj.tree[obj.root_idx] = root
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From 610d4cf6c4153a21f2f0e1163cc1eafd6486d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 20/36] fix: updating a dynamic range query structure must not
 change the caller's array

---
 .../miscellaneous_data_structures/algorithms.py        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/algorithms.py b/pydatastructs/miscellaneous_data_structures/algorithms.py
index 3c2f865..880a457 100644
--- a/pydatastructs/miscellaneous_data_structures/algorithms.py
+++ b/pydatastructs/miscellaneous_data_structures/algorithms.py
@@ -1,7 +1,9 @@
 from pydatastructs.miscellaneous_data_structures.sparse_table import SparseTable
 from pydatastructs.miscellaneous_data_structures.segment_tree import ArraySegmentTree
+from pydatastructs.linear_data_structures.arrays import (
+    Array, OneDimensionalArray)
 from pydatastructs.utils.misc_util import (
-    _check_range_query_inputs, Backend,
+    _check_type, _check_range_query_inputs, Backend,
     raise_if_backend_is_not_python)
 
 __all__ = [
@@ -297,6 +299,12 @@ class RangeQueryDynamicArray(RangeQueryDynamic):
         raise_if_backend_is_not_python(
             cls, kwargs.get('backend', Backend.PYTHON))
         obj = object.__new__(cls)
+        # updates must not change the array of the caller
+        elements = [array[i] for i in range(len(array))]
+        if _check_type(array, Array):
+            array = OneDimensionalArray(array._dtype, elements)
+        else:
+            array = elements
         obj.range_query_static = RangeQueryStaticArray(array, func)
         return obj
 
-- 
2.43.0


From 53b67d3bac728cad5099f73c6f45d6750df63885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 21/36] fix: array based stacks and queues must hand out the
 element that was put in, not a copy of it

---
 pydatastructs/miscellaneous_data_structures/queue.py | 5 ++---
 pydatastructs/miscellaneous_data_structures/stack.py | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 033ef9a..5c8873f 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -2,7 +2,6 @@ from pydatastructs.linear_data_structures import DynamicOneDimensionalArray, Sin
 from pydatastructs.utils.misc_util import (
     NoneType, Backend, raise_if_backend_is_not_python)
 from pydatastructs.trees.heaps import BinaryHeap, BinomialHeap
-from copy import deepcopy as dc
 
 __all__ = [
     'Queue',
@@ -156,7 +155,7 @@ class ArrayQueue(Queue):
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
-        return_value = dc(self.items[self._front])
+        return_value = self.items[self._front]
         front_temp = self._front
         if self._front == self._rear:
             self._front = -1
@@ -175,7 +174,7 @@ class ArrayQueue(Queue):
         if self.is_empty:
             raise IndexError("Queue is empty.")
 
-        return_value = dc(self.items[self._rear])
+        return_value = self.items[self._rear]
         rear_temp = self._rear
         if self._front == self._rear:
             self._front = -1
diff --git a/pydatastructs/miscellaneous_data_structures/stack.py b/pydatastructs/miscellaneous_data_structures/stack.py
index 38f72b4..d30e208 100644
--- a/pydatastructs/miscellaneous_data_structures/stack.py
+++ b/pydatastructs/miscellaneous_data_structures/stack.py
@@ -3,7 +3,6 @@ from pydatastructs.miscellaneous_data_structures._backend.cpp import _stack
 from pydatastructs.utils.misc_util import (
     _check_type, NoneType, Backend,
     raise_if_backend_is_not_python)
-from copy import deepcopy as dc
 
 __all__ = [
     'Stack'
@@ -123,7 +122,7 @@ class ArrayStack(Stack):
         if self.is_empty:
             raise IndexError("Stack is empty")
 
-        top_element = dc(self.items[self.items._last_pos_filled])
+        top_element = self.items[self.items._last_pos_filled]
         self.items.delete(self.items._last_pos_filled)
         return top_element
 
-- 
2.43.0


From c6466cdc21c0c2aa93ec149802e6adb0a57c2044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 22/36] fix: linked lists must refuse indices before the first
 element

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 09178da..e7a2d4e 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
-- 
2.43.0


From 5c861ae0425c92df3979e6ff5b9f657143a0daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 23/36] fix: circular linked lists must stay closed after every
 insertion and extraction

---
 .../linear_data_structures/linked_lists.py    | 34 ++++++-------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index e7a2d4e..5e3d0cf 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -536,19 +536,13 @@ class SinglyCircularLinkedList(SinglyLinkedList):
 
     def insert_at(self, index, key, data=None):
         super(SinglyCircularLinkedList, self).insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-        if new_node.next == self.head:
-            self.tail = new_node
+        self.tail.next = self.head
 
     def extract(self, index):
         node = super(SinglyCircularLinkedList, self).extract(index)
-        if self.tail is None:
-            self.head = None
-        elif index == 0:
+        if self.size == 0:
+            self.head, self.tail = None, None
+        else:
             self.tail.next = self.head
         return node
 
@@ -611,24 +605,16 @@ class DoublyCircularLinkedList(DoublyLinkedList):
     def insert_at(self, index, key, data=None):
         super(DoublyCircularLinkedList, self).\
             insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-            self.head.prev = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-            new_node.prev = self.tail
-        if new_node.next == self.head:
-            self.tail = new_node
-            new_node.next = self.head
-            self.head.prev = new_node
+        self.tail.next = self.head
+        self.head.prev = self.tail
 
     def extract(self, index):
         node = super(DoublyCircularLinkedList, self).extract(index)
-        if self.tail is None:
-            self.head = None
-        elif index == 0:
+        if self.size == 0:
+            self.head, self.tail = None, None
+        else:
             self.tail.next = self.head
+            self.head.prev = self.tail
         return node
 
 class SkipList(object):
-- 
2.43.0


From 0c5be5e09e1edd6107ab7b091cdcf6ed9b731b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 24/36] fix: array based queues must follow their elements when
 the array moves them

---
 .../miscellaneous_data_structures/queue.py    | 42 ++++++++-----------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 5c8873f..d996b74 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -132,12 +132,20 @@ class ArrayQueue(Queue):
                 'pop', 'is_empty', '__len__', '__str__', 'front',
                 'rear']
 
+    def _update_ends(self):
+        # the elements always occupy consecutive positions, but the
+        # array moves them when it shrinks
+        if self.is_empty:
+            self._front, self._rear = -1, -1
+        else:
+            self._rear = self.items._last_pos_filled
+            self._front = self._rear - self.items._num + 1
+
     def append(self, x):
         if self.is_empty:
-            self._front = 0
             self.items._dtype = type(x)
         self.items.append(x)
-        self._rear += 1
+        self._update_ends()
 
     def appendleft(self, x):
         self._double_ended_check()
@@ -150,23 +158,14 @@ class ArrayQueue(Queue):
         for i in range(self._front, self._rear + 1):
             temp.append(self.items._data[i])
         self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
-        self._rear += 1
+        self._update_ends()
 
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
         return_value = self.items[self._front]
-        front_temp = self._front
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._front += 1
-        self.items.delete(front_temp)
+        self.items.delete(self._front)
+        self._update_ends()
         return return_value
 
     def pop(self):
@@ -175,17 +174,8 @@ class ArrayQueue(Queue):
             raise IndexError("Queue is empty.")
 
         return_value = self.items[self._rear]
-        rear_temp = self._rear
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._rear -= 1
-        self.items.delete(rear_temp)
+        self.items.delete(self._rear)
+        self._update_ends()
         return return_value
 
     @property
@@ -205,6 +195,8 @@ class ArrayQueue(Queue):
 
     def __str__(self):
         _data = []
+        if self.is_empty:
+            return str(_data)
         for i in range(self._front, self._rear + 1):
             _data.append(self.items._data[i])
         return str(_data)
-- 
2.43.0


From 6a014cb976e143dce7f292fb17ee8008a53c1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 25/36] fix: removing a vertex must remove the weights of its
 edges

---
 pydatastructs/graphs/adjacency_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index bd901b3..52497df 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -66,6 +66,9 @@ class AdjacencyList(Graph):
             if hasattr(node_obj, name):
                 delattr(node_obj, name)
                 node_obj.adjacent.remove(name)
+        for key, edge in list(self.edge_weights.items()):
+            if name in (edge.source.name, edge.target.name):
+                del self.edge_weights[key]
 
     def add_edge(self, source, target, cost=None):
         source, target = str(source), str(target)
-- 
2.43.0


From 9288ca703bad1d8d255588f4f28e3fa2cd475af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 26/36] fix: edges removed from an adjacency matrix must not be
 counted any more

---
 pydatastructs/graphs/adjacency_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/adjacency_matrix.py b/pydatastructs/graphs/adjacency_matrix.py
index 9c2326b..00b1853 100644
--- a/pydatastructs/graphs/adjacency_matrix.py
+++ b/pydatastructs/graphs/adjacency_matrix.py
@@ -96,5 +96,5 @@ class AdjacencyMatrix(Graph):
 
     def remove_edge(self, source, target):
         source, target = str(source), str(target)
-        self.matrix[source][target] = False
+        self.matrix[source].pop(target, None)
         self.edge_weights.pop(str(source) + "_" + str(target), None)
-- 
2.43.0


From 3a696638fec56aaa65e89c44b841c4e195f922d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 27/36] fix: a vertex must own its list of neighbours and keep
 their names

---
 pydatastructs/utils/misc_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydatastructs/utils/misc_util.py b/pydatastructs/utils/misc_util.py
index 529fc58..1162013 100644
--- a/pydatastructs/utils/misc_util.py
+++ b/pydatastructs/utils/misc_util.py
@@ -408,8 +408,7 @@ class AdjacencyListGraphNode(GraphNode):
             if len(adjacency_list) > 0:
                 for node in adjacency_list:
                     obj.__setattr__(node.name, node)
-            obj.adjacent = adjacency_list if len(adjacency_list) > 0 \
-                        else []
+            obj.adjacent = [node.name for node in adjacency_list]
             return obj
         else:
             from pydatastructs.graphs._backend.cpp import _graph
-- 
2.43.0


From 86f3d5483f01a7f7ce94563be9f15cdfda0b23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 28/36] fix: arrays must refuse indices outside of their
 dimensions when reading and writing

---
 pydatastructs/linear_data_structures/arrays.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 46882e5..2cded0f 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -134,6 +134,9 @@ class OneDimensionalArray(Array):
         return self._data.__getitem__(i)
 
     def __setitem__(self, idx, elem):
+        if idx >= self._size or idx < 0:
+            raise IndexError(("Index, {} out of range, "
+                              "[{}, {}).".format(idx, 0, self._size)))
         if elem is None:
             self._data[idx] = None
         else:
@@ -260,7 +263,9 @@ class MultiDimensionalArray(Array):
         indices = [indices] if isinstance(indices, int) else indices
         if len(indices) != len(self._sizes) - 1:
             raise IndexError("Shape mismatch, current shape is %s" % str(self.shape))
-        if any(indices[i] >= self._sizes[i] for i in range(len(indices))):
+        if any(indices[i] < 0 or
+               indices[i] >= self._sizes[i]//self._sizes[i + 1]
+               for i in range(len(indices))):
             raise IndexError("Index out of range.")
 
     def fill(self, element) -> None:
-- 
2.43.0


From c0123d30636c0cfb5ab795b3eb0a0e2a1e72a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 29/36] fix: shell sort and radix sort must refuse a backend
 they do not have

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eebb93f..25190bc 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1910,6 +1910,8 @@ def shell_sort(array, *args, **kwargs):
 
     .. [1] https://en.wikipedia.org/wiki/Shellsort
     """
+    raise_if_backend_is_not_python(
+        shell_sort, kwargs.get('backend', Backend.PYTHON))
     start = int(kwargs.get('start', 0))
     end = int(kwargs.get('end', len(array) - 1))
     comp = kwargs.get('comp', lambda u, v: u <= v)
@@ -1974,6 +1976,8 @@ def radix_sort(array, *args, **kwargs):
 
     .. [1] https://en.wikipedia.org/wiki/Radix_sort
     """
+    raise_if_backend_is_not_python(
+        radix_sort, kwargs.get('backend', Backend.PYTHON))
     start = int(kwargs.get('start', 0))
     end = int(kwargs.get('end', len(array) - 1))
 
-- 
2.43.0


From 63fca5600b21d63d15244e665b24663673457f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 30/36] fix: Kosaraju's algorithm must accept vertices without
 incoming edges

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index b0a8cd6..8f325b3 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -540,7 +540,7 @@ def _assign(graph, u, incoming, assigned, component):
         if not assigned.get(top, False):
             assigned[top] = True
             component.add(top)
-            for u in incoming[top]:
+            for u in incoming.get(top, ()):
                 if not assigned.get(u, False):
                     stack.append(u)
         if top is stack[-1]:
-- 
2.43.0


From 0d5e38b0865dce7571d396b4508157256412241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 31/36] fix: removing an element a multiset never held must be
 a no-op

---
 pydatastructs/miscellaneous_data_structures/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/multiset.py b/pydatastructs/miscellaneous_data_structures/multiset.py
index 3979782..802c291 100644
--- a/pydatastructs/miscellaneous_data_structures/multiset.py
+++ b/pydatastructs/miscellaneous_data_structures/multiset.py
@@ -20,7 +20,7 @@ class Multiset:
             self.tree.insert(element)
 
     def remove(self, element):
-        if self.counter[element] == 1:
+        if self.counter.get(element, 0) == 1:
             self.tree.delete(element)
         if self.counter.get(element, 0) > 0:
             self._n -= 1
-- 
2.43.0


From 04a7bbb069b4c8f111801e05a8b9e262fc6908f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 32/36] fix: updating a segment tree must not change the
 caller's array

---
 .../miscellaneous_data_structures/segment_tree.py     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/segment_tree.py b/pydatastructs/miscellaneous_data_structures/segment_tree.py
index 0895ba6..20fda38 100644
--- a/pydatastructs/miscellaneous_data_structures/segment_tree.py
+++ b/pydatastructs/miscellaneous_data_structures/segment_tree.py
@@ -1,6 +1,8 @@
 from .stack import Stack
 from pydatastructs.utils.misc_util import (TreeNode,
-    Backend, raise_if_backend_is_not_python)
+    Backend, raise_if_backend_is_not_python, _check_type)
+from pydatastructs.linear_data_structures.arrays import (
+    Array, OneDimensionalArray)
 
 __all__ = ['ArraySegmentTree']
 
@@ -124,7 +126,12 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
 
         obj = object.__new__(cls)
         obj._func = func
-        obj._array = array
+        # updates must not change the array of the caller
+        elements = [array[i] for i in range(len(array))]
+        if _check_type(array, Array):
+            obj._array = OneDimensionalArray(array._dtype, elements)
+        else:
+            obj._array = elements
         obj._root = None
         obj._backend = backend
         return obj
-- 
2.43.0


From ed6dc317d4655735f5092122376a349a59105e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 33/36] fix: a binomial heap must not work on the caller's list
 of trees

---
 pydatastructs/trees/heaps.py | 1164 +++++++++++++++++-----------------
 1 file changed, 582 insertions(+), 582 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 12133a6..318a253 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,582 +1,582 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = root_list
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = list(root_list)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        min_node, min_idx = self.find_minimum(get_index=True)
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[min_idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        self.decrease_key(node, self.find_minimum().key - 1)
+        self.delete_minimum()
-- 
2.43.0


From 2d2a6506fe08caf9d3cca4062ae63227338c1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 34/36] fix: keep the line endings of heaps.py

---
 pydatastructs/trees/heaps.py | 1164 +++++++++++++++++-----------------
 1 file changed, 582 insertions(+), 582 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 318a253..def1611 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,582 +1,582 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = list(root_list)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = list(root_list)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        min_node, min_idx = self.find_minimum(get_index=True)
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[min_idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        self.decrease_key(node, self.find_minimum().key - 1)
+        self.delete_minimum()
-- 
2.43.0


From 49898ac93abd3165210e827db251dfb49b14697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:31 +0000
Subject: [PATCH 35/36] fix: a trie must list the whole string when the prefix
 itself was inserted

---
 pydatastructs/strings/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index cdf6666..0fb23c1 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -195,7 +195,7 @@ class Trie(object):
                 return strings
             prefix += char
         if walk.is_terminal:
-            strings.append(walk.char)
+            strings.append(prefix)
         for child in walk._children:
             _collect(prefix, walk.get_child(child), strings)
         return strings
-- 
2.43.0


From b38fbda3d92d7da2a2c61f470c5c9ac4bf75a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:31 +0000
Subject: [PATCH 36/36] fix: deleting a string that was not inserted into a
 trie must report so

---
 pydatastructs/strings/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index 0fb23c1..ec88ee3 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -151,6 +151,8 @@ class Trie(object):
                 return None
             walk = walk.get_child(char)
         path.append(walk)
+        if not walk.is_terminal:
+            return None
         i = len(path) - 1
         path[i].is_terminal = False
         while not path[i]._children and i >= 1:
-- 
2.43.0

