From eb01b9858776f10e6a0ffa50abaef1ab9555bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:44 +0000
Subject: [PATCH 01/53] fix: IntervalGraph.remove_node takes the node's edges
 with it; removal prunes empty adjacency

---
 dynetworkx/classes/intervalgraph.py | 36 +++++++++++------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..c24749d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -609,20 +609,17 @@ class IntervalGraph(object):
         if n not in self._node:
             return
 
+        # the edges are collected before any of them is removed
         if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
-
+            iedges = [iedge for v in self._adj[n] for iedge in self._adj[n][v]]
         else:
-            iedges = self.tree[begin:end]
-            for iedge in iedges:
-                if iedge[0] == n or iedge[1] == n:
-                    self.__remove_iedge(iedge)
+            iedges = [iedge for iedge in self.tree[begin:end] if iedge[0] == n or iedge[1] == n]
+
+        for iedge in iedges:
+            self.__remove_iedge(iedge)
 
         # delete the node and its attributes if no edge left
-        if n not in self._adj or len(self._adj[n]) == 0:
+        if len(self._adj[n]) == 0:
             self._adj.pop(n, None)
             self._node.pop(n, None)
 
@@ -1087,16 +1084,6 @@ class IntervalGraph(object):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -1194,8 +1181,13 @@ class IntervalGraph(object):
         """
 
         self.tree.remove(iedge)
-        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
-        self._adj[iedge[1]][iedge[0]].pop(iedge, None)
+        for u, v in ((iedge[0], iedge[1]), (iedge[1], iedge[0])):
+            # the second pass finds nothing left if the edge is a self-loop
+            if v in self._adj[u]:
+                self._adj[u][v].pop(iedge, None)
+                # clean up empty dictionaries
+                if len(self._adj[u][v]) == 0:
+                    del self._adj[u][v]
 
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
-- 
2.43.0


From 7386071e6e0cf7e5c922ebcf349541b0af08da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 02/53] fix: IntervalTree removal keeps both subtrees, forgets
 the emptied interval and refreshes its bounds

---
 dynetworkx/classes/intervaltree.py | 47 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..397cbf0 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -76,13 +76,19 @@ class IntervalTree:
 
     def discard(self, root, node):
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
+            if root.left is None:
                 return root.right
-            return None
+            if root.right is None:
+                return root.left
 
-        if node.low < root.low or (node.low == root.low and node.high < root.high):
+            # replace the discarded node by its in-order successor
+            successor = root.right
+            while successor.left is not None:
+                successor = successor.left
+            successor.right = self.discard(root.right, successor)
+            successor.left = root.left
+            root = successor
+        elif node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
@@ -92,12 +98,12 @@ class IntervalTree:
         balance = self.getBalance(root)
 
         if balance > 1:
-            if root.left.right == node:
+            if self.getBalance(root.left) < 0:
                 root.left = self.leftRotate(root.left)
             return self.rightRotate(root)
 
         elif balance < -1:
-            if root.right.left == node:
+            if self.getBalance(root.right) > 0:
                 root.right = self.rightRotate(root.right)
             return self.leftRotate(root)
 
@@ -196,17 +202,22 @@ class IntervalTree:
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
-        if self.begin == start:
-            traversal_node = self.root
-            while traversal_node.left != None:
-                self.begin = traversal_node.left.low
-                traversal_node = traversal_node.left
-        if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            self.root = self.discard(self.root, node)
+            node.left = node.right = None
+            del self.nodes[(start, end)]
+
+            if self.root is None:
+                self.begin = float("inf")
+                self.end = float("-inf")
+                return
+
+            if self.begin == start:
+                traversal_node = self.root
+                while traversal_node.left is not None:
+                    traversal_node = traversal_node.left
+                self.begin = traversal_node.low
+            if self.end == end:
+                self.end = self.root.max
 
         return
 
-- 
2.43.0


From c8240bb5fdacad32fccea0cf9768776af61d30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 03/53] fix: interval window queries treat 0 as a bound and a
 missing bound as unbounded

---
 dynetworkx/classes/intervaltree.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 397cbf0..7cdf002 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -13,6 +13,11 @@ class Node:
         self.height = 0
 
     def inInterval(self, begin, end):
+        # None leaves that side of the interval unbounded
+        if begin is None:
+            return end is None or self.low < end
+        if end is None:
+            return self.high > begin or self.low == begin
         return (self.low < end and self.high > begin) or self.low == begin
 
 class IntervalTree:
@@ -155,13 +160,13 @@ class IntervalTree:
         return self.getHeight(node.left) - self.getHeight(node.right)
 
     def query(self, node, begin, end):
-        if node.left and node.left.max >= begin:
+        if node.left and (begin is None or node.left.max >= begin):
             yield from self.query(node.left, begin, end)
 
         if node.inInterval(begin, end):
             yield node
 
-        if node.right and node.low <= end and node.right.max >= begin:
+        if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
             yield from self.query(node.right, begin, end)
 
     def add(self, edge):
@@ -226,11 +231,6 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
-
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
 
-- 
2.43.0


From 70560d9e9aae2a0f61579c94a0759d1d37a111e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:56 +0000
Subject: [PATCH 04/53] fix: unique timestamps honour a bound of 0, timestamps
 on the bounds and an empty graph

---
 dynetworkx/classes/intervaltree.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 7cdf002..a0370bb 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -237,9 +237,9 @@ class IntervalTree:
     def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -251,7 +251,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
@@ -262,9 +262,9 @@ class IntervalTree:
     def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -276,7 +276,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
 
@@ -285,9 +285,9 @@ class IntervalTree:
     def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -299,7 +299,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
                 timestamps.add(n.high)
 
-- 
2.43.0


From c8f812ea93c5d48b684191b438af727d89f750f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:49 +0000
Subject: [PATCH 05/53] fix: has_edge and remove_edge with overlapping=False
 match the exact interval

---
 dynetworkx/classes/intervaldigraph.py | 30 ++++++++++++--------------
 dynetworkx/classes/intervalgraph.py   | 31 +++++++++++++--------------
 2 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..90fbcfb 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -243,6 +243,9 @@ class IntervalDiGraph(IntervalGraph):
         False
         """
 
+        if not overlapping and (begin is None or end is None):
+            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
+
         if u not in self._pred:
             return False
         if v not in self._pred[u]:
@@ -254,12 +257,9 @@ class IntervalDiGraph(IntervalGraph):
             return False
 
         if not overlapping:
-            if begin is None or end is None:
-                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
-
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._pred[u][v]
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -567,29 +567,27 @@ class IntervalDiGraph(IntervalGraph):
         False
         """
 
+        if not overlapping and (begin is None or end is None):
+            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
+
         if u not in self._pred or v not in self._pred[u]:
             return
 
+        iedges_to_remove = []
+
         # remove edge between u and v with the exact given interval
         if not overlapping:
-            if begin is None or end is None:
-                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
-
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
-
-        iedges_to_remove = []
+            if (u, v, begin, end) in self._pred[u][v]:
+                iedges_to_remove.append((u, v, begin, end))
 
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
             for iv in self._pred[u][v]:
                 iedges_to_remove.append(iv)
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index c24749d..a81fae8 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -785,6 +785,9 @@ class IntervalGraph(object):
         >>> G.has_edge(2, 4, begin=2, end=11)
         False
         """
+        if not overlapping and (begin is None or end is None):
+            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
+
         if u not in self._adj or v not in self._adj[u]:
             return False
 
@@ -792,12 +795,9 @@ class IntervalGraph(object):
             return True
 
         if not overlapping:
-            if begin is None or end is None:
-                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
-
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._adj[u][v] or (v, u, begin, end) in self._adj[u][v]
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -1050,29 +1050,28 @@ class IntervalGraph(object):
         False
         """
 
+        if not overlapping and (begin is None or end is None):
+            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
+
         if u not in self._adj or v not in self._adj[u]:
             return
 
+        iedges_to_remove = []
+
         # remove edge between u and v with the exact given interval
         if not overlapping:
-            if begin is None or end is None:
-                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
-
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
-
-        iedges_to_remove = []
+            for iv in ((u, v, begin, end), (v, u, begin, end)):
+                if iv in self._adj[u][v] and iv not in iedges_to_remove:
+                    iedges_to_remove.append(iv)
 
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
             for iv in self._adj[u][v]:
                 iedges_to_remove.append(iv)
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
-- 
2.43.0


From 4ef1c05edef20244fda3b27a3a06f2516e6ccab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:03 +0000
Subject: [PATCH 06/53] fix: IntervalDiGraph.remove_node works on its own
 adjacency

---
 dynetworkx/classes/intervaldigraph.py | 55 +++++++++++++++++++++------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 90fbcfb..b52833a 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -513,6 +513,40 @@ class IntervalDiGraph(IntervalGraph):
 
         self._model = model
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all adjacent edges, in both directions, within the given interval.
+
+        If interval is specified, all the edges of n will be removed within that interval.
+
+        Quiet if n is not in the interval graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire interval graph)
+            Inclusive beginning time of the node appearing in the interval graph.
+        end: int or float, optional  (default= end of the entire interval graph + 1)
+            Non-inclusive ending time of the node appearing in the interval graph.
+            Must be bigger than or equal to begin.
+            Note that the default value is shifted up by 1 to make it an inclusive end.
+        """
+
+        if n not in self._node:
+            return
+
+        iedges = self.tree[begin:end]
+        for iedge in [iedge for iedge in iedges if iedge[0] == n or iedge[1] == n]:
+            self.__remove_iedge(iedge)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def remove_edge(self, u, v, begin=None, end=None, overlapping=True):
         """Remove the edge between u and v in the interval graph,
         during the given interval.
@@ -599,16 +633,6 @@ class IntervalDiGraph(IntervalGraph):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -961,9 +985,16 @@ class IntervalDiGraph(IntervalGraph):
         >>> iedge = (1, 2, 3, 10)
         >>> G.__remove_iedge(iedge)
         """
+        u, v = iedge[0], iedge[1]
         self.tree.remove(iedge)
-        self._pred[iedge[0]][iedge[1]].pop(iedge, None)
-        self._succ[iedge[1]][iedge[0]].pop(iedge, None)
+        self._pred[u][v].pop(iedge, None)
+        self._succ[v][u].pop(iedge, None)
+
+        # clean up empty dictionaries
+        if len(self._pred[u][v]) == 0:
+            del self._pred[u][v]
+        if len(self._succ[v][u]) == 0:
+            del self._succ[v][u]
 
     @staticmethod
     def __overlaps_or_contains(iv, begin, end):
-- 
2.43.0


From 05138ab35bea516ad5729ef0a7155f89b57192d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 07/53] fix: interval graphs' edges() takes strings and tuples
 as nodes and answers for every listed node

---
 dynetworkx/classes/intervaldigraph.py | 25 +++++++-------------
 dynetworkx/classes/intervalgraph.py   | 34 ++++++++++++++-------------
 2 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index b52833a..f69911f 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -289,14 +289,14 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -393,15 +393,8 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a81fae8..afb50b2 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -827,17 +827,26 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
+    def _pack_nodes(self, n):
+        # a node of the graph or a string is one node even if it is iterable; other iterables are collections of nodes
+        if n is None or isinstance(n, str) or n in self:
+            return [n]
+        try:
+            return list(n)
+        except TypeError:
+            return [n]
+
     def __edges_interval_first(self, begin, end):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -938,15 +947,8 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-- 
2.43.0


From 40b6006da5c40c2289cfa24db19196692d6557c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:53 +0000
Subject: [PATCH 08/53] fix: a zero-length interval edge starting at begin is
 found when end is open

---
 dynetworkx/classes/intervaldigraph.py | 2 +-
 dynetworkx/classes/intervalgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index f69911f..82bbfa2 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -1008,5 +1008,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index afb50b2..1fba4e5 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1269,7 +1269,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
-- 
2.43.0


From eb1db460f5d6dcc7701928c436c1a69c2b768501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 09/53] fix: interval graphs' edges() works with a predictive
 model and does not depend on it

---
 dynetworkx/classes/intervaldigraph.py | 31 ++++++++++++--------------
 dynetworkx/classes/intervalgraph.py   | 32 +++++++++++++--------------
 2 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 82bbfa2..9f17589 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -406,29 +406,26 @@ class IntervalDiGraph(IntervalGraph):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            # the model only chooses between two ways to the same answer
+            node_first = True
+            if graph_end > graph_begin:
+                nodes = set(u).union(v) - {None}
+                node_percent = len(nodes) / self.number_of_nodes()
+
+                interval_begin = graph_begin if begin is None else begin
+                interval_end = graph_end if end is None else end
+                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                node_first = node_time < interval_time
 
-            if node_time < interval_time:
+            if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 1fba4e5..ce5d5d2 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -960,29 +960,27 @@ class IntervalGraph(object):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            # the model only chooses between two ways to the same answer
+            node_first = True
+            if graph_end > graph_begin:
+                nodes = set(u).union(v) - {None}
+                node_percent = len(nodes) / self.number_of_nodes()
+
+                interval_begin = graph_begin if begin is None else begin
+                interval_end = graph_end if end is None else end
+                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                node_first = node_time < interval_time
 
-            if node_time < interval_time:
+            if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if ((u == [None] or e[0] in u) and (v == [None] or e[1] in v)) or
+                          ((u == [None] or e[1] in u) and (v == [None] or e[0] in v))]
 
         # Node First
         else:
-- 
2.43.0


From b6fe935813560c9cea94cd3f8b28faa8689c4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 10/53] fix: interval graphs' predictive model can be trained
 on float times and on small graphs

---
 dynetworkx/classes/intervaldigraph.py | 11 +++++++----
 dynetworkx/classes/intervalgraph.py   | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 9f17589..ba2ffb6 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -451,6 +451,9 @@ class IntervalDiGraph(IntervalGraph):
         """
 
         node_list = list(self._node.keys())
+        if self.tree.root is None:
+            raise NetworkXError("IntervalDiGraph: a predictive model needs a graph with at least one edge.")
+
         graph_begin, graph_end = self.interval()
         X = []
         y = []
@@ -458,9 +461,9 @@ class IntervalDiGraph(IntervalGraph):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -469,7 +472,7 @@ class IntervalDiGraph(IntervalGraph):
                 if u in self._pred:
                     for v in self._pred[u]:
                         for edge in self._pred[u][v]:
-                            if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
+                            if edge not in node_edges and IntervalDiGraph.__overlaps_or_contains(edge, begin, end):
                                 node_edges.add(edge)
             node_time = timer() - start_timer
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index ce5d5d2..db319d7 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1198,6 +1198,9 @@ class IntervalGraph(object):
         """
 
         node_list = list(self._node.keys())
+        if self.tree.root is None:
+            raise NetworkXError("IntervalGraph: a predictive model needs a graph with at least one edge.")
+
         graph_begin, graph_end = self.interval()
         X = []
         y = []
@@ -1205,9 +1208,9 @@ class IntervalGraph(object):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -1215,7 +1218,7 @@ class IntervalGraph(object):
             for u in nodes:
                 for v in self._adj[u]:
                     for edge in self._adj[u][v]:
-                        if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
+                        if edge not in node_edges and IntervalGraph.__overlaps_or_contains(edge, begin, end):
                             node_edges.add(edge)
             node_time = timer() - start_timer
 
-- 
2.43.0


From 48c246f2cb9841795ed01db26109e81c7d33987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:00 +0000
Subject: [PATCH 11/53] fix: IntervalGraph.add_edge updates an existing edge
 given with its nodes reversed

---
 dynetworkx/classes/intervalgraph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index db319d7..e1e7b15 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -676,13 +676,15 @@ class IntervalGraph(object):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
-        if u in self._adj and v in self._adj[u] and (u, v, begin, end) in self._adj[u][v]:
-            self._adj[u][v][(u, v, begin, end)].update(attr)
-            self._adj[v][u][(u, v, begin, end)].update(attr)
-            return
-
         iedge = (u, v, begin, end)
 
+        if u in self._adj and v in self._adj[u]:
+            # the graph is undirected: the edge may be there with its nodes the other way round
+            for existing in (iedge, (v, u, begin, end)):
+                if existing in self._adj[u][v]:
+                    self._adj[u][v][existing].update(attr)
+                    return
+
         # add nodes
         self._adj.setdefault(u, {}).setdefault(v, {})
         self._adj.setdefault(v, {}).setdefault(u, {})
-- 
2.43.0


From 3f459a4c21dfd836c5f617ba074ffdd1e404c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 12/53] fix: IntervalDiGraph.to_subgraph reads edges as the
 tuples they are

---
 dynetworkx/classes/intervaldigraph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index ba2ffb6..9aaa062 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -932,7 +932,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
@@ -943,17 +943,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From 4c4717e15f0069514732a3dae3886dc66c4ce2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 13/53] fix: IntervalDiGraph's degree changes come in the order
 they happen, with no debug output

---
 dynetworkx/classes/intervaldigraph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 9aaa062..ee4d765 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -710,7 +710,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def in_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the in-degree of a specified node between time begin and end.
@@ -788,7 +788,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def out_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the out-degree of a specified node between time begin and end.
@@ -864,10 +864,9 @@ class IntervalDiGraph(IntervalGraph):
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
                 if time[0] != begin:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
         """Return a networkx DiGraph or MultiDiGraph which includes all the nodes and
-- 
2.43.0


From 274cadc5e4650b201b5b7fe35ed06a795ca15df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:00 +0000
Subject: [PATCH 14/53] fix: snapshot graphs take 0 as a timestamp or node and
 [] as an empty selection

---
 dynetworkx/classes/snapshotdigraph.py |  2 +-
 dynetworkx/classes/snapshotgraph.py   | 64 +++++++++++++--------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..e9636cf 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -39,7 +39,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..799d471 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -148,7 +148,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -187,7 +187,7 @@ class SnapshotGraph(object):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
@@ -230,9 +230,9 @@ class SnapshotGraph(object):
         subgraph = SnapshotGraph()
         subgraph.graph = self.graph
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
@@ -277,15 +277,15 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
-            if nbunch:
+        elif sbunch is not None:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
@@ -319,9 +319,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -355,9 +355,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -392,9 +392,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -428,9 +428,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -464,9 +464,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -498,9 +498,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -532,9 +532,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -571,9 +571,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -620,9 +620,9 @@ class SnapshotGraph(object):
         else:
             graphs = self.snapshots.values()
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
@@ -734,9 +734,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -792,9 +792,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -930,9 +930,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 3b8851d2619b9407a2906f9c6d324fbf4db9a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:17 +0000
Subject: [PATCH 15/53] fix: add_snapshot accepts a graph without nodes

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e9636cf..e5985b0 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 799d471..5ce06cf 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -181,7 +181,7 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
-- 
2.43.0


From 893b70454a89a4a63cd2f668c0c28d5e09373458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:48 +0000
Subject: [PATCH 16/53] fix: SnapshotGraph.subgraph accepts snapshot indexes
 and keeps the class

---
 dynetworkx/classes/snapshotgraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 5ce06cf..2b9c592 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -227,13 +227,13 @@ class SnapshotGraph(object):
         [(4, 6, {})]
         """
 
-        subgraph = SnapshotGraph()
+        subgraph = self.__class__()
         subgraph.graph = self.graph
 
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            for key, snapshot in self._get(sbunch=sbunch):
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-- 
2.43.0


From dd4e40608e053b312e01e4f156964dfb4c0766f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 17/53] fix: a snapshot window starts and splits at the
 snapshot that contains its boundary

---
 dynetworkx/classes/snapshotgraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 2b9c592..63bf68b 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -634,7 +634,7 @@ class SnapshotGraph(object):
                 # Decrease 1 index if start is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
                 # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
+                if min_idx > 0 and start < self.snapshots.keys()[min_idx - 1][1]:
                     if split_overlaps:
                         # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
                         key, g = self.snapshots.popitem(min_idx - 1)
@@ -649,8 +649,8 @@ class SnapshotGraph(object):
                 max_idx = self.snapshots.bisect_left((end,))
                 # Split the snapshot if 'end' is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
+                if split_overlaps and max_idx > 0 and end < self.snapshots.keys()[max_idx - 1][1]:
+                    key, g = self.snapshots.popitem(max_idx - 1)
                     self.insert(g, key[0], end)
                     self.insert(copy.deepcopy(g), end, key[1])
 
-- 
2.43.0


From b3230cff47eecb864045970bfd71f63262e964d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 18/53] fix: SnapshotGraph.load_from_txt reads the adjacency
 matrix as numbers

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 63bf68b..3573d81 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -870,7 +870,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix))
+                g = from_numpy_array(np.array(matrix, dtype=float))
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From 1398f3f4a4a215b77071e1de094dc17c9ebe5bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:53 +0000
Subject: [PATCH 19/53] fix: SnapshotDiGraph.load_from_txt returns a
 SnapshotDiGraph of DiGraphs

---
 dynetworkx/classes/snapshotdigraph.py |  1 +
 dynetworkx/classes/snapshotgraph.py   | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e5985b0..226ab65 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -4,6 +4,7 @@ from dynetworkx.classes.snapshotgraph import SnapshotGraph
 
 
 class SnapshotDiGraph(SnapshotGraph):
+    _graph_class = DiGraph
 
     def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None, multi=False):
         """Add a snapshot with a bunch of edge values.
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 3573d81..eee54cd 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -6,6 +6,8 @@ import copy
 
 
 class SnapshotGraph(object):
+    _graph_class = Graph
+
     def __init__(self, **attr):
         self.graph = {}
         self.graph.update(attr)
@@ -801,8 +803,8 @@ class SnapshotGraph(object):
             for graph in self._get(start=start, end=end, split_overlaps=True):
                 graph.add_edges_from(ebunch, **attrs)
 
-    @staticmethod
-    def load_from_txt(path, delimiter=";", comments="#", start='start', end='end'):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=";", comments="#", start='start', end='end'):
         """Read snapshot graph in from path.
            Every line in the file must be an adjacency matrix, with rows separated by delimiter.
 
@@ -836,7 +838,7 @@ class SnapshotGraph(object):
         if delimiter == ' ' or delimiter == '\n':
             raise ValueError("Delimiter cannot be " + delimiter + ".")
 
-        sg = SnapshotGraph()
+        sg = cls()
 
         with open(path, 'r') as file:
             for line in file:
@@ -870,7 +872,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix, dtype=float))
+                g = from_numpy_array(np.array(matrix, dtype=float), create_using=cls._graph_class)
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From 6928959c00a109d299ad3638efd8d6e83b77483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 20/53] fix: IntervalGraph.to_snapshots accepts a length of
 snapshots with float times

---
 dynetworkx/classes/intervalgraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e1e7b15..71f0296 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1443,10 +1443,10 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
-                                    "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+                                    "{0} was passed.".format(length_of_snapshots))
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From 2e306c6daf942866765922d36d54918bb86691c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 21/53] fix: IntervalGraph.to_snapshot_graph makes one snapshot
 between any two consecutive changes

---
 dynetworkx/classes/intervalgraph.py | 54 ++++-------------------------
 1 file changed, 6 insertions(+), 48 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 71f0296..3338722 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -4,7 +4,7 @@ from networkx.exception import NetworkXError
 from dynetworkx.classes.intervaltree import IntervalTree
 from networkx.classes.multigraph import MultiGraph
 from networkx.classes.reportviews import NodeDataView
-from sortedcontainers import SortedList, SortedDict
+from sortedcontainers import SortedDict
 import random
 import math
 from timeit import default_timer as timer
@@ -1536,63 +1536,21 @@ class IntervalGraph(object):
         # into a snapshot graph. Snapshots' lengths are variable and each snapshot represents a change in a series edges
         # E.g: 2 edges with time intervals [(2,5), (3,7)] will be split into 3 snapshots [(2,3), (3,5), (5, 7)]
 
-        time = SortedList()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
-        # for each slice in following iterations
-        # We use a moving window specified by "begin" and "end" to slice each snapshots.
-        begin = None
+        changes = set()  # every timestamp at which an edge of non-zero duration begins or ends
         for node in self.tree.inOrder(self.tree.root):
             if node.low == node.high:  # this handles the case when someone uses interval graph as impulse graph
                 G.insert(graph=self.to_subgraph(begin=node.low, end=node.low, multigraph=multigraph, edge_data=edge_data
                                                 , edge_interval_data=edge_interval_data, node_data=node_data),
                          time=node.low)
             else:
-                if begin is None:
-                    begin = node.low
-                    time.add(node.high)
-                    continue
+                changes.update((node.low, node.high))
 
-                if node.low == begin:
-                    time.add(node.high)
-                elif len(time) == 0 or node.low < time[0]:
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                elif node.low > time[0]:
-                    while node.low > time[0]:
-                        end = time.pop(0)
-                        G.insert(
-                            graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                   edge_interval_data=edge_interval_data, node_data=node_data),
-                            start=begin, end=end)
-                        begin = end
-
-                        if len(time) == 0:
-                            break
-
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                else:  # if node.low == time[0]
-                    end = time.pop(0)  # can use either "node.low" or "time[0]"
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-
-        # after finish iterating through all edges in the interval graph, which means all "start" timestamp has been
-        # iterated through, iterate through the remaining timestamps stored in "time"
-        for end in time:
+        # each snapshot spans two consecutive changes
+        changes = sorted(changes)
+        for begin, end in zip(changes, changes[1:]):
             G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
                                             edge_interval_data=edge_interval_data, node_data=node_data),
                      start=begin, end=end)
-            begin = end
 
         return G
 
-- 
2.43.0


From f053b52b1b31737fbd4c73c61a13b5b03b28018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:42 +0000
Subject: [PATCH 22/53] fix: from_snapshot_graph keeps an edge's presence
 whichever way round or however often a snapshot lists it

---
 dynetworkx/classes/intervalgraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 3338722..e85ee0e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1589,11 +1589,13 @@ class IntervalGraph(object):
         for snapshot in snapshot_graph.get():
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
+                if not snapshot.is_directed() and (edge[1], edge[0]) in edge_dict:
+                    u_v = (edge[1], edge[0])  # same edge, reported with its nodes the other way round
                 if u_v in edge_dict:
                     if begin in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = edge_dict[u_v][begin]
                         del edge_dict[u_v][begin]
-                    else:
+                    elif begin + period not in edge_dict[u_v]:  # parallel edges are present only once
                         edge_dict[u_v][begin + period] = (begin, edge[2])
                 else:
                     edge_dict[u_v] = {begin + period: (begin, edge[2])}
-- 
2.43.0


From 8c41be0c7385b8232214de8cc839ef69cfe502ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:16 +0000
Subject: [PATCH 23/53] fix: IntervalDiGraph's from_* and load_from_txt return
 an IntervalDiGraph

---
 dynetworkx/classes/intervalgraph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e85ee0e..10866c5 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1554,8 +1554,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_snapshot_graph(snapshot_graph, begin=0, period=1):
+    @classmethod
+    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
         """Convert a SnapshotGraph to a IntervalGraph.
 
         Parameters
@@ -1583,7 +1583,7 @@ class IntervalGraph(object):
         >>> sg.add_edges_from([(8,9)],weight=1)
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
-        G = IntervalGraph()
+        G = cls()
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
@@ -1609,8 +1609,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, begin='begin', end='end'):
+    @classmethod
+    def from_networkx_graph(cls, graph, begin='begin', end='end'):
         """Convert a NetworkX Graph to a IntervalGraph.
 
         Parameters
@@ -1638,7 +1638,7 @@ class IntervalGraph(object):
         ig = IntervalGraph.from_networkx_graph(graph)
       """
 
-        G = IntervalGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1651,8 +1651,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
                       merge=(False, 0), predict=False, comments="#"):
         """Read interval graph in from path.
            Both interval times must be integers or floats.
@@ -1711,7 +1711,7 @@ class IntervalGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = IntervalGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From ea020bb0c1e4649b37871ac3529af6024864c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:33 +0000
Subject: [PATCH 24/53] fix: load_from_txt merges discrete interval edges

---
 dynetworkx/classes/intervalgraph.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 10866c5..61d7fb3 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1774,13 +1774,10 @@ class IntervalGraph(object):
 
                 if merge[0]:
                     for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data != edgedata:
-                            G.add_edge(u, v, begin, end ** edgedata)
-                        else:
-                            begin = min(begin, edge[0])
-                            end = max(end, edge[1])
-                            G.remove_edge(u, v, edge[0], edge[1])
-                            G.add_edge(u, v, begin, end, **edgedata)
+                        if edge_data == edgedata:
+                            begin = min(begin, edge[2])
+                            end = max(end, edge[3])
+                            G.remove_edge(u, v, edge[2], edge[3], overlapping=False)
 
                 G.add_edge(u, v, begin, end, **edgedata)
 
-- 
2.43.0


From d41152669a72cecad64ee3358d5bc529e51c2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:51 +0000
Subject: [PATCH 25/53] fix: load_from_txt keeps the first edge attribute of
 lines with a fixed duration

---
 dynetworkx/classes/intervalgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 61d7fb3..54d7e24 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1743,7 +1743,7 @@ class IntervalGraph(object):
 
                 edgedata = {}
                 try:
-                    for data in line[4:]:
+                    for data in line[4 if 'begin' in order and 'end' in order else 3:]:
                         key, value = data.split('=')
                         try:
                             value = float(value)
-- 
2.43.0


From 79d35783037602d588595cb4c6def1e1e918a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 26/53] fix: add_nodes_from accepts nodes which are tuples of
 any length

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..34e36d7 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -291,7 +291,7 @@ class ImpulseGraph(object):
         """
 
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 54d7e24..639b970 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -365,7 +365,7 @@ class IntervalGraph(object):
         >>> G.add_nodes_from([(1, dict(size=11)), (2, {'color':'blue'})])
         """
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
-- 
2.43.0


From 7885d2a26a79a4d62928bb13685ab9c6cc154b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:23 +0000
Subject: [PATCH 27/53] fix: impulse graphs' remove_node and remove_edge leave
 no trace of removed edges

---
 dynetworkx/classes/impulsedigraph.py | 63 +++++++++++++++++++++-------
 dynetworkx/classes/impulsegraph.py   | 44 +++++++++----------
 2 files changed, 66 insertions(+), 41 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..412e879 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -579,6 +579,39 @@ class ImpulseDiGraph(ImpulseGraph):
         self._model = model
 
 
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all adjacent edges, in both directions, within the given interval.
+
+        Quiet if n is not in the impulse graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire impulse graph)
+        end: int or float, optional  (default= end of the entire impulse graph)
+            Must be bigger than or equal to begin.
+        inclusive: 2-tuple boolean that determines inclusivity of begin and end
+        """
+
+        if n not in self._node:
+            return
+
+        remove_edges = []
+        for edge in self.__search_tree(begin, end, inclusive):
+            if (edge[0] == n or edge[1] == n) and edge not in remove_edges:
+                remove_edges.append(edge)
+        for edge in remove_edges:
+            self.__remove_iedge(edge)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
         """Remove the edge between u and v in the impulse graph,
         during the given interval.
@@ -631,16 +664,6 @@ class ImpulseDiGraph(ImpulseGraph):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
@@ -936,12 +959,20 @@ class ImpulseDiGraph(ImpulseGraph):
             Edge to be removed.
         """
 
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
-            return
+        u, v, t = iedge
+        self.tree[t].remove((u, v))
+        # a timestamp without edges is not part of the graph's interval
+        if len(self.tree[t]) == 0:
+            del self.tree[t]
+
+        self._pred[u][v].pop(iedge, None)
+        self._succ[v][u].pop(iedge, None)
+
+        # clean up empty dictionaries
+        if len(self._pred[u][v]) == 0:
+            del self._pred[u][v]
+        if len(self._succ[v][u]) == 0:
+            del self._succ[v][u]
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 34e36d7..88688e6 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -500,21 +500,19 @@ class ImpulseGraph(object):
             return
 
         if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
+            remove_edges = [edge for v in self._adj[n] for edge in self._adj[n][v]]
 
         else:
             remove_edges = []
             for edge in self.__search_tree(begin, end, inclusive):
-                if edge[0] == n or edge[1] == n:
+                if (edge[0] == n or edge[1] == n) and edge not in remove_edges:
                     remove_edges.append(edge)
-            for edge in remove_edges:
-                self.__remove_iedge(edge)
+
+        for edge in remove_edges:
+            self.__remove_iedge(edge)
 
         # delete the node and its attributes if no edge left
-        if n not in self._adj or len(self._adj[n]) == 0:
+        if len(self._adj[n]) == 0:
             self._adj.pop(n, None)
             self._node.pop(n, None)
 
@@ -946,16 +944,6 @@ class ImpulseGraph(object):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the degree of a specified node between time begin and end.
 
@@ -1030,13 +1018,19 @@ class ImpulseGraph(object):
         iedge : Edge Tuple (u,v,eid,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
-            return
-        print(self._adj)
+        u, v, t = iedge
+        self.tree[t].remove((u, v))
+        # a timestamp without edges is not part of the graph's interval
+        if len(self.tree[t]) == 0:
+            del self.tree[t]
+
+        for a, b in ((u, v), (v, u)):
+            # the second pass finds nothing left if the edge is a self-loop
+            if b in self._adj[a]:
+                self._adj[a][b].pop(iedge, None)
+                # clean up empty dictionaries
+                if len(self._adj[a][b]) == 0:
+                    del self._adj[a][b]
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From b3a572cd544df20fa947854300b713f2aff47455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 28/53] fix: impulse graphs' windows agree on a single instant,
 on inclusive and on a bound of 0

---
 dynetworkx/classes/impulsedigraph.py | 35 ++++++++++++----------------
 dynetworkx/classes/impulsegraph.py   | 35 ++++++++++++----------------
 2 files changed, 30 insertions(+), 40 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 412e879..d0c6658 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -309,9 +309,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
-            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                "begin: {}, end: {}.".format(begin, end))
+        begin, end = self.__validate_interval(begin, end)
 
         for iv in self._pred[u][v]:
             if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
@@ -601,7 +599,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         remove_edges = []
         for edge in self.__search_tree(begin, end, inclusive):
-            if (edge[0] == n or edge[1] == n) and edge not in remove_edges:
+            if edge[0] == n or edge[1] == n:
                 remove_edges.append(edge)
         for edge in remove_edges:
             self.__remove_iedge(edge)
@@ -657,7 +655,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         else:
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1003,9 +1001,11 @@ class ImpulseDiGraph(ImpulseGraph):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
+        # a single instant
+        if begin is not None and begin == end:
+            for edge in self.tree.get(begin, ()):
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
@@ -1027,19 +1027,14 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
-        if begin is None:
-            begin = float('-inf')
-        if end is None:
-            end = float('inf')
-
-        if inclusive == (True, True):
-            return begin <= t <= end
-        if inclusive == (True, False):
-            return begin <= t < end
-        if inclusive == (False, True):
-            return begin < t <= end
-        if inclusive == (False, False):
-            return begin < t < end
+        # a single instant
+        if begin is not None and begin == end:
+            return t == begin
+
+        after_begin = begin is None or t > begin or (inclusive[0] and t == begin)
+        before_end = end is None or t < end or (inclusive[1] and t == end)
+
+        return after_begin and before_end
 
     @staticmethod
     def __overlaps_or_contains(iv, begin, end):
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 88688e6..c8637c0 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -505,7 +505,7 @@ class ImpulseGraph(object):
         else:
             remove_edges = []
             for edge in self.__search_tree(begin, end, inclusive):
-                if (edge[0] == n or edge[1] == n) and edge not in remove_edges:
+                if edge[0] == n or edge[1] == n:
                     remove_edges.append(edge)
 
         for edge in remove_edges:
@@ -643,9 +643,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
-            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                "begin: {}, end: {}.".format(begin, end))
+        begin, end = self.__validate_interval(begin, end)
 
         for iv in self._adj[u][v]:
             if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
@@ -937,7 +935,7 @@ class ImpulseGraph(object):
 
         else:
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1061,9 +1059,11 @@ class ImpulseGraph(object):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
+        # a single instant
+        if begin is not None and begin == end:
+            for edge in self.tree.get(begin, ()):
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
@@ -1085,19 +1085,14 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
-        if begin is None:
-            begin = float('-inf')
-        if end is None:
-            end = float('inf')
-
-        if inclusive == (True, True):
-            return t >= begin and t <= end
-        if inclusive == (True, False):
-            return t >= begin and t < end
-        if inclusive == (False, True):
-            return t > begin and t <= end
-        if inclusive == (False, False):
-            return t > begin and t < end
+        # a single instant
+        if begin is not None and begin == end:
+            return t == begin
+
+        after_begin = begin is None or t > begin or (inclusive[0] and t == begin)
+        before_end = end is None or t < end or (inclusive[1] and t == end)
+
+        return after_begin and before_end
 
     def to_networkx_graph(self, begin=None, end=None, inclusive=(True, False), multigraph=False, edge_data=False,
                           edge_timestamp_data=False, node_data=False):
-- 
2.43.0


From 966ab57283d853966644ac7f0f4573ccbdd3dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 29/53] fix: impulse graphs' edges() and degrees honour
 inclusive

---
 dynetworkx/classes/impulsedigraph.py | 75 ++++++++--------------------
 dynetworkx/classes/impulsegraph.py   | 54 ++++++--------------
 2 files changed, 36 insertions(+), 93 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index d0c6658..a6d1f82 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -331,7 +331,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         if not isinstance(u_list, list):
             u_list = [u_list]
         if not isinstance(v_list, list):
@@ -356,24 +356,19 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        begin, end = self.__validate_interval(begin, end)
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
-        if begin is not None and end is not None and begin > end:
-            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+    def __edges_interval_first(self, begin, end, inclusive):
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -468,11 +463,11 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -496,13 +491,13 @@ class ImpulseDiGraph(ImpulseGraph):
             node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -662,7 +657,7 @@ class ImpulseDiGraph(ImpulseGraph):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -716,9 +711,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -727,7 +722,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -776,16 +771,11 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
-
         d = {}
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -794,7 +784,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
@@ -847,7 +837,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -1036,27 +1026,6 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return after_begin and before_end
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index c8637c0..7364fe3 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -711,7 +711,7 @@ class ImpulseGraph(object):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -732,22 +732,17 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        begin, end = self.__validate_interval(begin, end)
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
-        if begin is not None and end is not None and begin > end:
-            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+    def __edges_interval_first(self, begin, end, inclusive):
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
@@ -844,11 +839,11 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -872,13 +867,13 @@ class ImpulseGraph(object):
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -1352,27 +1347,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def from_networkx_graph(graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From d0dce6caefd98c2e2af2d91f4f38e7a1e6d5f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:03 +0000
Subject: [PATCH 30/53] fix: impulse graphs' edges() takes strings and tuples
 as nodes

---
 dynetworkx/classes/impulsedigraph.py | 11 ++---------
 dynetworkx/classes/impulsegraph.py   | 25 +++++++++++++++----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index a6d1f82..de629f4 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -451,15 +451,8 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 7364fe3..8bfbb35 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -196,7 +196,10 @@ class ImpulseGraph(object):
         True
         """
 
-        return n in self._node
+        try:
+            return n in self._node
+        except TypeError:
+            return False
 
     def interval(self):
         """Return a 2-tuple as (begin, end) interval of the entire
@@ -741,6 +744,15 @@ class ImpulseGraph(object):
 
         return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
+    def _pack_nodes(self, n):
+        # a node of the graph or a string is one node even if it is iterable; other iterables are collections of nodes
+        if n is None or isinstance(n, str) or n in self:
+            return [n]
+        try:
+            return list(n)
+        except TypeError:
+            return [n]
+
     def __edges_interval_first(self, begin, end, inclusive):
         return list(self.__search_tree(begin, end, inclusive=inclusive))
 
@@ -827,15 +839,8 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-- 
2.43.0


From 651d9b02e349075e14ad50e79b7b95086c89bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 31/53] fix: impulse graphs' edges() works with a predictive
 model and does not depend on it

---
 dynetworkx/classes/impulsedigraph.py | 32 ++++++++++++---------------
 dynetworkx/classes/impulsegraph.py   | 33 +++++++++++++---------------
 2 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index de629f4..fb6ccf6 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -464,29 +464,25 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            # the model only chooses between two ways to the same answer
+            node_first = True
+            if len(self.tree) > 1:
+                nodes = set(u).union(v) - {None}
+                node_percent = len(nodes) / self.number_of_nodes()
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+                graph_begin, graph_end = self.interval()
+                interval_begin = graph_begin if begin is None else begin
+                interval_end = graph_end if end is None else end
+                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                node_first = node_time < interval_time
 
-            if node_time < interval_time:
+            if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 8bfbb35..9976d6d 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -852,29 +852,26 @@ class ImpulseGraph(object):
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            # the model only chooses between two ways to the same answer
+            node_first = True
+            if len(self.tree) > 1:
+                nodes = set(u).union(v) - {None}
+                node_percent = len(nodes) / self.number_of_nodes()
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+                graph_begin, graph_end = self.interval()
+                interval_begin = graph_begin if begin is None else begin
+                interval_end = graph_end if end is None else end
+                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                node_first = node_time < interval_time
 
-            if node_time < interval_time:
+            if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
+                          if ((u == [None] or e[0] in u) and (v == [None] or e[1] in v)) or
+                          ((u == [None] or e[1] in u) and (v == [None] or e[0] in v))]
 
         # Node First
         else:
-- 
2.43.0


From 514e13ada2669411d35d4e876c0b73158b860b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:49 +0000
Subject: [PATCH 32/53] fix: impulse graphs' predictive model can be trained on
 float times and on small graphs

---
 dynetworkx/classes/impulsedigraph.py | 8 ++++----
 dynetworkx/classes/impulsegraph.py   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index fb6ccf6..3d77994 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -509,15 +509,15 @@ class ImpulseDiGraph(ImpulseGraph):
 
         node_list = list(self._node.keys())
         graph_begin, graph_end = self.interval()
+        timestamps = list(self.tree.keys())
         X = []
         y = []
 
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.choice(timestamps)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -535,7 +535,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]:
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 9976d6d..d010da7 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -664,15 +664,15 @@ class ImpulseGraph(object):
 
         node_list = list(self._node.keys())
         graph_begin, graph_end = self.interval()
+        timestamps = list(self.tree.keys())
         X = []
         y = []
 
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.choice(timestamps)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
-- 
2.43.0


From b6a6e4b83951bccd70c9ea500867cc0102fbb3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:06 +0000
Subject: [PATCH 33/53] fix: training an interval graph's predictive model ends
 when only instants at its bounds have edges

---
 dynetworkx/classes/intervaldigraph.py | 4 ++--
 dynetworkx/classes/intervalgraph.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index ee4d765..acd9bf2 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -455,14 +455,14 @@ class IntervalDiGraph(IntervalGraph):
             raise NetworkXError("IntervalDiGraph: a predictive model needs a graph with at least one edge.")
 
         graph_begin, graph_end = self.interval()
+        timestamps = self.tree.unique_begin_timestamps()
         X = []
         y = []
 
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.uniform(graph_begin,
-                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            begin = random.choice(timestamps)
             nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 639b970..689555a 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1204,14 +1204,14 @@ class IntervalGraph(object):
             raise NetworkXError("IntervalGraph: a predictive model needs a graph with at least one edge.")
 
         graph_begin, graph_end = self.interval()
+        timestamps = self.tree.unique_begin_timestamps()
         X = []
         y = []
 
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.uniform(graph_begin,
-                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            begin = random.choice(timestamps)
             nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
-- 
2.43.0


From d5d1b6b41d659af0f7ae61ed7fa8bca817887c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:44 +0000
Subject: [PATCH 34/53] fix: impulse graphs' add_edge updates the attributes of
 an existing edge

---
 dynetworkx/classes/impulsedigraph.py | 5 +++++
 dynetworkx/classes/impulsegraph.py   | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 3d77994..92697a1 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -232,6 +232,11 @@ class ImpulseDiGraph(ImpulseGraph):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        # if edge exists, just update attr
+        if u in self._pred and v in self._pred[u] and (u, v, t) in self._pred[u][v]:
+            self._pred[u][v][(u, v, t)].update(attr)
+            return
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d010da7..ccf3b2f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -570,6 +570,13 @@ class ImpulseGraph(object):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        if u in self._adj and v in self._adj[u]:
+            # the graph is undirected: the edge may be there with its nodes the other way round
+            for existing in ((u, v, t), (v, u, t)):
+                if existing in self._adj[u][v]:
+                    self._adj[u][v][existing].update(attr)
+                    return
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
-- 
2.43.0


From b7c82ce81feaf341a1a8de1f5d3260c59678d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:00 +0000
Subject: [PATCH 35/53] fix: ImpulseGraph.to_subgraph combines edge attributes
 and timestamps

---
 dynetworkx/classes/impulsegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ccf3b2f..1bf5cc2 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1171,7 +1171,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
-- 
2.43.0


From 3cce2f4546dba071f79b8f69b04fb33a1b10bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:18 +0000
Subject: [PATCH 36/53] fix: ImpulseGraph.to_snapshots accepts a length with
 float times and keeps the last edge

---
 dynetworkx/classes/impulsegraph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1bf5cc2..cc0a6f1 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1266,10 +1266,10 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
-                                    "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+                                    "{0} was passed.".format(length_of_snapshots))
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
@@ -1283,11 +1283,14 @@ class ImpulseGraph(object):
         snapshots = []
         inclusive = (True, False)
         for i in range(number_of_snapshots):
+            snapshot_end = begin + length_of_snapshots * (i + 1)
             if i == number_of_snapshots - 1:
                 inclusive = (True, True)
+                # rounding must not leave the end of the graph out of the last snapshot
+                snapshot_end = max(snapshot_end, end)
             snapshots.append(
                 self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1), inclusive=inclusive,
+                                 snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
-- 
2.43.0


From 863bff7c434d1e4f141b16da400dbd65f521e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:36 +0000
Subject: [PATCH 37/53] fix: ImpulseDiGraph.from_networkx_graph returns an
 ImpulseDiGraph

---
 dynetworkx/classes/impulsegraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index cc0a6f1..287ce45 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1359,8 +1359,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, timestamp='timestamp'):
+    @classmethod
+    def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
 
         Parameters
@@ -1385,7 +1385,7 @@ class ImpulseGraph(object):
         ig = ImpulseGraph.from_networkx_graph(graph)
       """
 
-        G = ImpulseGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
-- 
2.43.0


From 8b2ffaf7050179c96c8733b53076963f503dbcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:54 +0000
Subject: [PATCH 38/53] fix: ImpulseDiGraph.load_from_txt takes the delimiter
 literally

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 92697a1..383e030 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1088,7 +1088,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 if not len(line):
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
-- 
2.43.0


From 5cb59fa851c7dbd8aff2e8f072bd075fe5157e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:11 +0000
Subject: [PATCH 39/53] fix: load_from_txt skips blank lines and indented
 comment lines

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 2 +-
 dynetworkx/classes/snapshotgraph.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 383e030..4e0a647 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1085,7 +1085,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not len(line.strip()):
                     continue
 
                 line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 287ce45..4b62e15 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1463,7 +1463,7 @@ class ImpulseGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not len(line.strip()):
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 689555a..fba6fc3 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1725,7 +1725,7 @@ class IntervalGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not len(line.strip()):
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index eee54cd..e13718a 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -845,7 +845,7 @@ class SnapshotGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not len(line.strip()):
                     continue
 
                 p = min(line.find(start), line.find(end))
-- 
2.43.0


From c36556e91af1ebf5259efb1096e5d349407ab8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:55 +0000
Subject: [PATCH 40/53] fix: count_temporal_motif counts instances which
 involve node 0

---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From 269c68f4c168f5df0df79239f2b138a75647c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:10 +0000
Subject: [PATCH 41/53] fix: count_temporal_motif counts every instance of a
 motif of one edge

---
 dynetworkx/algorithms/count_temporal_motif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 98de2ce..93bc231 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -222,6 +222,10 @@ def __decrement_counts(edges, motif_length, counts):
     -------
     None
     """
+    # a single edge is a whole motif, which counts even after its edge has left the time window
+    if motif_length == 1:
+        return
+
     suffixes = sorted(counts.keys(), key=len)
     for e in edges:
         counts[e] -= 1
-- 
2.43.0


From f0eddb9dd29974e7effb08080b2cf87459a629b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:26 +0000
Subject: [PATCH 42/53] fix: degree changes of interval graphs let go of an
 edge of zero duration at begin

---
 dynetworkx/classes/intervaldigraph.py | 9 ++++++---
 dynetworkx/classes/intervalgraph.py   | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index acd9bf2..d3ec6b7 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -706,7 +706,8 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                # (an edge ending at begin is one of zero duration, which was)
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
@@ -784,7 +785,8 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                # (an edge ending at begin is one of zero duration, which was)
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
@@ -862,7 +864,8 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                # (an edge ending at begin is one of zero duration, which was)
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index fba6fc3..c5836f5 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1157,7 +1157,8 @@ class IntervalGraph(object):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                # (an edge ending at begin is one of zero duration, which was)
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-- 
2.43.0


From 0f84f477a5d9805a490dbd13a8d8f8008c76f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:48 +0000
Subject: [PATCH 43/53] fix: text loading converts each end point on its own

With the default node type an edge whose first end point is not an integer
kept its second one as a string, so node 1 became '1' in some lines.
---
 dynetworkx/classes/impulsedigraph.py | 3 +++
 dynetworkx/classes/impulsegraph.py   | 3 +++
 dynetworkx/classes/intervalgraph.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 4e0a647..72a66e2 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1113,6 +1113,9 @@ class ImpulseDiGraph(ImpulseGraph):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 4b62e15..192ba24 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1491,6 +1491,9 @@ class ImpulseGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index c5836f5..54b36fa 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1763,6 +1763,9 @@ class IntervalGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
-- 
2.43.0


From 3756e386422d1af255ba7d39bc7b2a77d1897931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:02 +0000
Subject: [PATCH 44/53] fix: interval graphs reject an edge whose end lies
 before its begin

add_edge meant to raise NetworkXError, but relied on a ValueError that the
interval tree does not raise, so such an edge was stored (with its nodes) and
never found by any window.
---
 dynetworkx/classes/intervaldigraph.py | 8 ++++----
 dynetworkx/classes/intervalgraph.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index d3ec6b7..e11421b 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -131,6 +131,9 @@ class IntervalDiGraph(IntervalGraph):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
+        if begin > end:
+            raise NetworkXError("IntervalDiGraph: edge end must be bigger than or equal to begin {0}.".format((u, v, begin, end)))
+
         # if edge exists, just update attr
         if u in self._pred and v in self._succ and v in self._pred[u] and u in self._succ[v] and (u, v, begin, end) in self._pred[u][v] and (u, v, begin, end) in self._succ[v][u]:
             self._pred[u][v][(u, v, begin, end)].update(attr)
@@ -147,10 +150,7 @@ class IntervalDiGraph(IntervalGraph):
         self._node.setdefault(v, {})
 
         # add edge
-        try:
-            self.tree.add(iedge)
-        except ValueError:
-            raise NetworkXError("IntervalDiGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
+        self.tree.add(iedge)
 
         self._pred[u][v][iedge] = self._succ[v][u][iedge] = attr
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 54b36fa..aff5fb2 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -676,6 +676,9 @@ class IntervalGraph(object):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
+        if begin > end:
+            raise NetworkXError("IntervalGraph: edge end must be bigger than or equal to begin {0}.".format((u, v, begin, end)))
+
         iedge = (u, v, begin, end)
 
         if u in self._adj and v in self._adj[u]:
@@ -692,10 +695,7 @@ class IntervalGraph(object):
         self._node.setdefault(v, {})
 
         # add edge
-        try:
-            self.tree.add(iedge)
-        except ValueError:
-            raise NetworkXError("IntervalGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
+        self.tree.add(iedge)
 
         self._adj[u][v][iedge] = self._adj[v][u][iedge] = attr
 
-- 
2.43.0


From 8857311140bbc76c347dbf592e2f7f153506e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 45/53] fix: interval graphs take any orderable begin and end,
 as add_edge documents

---
 dynetworkx/classes/intervalgraph.py | 2 +-
 dynetworkx/classes/intervaltree.py  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index aff5fb2..2bbfd4d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -485,7 +485,7 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin is None and end < self.tree.begin:
+        if self.tree.root is None or (begin is None and end < self.tree.begin):
             return False
 
         if begin is not None and end is not None and end < begin:
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index a0370bb..d6cb95a 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -186,8 +186,11 @@ class IntervalTree:
 
         self.root = self.insert(self.root, node)
         self.number_of_edges += 1
-        self.begin = min(self.begin, start)
-        self.end = max(self.end, end)
+        if len(self.nodes) == 1:
+            self.begin, self.end = start, end
+        else:
+            self.begin = min(self.begin, start)
+            self.end = max(self.end, end)
         return
 
     def add_from(self, edges):
-- 
2.43.0


From 10d190976a0f12027323a1e1ba4d863c62f6bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 46/53] fix: the interval tree no longer walks through
 intervals that only touch the window

---
 dynetworkx/classes/intervaltree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index d6cb95a..5e4c442 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -160,13 +160,15 @@ class IntervalTree:
         return self.getHeight(node.left) - self.getHeight(node.right)
 
     def query(self, node, begin, end):
-        if node.left and (begin is None or node.left.max >= begin):
+        # of the intervals that only touch the window, the instant begin counts, never left of an earlier node
+        if node.left and (begin is None or node.left.max > begin or node.left.max == begin <= node.low):
             yield from self.query(node.left, begin, end)
 
         if node.inInterval(begin, end):
             yield node
 
-        if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
+        if node.right and (end is None or node.low < end or node.low == begin) \
+                and (begin is None or node.right.max >= begin):
             yield from self.query(node.right, begin, end)
 
     def add(self, edge):
-- 
2.43.0


From 8160355dad09edf9feb76348aa04fa21b7e0cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 47/53] fix: an edge whose nodes or times are rejected with
 TypeError is no longer half added

---
 dynetworkx/classes/impulsedigraph.py  | 4 ++++
 dynetworkx/classes/impulsegraph.py    | 4 ++++
 dynetworkx/classes/intervaldigraph.py | 6 ++++--
 dynetworkx/classes/intervalgraph.py   | 6 ++++--
 dynetworkx/classes/intervaltree.py    | 3 ++-
 5 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 72a66e2..a15a1d9 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -237,6 +237,10 @@ class ImpulseDiGraph(ImpulseGraph):
             self._pred[u][v][(u, v, t)].update(attr)
             return
 
+        # raises TypeError, with the graph unchanged, for unhashable nodes or a timestamp that cannot be ordered
+        hash((u, v, t))
+        self.tree.bisect_left(t)
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 192ba24..77ddde0 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -577,6 +577,10 @@ class ImpulseGraph(object):
                     self._adj[u][v][existing].update(attr)
                     return
 
+        # raises TypeError, with the graph unchanged, for unhashable nodes or a timestamp that cannot be ordered
+        hash((u, v, t))
+        self.tree.bisect_left(t)
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index e11421b..33e994b 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -142,6 +142,10 @@ class IntervalDiGraph(IntervalGraph):
 
         iedge = (u, v, begin, end)
 
+        # raises TypeError, with the graph unchanged, for unhashable nodes or times that cannot be ordered
+        hash(iedge)
+        self.tree.add(iedge)
+
         # add nodes
 
         self._pred.setdefault(u, {}).setdefault(v, {})
@@ -150,8 +154,6 @@ class IntervalDiGraph(IntervalGraph):
         self._node.setdefault(v, {})
 
         # add edge
-        self.tree.add(iedge)
-
         self._pred[u][v][iedge] = self._succ[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2bbfd4d..967e5e8 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -688,6 +688,10 @@ class IntervalGraph(object):
                     self._adj[u][v][existing].update(attr)
                     return
 
+        # raises TypeError, with the graph unchanged, for unhashable nodes or times that cannot be ordered
+        hash(iedge)
+        self.tree.add(iedge)
+
         # add nodes
         self._adj.setdefault(u, {}).setdefault(v, {})
         self._adj.setdefault(v, {}).setdefault(u, {})
@@ -695,8 +699,6 @@ class IntervalGraph(object):
         self._node.setdefault(v, {})
 
         # add edge
-        self.tree.add(iedge)
-
         self._adj[u][v][iedge] = self._adj[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 5e4c442..a8fc43a 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -184,9 +184,10 @@ class IntervalTree:
 
         node = Node(start, end)
         node.edges.append(edge)
-        self.nodes[(start, end)] = node
 
+        # raises TypeError, with the tree unchanged, if the times cannot be ordered among those in the tree
         self.root = self.insert(self.root, node)
+        self.nodes[(start, end)] = node
         self.number_of_edges += 1
         if len(self.nodes) == 1:
             self.begin, self.end = start, end
-- 
2.43.0


From c5ba0114cf119b9f23aef52347f3bbd6306e9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 48/53] fix: a snapshot whose time cannot be ordered no longer
 takes the other snapshots with it

---
 dynetworkx/classes/snapshotgraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index e13718a..89a3f07 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -153,12 +153,15 @@ class SnapshotGraph(object):
         if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
+            # raises TypeError, with the snapshots unchanged, if the time cannot be ordered among theirs
+            self.snapshots.bisect_left((time, time))
             self.snapshots.update({(time, time): graph})
         elif start is None or end is None:
             raise ValueError('Either time or both start and end must be specified.')
         elif start > end:
             raise ValueError('Start of the interval must be lower or equal to end')
         else:
+            self.snapshots.bisect_left((start, end))
             self.snapshots.update({(start, end): graph})
 
     def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None):
-- 
2.43.0


From 86db546939a10d49f0c381b7b33b2e15542cb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 49/53] fix: a trained predictive model raised ValueError for
 windows of infinite length

---
 dynetworkx/classes/impulsedigraph.py  | 6 ++++--
 dynetworkx/classes/impulsegraph.py    | 6 ++++--
 dynetworkx/classes/intervaldigraph.py | 6 ++++--
 dynetworkx/classes/intervalgraph.py   | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index a15a1d9..dcb9ab0 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -484,8 +484,10 @@ class ImpulseDiGraph(ImpulseGraph):
                 interval_end = graph_end if end is None else end
                 interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
-                node_first = node_time < interval_time
+                # a window of infinite length has no percentage to predict from
+                if math.isfinite(interval_percent):
+                    node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                    node_first = node_time < interval_time
 
             if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 77ddde0..b011789 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -874,8 +874,10 @@ class ImpulseGraph(object):
                 interval_end = graph_end if end is None else end
                 interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
-                node_first = node_time < interval_time
+                # a window of infinite length has no percentage to predict from
+                if math.isfinite(interval_percent):
+                    node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                    node_first = node_time < interval_time
 
             if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 33e994b..26173d5 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -420,8 +420,10 @@ class IntervalDiGraph(IntervalGraph):
                 interval_end = graph_end if end is None else end
                 interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
-                node_first = node_time < interval_time
+                # a window of infinite length has no percentage to predict from
+                if math.isfinite(interval_percent):
+                    node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                    node_first = node_time < interval_time
 
             if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 967e5e8..f189e68 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -976,8 +976,10 @@ class IntervalGraph(object):
                 interval_end = graph_end if end is None else end
                 interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-                node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
-                node_first = node_time < interval_time
+                # a window of infinite length has no percentage to predict from
+                if math.isfinite(interval_percent):
+                    node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+                    node_first = node_time < interval_time
 
             if node_first:
                 iedges = self.__edges_node_first(u, v, begin, end)
-- 
2.43.0


From 82ff4dae288e3ee6b99bb98b2b8489a2bc97b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:49 +0000
Subject: [PATCH 50/53] fix: load_from_txt of the impulse classes gave a
 subclass a plain base instance

---
 dynetworkx/classes/impulsedigraph.py | 6 +++---
 dynetworkx/classes/impulsegraph.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index dcb9ab0..e7011d1 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1026,8 +1026,8 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return after_begin and before_end
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
            Timestamps must be integers or floats.
            Nodes can be any hashable objects.
@@ -1078,7 +1078,7 @@ class ImpulseDiGraph(ImpulseGraph):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = ImpulseDiGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index b011789..3c9e679 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1404,8 +1404,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
            Timestamps must be integers or floats.
            Nodes can be any hashable objects.
@@ -1456,7 +1456,7 @@ class ImpulseGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = ImpulseGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From 8fced0980b798c214f2727a7359c2671e0f6d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:23 +0000
Subject: [PATCH 51/53] fix: keep edge attributes of any name when reading
 networkx graphs, snapshots and text

from_networkx_graph, from_snapshot_graph and load_from_txt passed the attributes of an edge on as keyword
arguments of add_edge, so that attributes called u, v, t, begin, end or self, and keys that are not strings,
raised TypeError.
---
 dynetworkx/classes/impulsedigraph.py  |  7 ++++++-
 dynetworkx/classes/impulsegraph.py    | 13 +++++++++++--
 dynetworkx/classes/intervaldigraph.py |  4 ++++
 dynetworkx/classes/intervalgraph.py   | 18 ++++++++++++++----
 4 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index e7011d1..ea3c30c 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -248,6 +248,10 @@ class ImpulseDiGraph(ImpulseGraph):
         self._pred.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
         self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
 
+    def _update_edge(self, u, v, t, attr):
+        """Update the attributes of an edge; unlike keyword arguments of add_edge, keys may have any name."""
+        self._pred.get(u, {}).get(v, {}).get((u, v, t), {}).update(attr)
+
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
 
@@ -1131,7 +1135,8 @@ class ImpulseDiGraph(ImpulseGraph):
                 except:
                     raise TypeError("Failed to convert interval time to {}".format(timestamptype))
 
-                G.add_edge(u, v, t, **edgedata)
+                G.add_edge(u, v, t)
+                G._update_edge(u, v, t, edgedata)
 
             if predict is True:
                 G.generate_predictive_model()
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 3c9e679..e05406c 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -588,6 +588,13 @@ class ImpulseGraph(object):
         self._adj.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
         self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
 
+    def _update_edge(self, u, v, t, attr):
+        """Update the attributes of an edge; unlike keyword arguments of add_edge, keys may have any name."""
+        for edge in ((u, v, t), (v, u, t)):
+            if edge in self._adj.get(u, {}).get(v, {}):
+                self._adj[u][v][edge].update(attr)
+                return
+
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
 
@@ -1400,7 +1407,8 @@ class ImpulseGraph(object):
                 if key != timestamp:
                     attr[key] = edge[2][key]
 
-            G.add_edge(edge[0], edge[1], edge[2][timestamp], **attr)
+            G.add_edge(edge[0], edge[1], edge[2][timestamp])
+            G._update_edge(edge[0], edge[1], edge[2][timestamp], attr)
 
         return G
 
@@ -1509,7 +1517,8 @@ class ImpulseGraph(object):
                 except:
                     raise TypeError("Failed to convert interval time to {}".format(timestamptype))
 
-                G.add_edge(u, v, t, **edgedata)
+                G.add_edge(u, v, t)
+                G._update_edge(u, v, t, edgedata)
 
         if predict is True:
             G.generate_predictive_model()
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 26173d5..29ad488 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -156,6 +156,10 @@ class IntervalDiGraph(IntervalGraph):
         # add edge
         self._pred[u][v][iedge] = self._succ[v][u][iedge] = attr
 
+    def _update_edge(self, u, v, begin, end, attr):
+        """Update the attributes of an edge; unlike keyword arguments of add_edge, keys may have any name."""
+        self._pred.get(u, {}).get(v, {}).get((u, v, begin, end), {}).update(attr)
+
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f189e68..320e201 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -701,6 +701,13 @@ class IntervalGraph(object):
         # add edge
         self._adj[u][v][iedge] = self._adj[v][u][iedge] = attr
 
+    def _update_edge(self, u, v, begin, end, attr):
+        """Update the attributes of an edge; unlike keyword arguments of add_edge, keys may have any name."""
+        for iedge in ((u, v, begin, end), (v, u, begin, end)):
+            if iedge in self._adj.get(u, {}).get(v, {}):
+                self._adj[u][v][iedge].update(attr)
+                return
+
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
 
@@ -1609,8 +1616,9 @@ class IntervalGraph(object):
 
         for edge_list in edge_dict:
             for edge in edge_dict[edge_list]:
-                G.add_edge(edge_list[0], edge_list[1], edge_dict[edge_list][edge][0], edge,
-                           **edge_dict[edge_list][edge][1])
+                G.add_edge(edge_list[0], edge_list[1], edge_dict[edge_list][edge][0], edge)
+                G._update_edge(edge_list[0], edge_list[1], edge_dict[edge_list][edge][0], edge,
+                               edge_dict[edge_list][edge][1])
 
         return G
 
@@ -1652,7 +1660,8 @@ class IntervalGraph(object):
                 if key != begin and key != end:
                     attr[key] = edge[2][key]
 
-            G.add_edge(edge[0], edge[1], edge[2][begin], edge[2][end], **attr)
+            G.add_edge(edge[0], edge[1], edge[2][begin], edge[2][end])
+            G._update_edge(edge[0], edge[1], edge[2][begin], edge[2][end], attr)
 
         return G
 
@@ -1787,7 +1796,8 @@ class IntervalGraph(object):
                             end = max(end, edge[3])
                             G.remove_edge(u, v, edge[2], edge[3], overlapping=False)
 
-                G.add_edge(u, v, begin, end, **edgedata)
+                G.add_edge(u, v, begin, end)
+                G._update_edge(u, v, begin, end, edgedata)
 
         if predict is True:
             G.generate_predictive_model()
-- 
2.43.0


From 78059f5a5d09307a7355d57d104f14815a789c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 52/53] fix: a trained model made windows of a node fail whose
 length relative to the graph cannot be computed

Bounds that can be compared with the times of the graph but not subtracted from them (Decimal and float, strings
after the graph was emptied), integers too large for a float and spans that vanish in float arithmetic raised
TypeError, OverflowError or ZeroDivisionError in edges(), though the model only chooses between two ways to the
same answer.
---
 dynetworkx/classes/impulsedigraph.py  | 7 +++++--
 dynetworkx/classes/impulsegraph.py    | 7 +++++--
 dynetworkx/classes/intervaldigraph.py | 7 +++++--
 dynetworkx/classes/intervalgraph.py   | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index ea3c30c..2b7af57 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -486,9 +486,12 @@ class ImpulseDiGraph(ImpulseGraph):
                 graph_begin, graph_end = self.interval()
                 interval_begin = graph_begin if begin is None else begin
                 interval_end = graph_end if end is None else end
-                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
+                # a window of infinite length, or of times that are only ordered, has no percentage to predict from
+                try:
+                    interval_percent = float((interval_end - interval_begin) / (graph_end - graph_begin))
+                except (TypeError, ArithmeticError):
+                    interval_percent = math.inf
 
-                # a window of infinite length has no percentage to predict from
                 if math.isfinite(interval_percent):
                     node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
                     node_first = node_time < interval_time
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index e05406c..1d7c6ff 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -879,9 +879,12 @@ class ImpulseGraph(object):
                 graph_begin, graph_end = self.interval()
                 interval_begin = graph_begin if begin is None else begin
                 interval_end = graph_end if end is None else end
-                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
+                # a window of infinite length, or of times that are only ordered, has no percentage to predict from
+                try:
+                    interval_percent = float((interval_end - interval_begin) / (graph_end - graph_begin))
+                except (TypeError, ArithmeticError):
+                    interval_percent = math.inf
 
-                # a window of infinite length has no percentage to predict from
                 if math.isfinite(interval_percent):
                     node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
                     node_first = node_time < interval_time
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 29ad488..348bb51 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -422,9 +422,12 @@ class IntervalDiGraph(IntervalGraph):
 
                 interval_begin = graph_begin if begin is None else begin
                 interval_end = graph_end if end is None else end
-                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
+                # a window of infinite length, or of times that are only ordered, has no percentage to predict from
+                try:
+                    interval_percent = float((interval_end - interval_begin) / (graph_end - graph_begin))
+                except (TypeError, ArithmeticError):
+                    interval_percent = math.inf
 
-                # a window of infinite length has no percentage to predict from
                 if math.isfinite(interval_percent):
                     node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
                     node_first = node_time < interval_time
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 320e201..a720fad 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -981,9 +981,12 @@ class IntervalGraph(object):
 
                 interval_begin = graph_begin if begin is None else begin
                 interval_end = graph_end if end is None else end
-                interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
+                # a window of infinite length, or of times that are only ordered, has no percentage to predict from
+                try:
+                    interval_percent = float((interval_end - interval_begin) / (graph_end - graph_begin))
+                except (TypeError, ArithmeticError):
+                    interval_percent = math.inf
 
-                # a window of infinite length has no percentage to predict from
                 if math.isfinite(interval_percent):
                     node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
                     node_first = node_time < interval_time
-- 
2.43.0


From 6cc796b33ecf76a759229bffe4d82431cead176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:55 +0000
Subject: [PATCH 53/53] fix: count_temporal_motif accepts nodes of any hashable
 type, ordered or not

---
 dynetworkx/algorithms/count_temporal_motif.py | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 93bc231..ff7f725 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -19,12 +19,15 @@ def __enumerate_subgraphs(g, size_k):
     -------
     an iterator for all size_k sub-graphs of g
     """
+    # position of every node, as the nodes themselves may have no order (or only a partial one)
+    rank = {v: i for i, v in enumerate(g.nodes())}
+
     for v in g.nodes():
-        v_extension = set(filter(lambda x: x > v, g.neighbors(v)))
-        yield from __extend_subgraph({v}, v_extension, v, g, size_k)
+        v_extension = set(filter(lambda x: rank[x] > rank[v], g.neighbors(v)))
+        yield from __extend_subgraph({v}, v_extension, v, g, size_k, rank)
 
 
-def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
+def __extend_subgraph(v_subgraph, v_extension, v, g, size_k, rank):
     """A recursive helper function for __enumerate_subgraphs() to enumerate all size_k connected sub-graphs
 
     Parameters
@@ -39,6 +42,8 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
 
     size_k: size of sub-graphs
 
+    rank: position of every node of g, each set of nodes is enumerated from its lowest one
+
     Returns
     -------
     an iterator for all size_k sub-graphs of g with v as the starting node
@@ -50,9 +55,9 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
             w = random.choice(tuple(v_extension))
             v_extension.remove(w)
 
-            v2_extension = v_extension.copy().union(set(filter(lambda x: x > v,
+            v2_extension = v_extension.copy().union(set(filter(lambda x: rank[x] > rank[v],
                                                                set(g.neighbors(w)) - v_subgraph)))
-            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k)
+            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k, rank)
 
 
 def count_temporal_motif(G, sequence, delta):
@@ -144,7 +149,7 @@ def count_temporal_motif(G, sequence, delta):
             __increment_counts(same_time_edges, len(sequence), counts)
 
         # Extract out count for sequences that are isomorphic to the temporal motifs
-        for keys in sorted(counts.keys()):
+        for keys in counts:
             if len(keys) / 2 == len(sequence):
                 if counts[keys] == 0:
                     continue
@@ -183,7 +188,11 @@ def count_temporal_motif(G, sequence, delta):
     nodes = []
     for key in total_counts: # gathers all nodes
         nodes += list(key)
-    nodes = sorted(list(set(nodes))) # sorts and gets rid of duplicates
+    nodes = list(OrderedDict.fromkeys(nodes)) # gets rid of duplicates
+    try:
+        nodes.sort()
+    except TypeError: # nodes that cannot be ordered keep the order of their first appearance
+        pass
 
     # creates dataframe where columns = nodes, row indices = position number, and value = number of times each node is at each position
     nppp = pd.DataFrame(index=nodes, columns=motif) # creates the dataframe
@@ -192,12 +201,13 @@ def count_temporal_motif(G, sequence, delta):
         nppp[col].values[:] = 0
 
     # calculates the number of times each node appears in each position of the motif
+    rows = {node: i for i, node in enumerate(nodes)}
     new_total_counts = {} # stores same info as total_counts, except keys don't have duplicates (and preserving order)
     for key in total_counts:
         new_key = tuple(OrderedDict.fromkeys(key)) # generates new key without duplicates
         new_total_counts[new_key] = total_counts.get(key) # stores new key and value data in new_total_counts
         for i in range(len(motif)):
-            nppp.at[new_key[i], motif[i]] += new_total_counts.get(new_key) # calculates number of times each node appears in each position of the motif    
+            nppp.iat[rows[new_key[i]], i] += new_total_counts.get(new_key) # calculates number of times each node appears in each position of the motif    
     # end of code for node_participation_per_position
 
     
-- 
2.43.0

