From bb5ab2669ce9b798cb9a16c63083644db8873e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:30 +0000
Subject: [PATCH 01/24] fix: remove_edge removes an exact interval and
 self-loops

remove_edge(overlapping=False) passed a list of edges on as one edge and
crashed; removing a self-loop popped the same adjacency entry twice.
---
 dynetworkx/classes/intervaldigraph.py | 11 ++++-------
 dynetworkx/classes/intervalgraph.py   | 15 ++++++---------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..5adc94a 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -570,20 +570,17 @@ class IntervalDiGraph(IntervalGraph):
         if u not in self._pred or v not in self._pred[u]:
             return
 
+        iedges_to_remove = []
+
         # remove edge between u and v with the exact given interval
         if not overlapping:
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
-
-        iedges_to_remove = []
+            iedges_to_remove = [iv for iv in self._pred[u][v] if iv[2] == begin and iv[3] == end]
 
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
             for iv in self._pred[u][v]:
                 iedges_to_remove.append(iv)
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..9aea31f 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1056,20 +1056,17 @@ class IntervalGraph(object):
         if u not in self._adj or v not in self._adj[u]:
             return
 
+        iedges_to_remove = []
+
         # remove edge between u and v with the exact given interval
         if not overlapping:
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
-
-        iedges_to_remove = []
+            iedges_to_remove = [iv for iv in self._adj[u][v] if iv[2] == begin and iv[3] == end]
 
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
             for iv in self._adj[u][v]:
                 iedges_to_remove.append(iv)
 
@@ -1090,11 +1087,11 @@ class IntervalGraph(object):
         # clean up empty dictionaries
         if len(self._adj[u][v]) == 0:
             self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
+        if u in self._adj[v] and len(self._adj[v][u]) == 0:
             self._adj[v].pop(u, None)
         if len(self._adj[u]) == 0:
             self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
+        if v in self._adj and len(self._adj[v]) == 0:
             self._adj.pop(v, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False):
-- 
2.43.0


From da66333a61772f80d725a79f9a45391d7cca97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:42 +0000
Subject: [PATCH 02/24] fix: remove_node removes the node's edges from the time
 index too

Removing a node left its edges in the interval tree, a ranged removal
changed the tree while reading it lazily and left empty adjacency entries
that has_edge reported as edges, and IntervalDiGraph had no working
remove_node at all.
---
 dynetworkx/classes/intervaldigraph.py | 24 ++++++++++++++++++++++++
 dynetworkx/classes/intervalgraph.py   |  6 ++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 5adc94a..cdf988e 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -608,6 +608,30 @@ class IntervalDiGraph(IntervalGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes all incoming and outgoing edges of n that appear within the given interval,
+        and the node itself if it has no edge left. Quiet if n is not in the graph.
+        See IntervalGraph.remove_node for the parameters.
+        """
+        if n not in self._node:
+            return
+
+        if begin is None and end is None:
+            iedges = self.edges(u=n) + self.edges(v=n)
+        else:
+            iedges = list(self.tree[begin:end])
+        for iedge in iedges:
+            if iedge[0] == n or iedge[1] == n:
+                self.remove_edge(*iedge, overlapping=False)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 9aea31f..e6712a9 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -610,16 +610,18 @@ class IntervalGraph(object):
             return
 
         if begin is None and end is None:
+            for iedge in self.edges(u=n):
+                self.tree.remove(iedge)
             self._adj.pop(n, None)
             for v in self._adj:
                 if n in self._adj[v]:
                     self._adj[v].pop(n, None)
 
         else:
-            iedges = self.tree[begin:end]
+            iedges = list(self.tree[begin:end])
             for iedge in iedges:
                 if iedge[0] == n or iedge[1] == n:
-                    self.__remove_iedge(iedge)
+                    self.remove_edge(*iedge, overlapping=False)
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
-- 
2.43.0


From 6fbb02aa0b3da1bf6ee657113e44c87405d65c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 03/24] fix: removing an interval keeps the rest of the
 interval tree

IntervalTree.discard dropped the right subtree of a removed node, remove()
never stored the new root, kept the emptied node in the key map, failed on
an interval that is not stored and left begin/end stale.
---
 dynetworkx/classes/intervaltree.py | 39 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..f5c8005 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -76,13 +76,16 @@ class IntervalTree:
 
     def discard(self, root, node):
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
+            if not root.left:
                 return root.right
-            return None
+            if not root.right:
+                return root.left
+            # both subtrees are kept: the successor takes the place of the removed node
+            root = self.leftmost(node.right)
+            root.right = self.discard(node.right, root)
+            root.left = node.left
 
-        if node.low < root.low or (node.low == root.low and node.high < root.high):
+        elif node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
@@ -105,6 +108,11 @@ class IntervalTree:
 
         return root
 
+    def leftmost(self, node):
+        if node.left:
+            return self.leftmost(node.left)
+        return node
+
     def leftRotate(self, x):
 
         y = x.right
@@ -189,24 +197,23 @@ class IntervalTree:
         start = edge[2]
         end = edge[3]
 
-        node = self.nodes[(start, end)]
-        if edge not in node.edges:
+        node = self.nodes.get((start, end))
+        if node is None or edge not in node.edges:
             return
 
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
+            self.root = self.discard(self.root, node)
+            del self.nodes[(start, end)]
+        if self.root is None:
+            self.begin = float('inf')
+            self.end = float('-inf')
+            return
         if self.begin == start:
-            traversal_node = self.root
-            while traversal_node.left != None:
-                self.begin = traversal_node.left.low
-                traversal_node = traversal_node.left
+            self.begin = self.leftmost(self.root).low
         if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            self.end = self.root.max
 
         return
 
-- 
2.43.0


From fca955d7afc80d8677a4d71d3431ab412ab31785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:37 +0000
Subject: [PATCH 04/24] fix: interval tree searches treat 0 and missing bounds
 correctly

A bound of 0 was taken for a missing one, a missing end left out intervals
that start at the very end, a missing begin returned the first interval for
windows before it, and the timestamp listings failed on an empty tree and
missed timestamps lying exactly on an inclusive bound.
---
 dynetworkx/classes/intervaltree.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index f5c8005..1c0ba31 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -222,10 +222,10 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
+        if interval_start is None:
+            interval_start = float('-inf')
+        if interval_end is None:
+            interval_end = float('inf')
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
@@ -233,9 +233,9 @@ class IntervalTree:
     def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -247,7 +247,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
@@ -258,9 +258,9 @@ class IntervalTree:
     def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -272,7 +272,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
 
@@ -281,9 +281,9 @@ class IntervalTree:
     def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -295,7 +295,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.inOrder(self.root):
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
                 timestamps.add(n.high)
 
-- 
2.43.0


From e1efc01245cb0590cd0667190bab60e8215c4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 05/24] fix: has_edge(overlapping=False) matches the exact
 interval only

It tested a list against None and so answered True for any interval.
---
 dynetworkx/classes/intervaldigraph.py | 2 +-
 dynetworkx/classes/intervalgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index cdf988e..7bfc1b9 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -257,7 +257,7 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return any(iv[2] == begin and iv[3] == end for iv in self._pred[u][v])
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e6712a9..d47407b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -800,7 +800,7 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return any(iv[2] == begin and iv[3] == end for iv in self._adj[u][v])
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-- 
2.43.0


From b132ed8ff8c215fd8ca50a883e745040f2d73e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:18 +0000
Subject: [PATCH 06/24] fix: interval windows with 0 bounds and zero-length
 edges at an open window

'begin and end and begin > end' skipped the validation when a bound is 0,
and a zero-length edge starting exactly at begin was only found when an
end was given.
---
 dynetworkx/classes/intervaldigraph.py | 8 ++++----
 dynetworkx/classes/intervalgraph.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 7bfc1b9..82c9ec1 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -259,7 +259,7 @@ class IntervalDiGraph(IntervalGraph):
 
             return any(iv[2] == begin and iv[3] == end for iv in self._pred[u][v])
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -586,7 +586,7 @@ class IntervalDiGraph(IntervalGraph):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -938,7 +938,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
@@ -1007,5 +1007,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index d47407b..b9d93af 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -491,7 +491,7 @@ class IntervalGraph(object):
         if begin is not None and end is not None and end < begin:
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -802,7 +802,7 @@ class IntervalGraph(object):
 
             return any(iv[2] == begin and iv[3] == end for iv in self._adj[u][v])
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -1074,7 +1074,7 @@ class IntervalGraph(object):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
@@ -1275,7 +1275,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
-- 
2.43.0


From 02ee299b25e44e84cba9eda9399b52cf81bf5aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:23 +0000
Subject: [PATCH 07/24] fix: an undirected interval edge given in reverse is
 the same edge

Adding (v, u, begin, end) after (u, v, begin, end) stored a parallel edge,
which the class documents as not allowed, instead of updating the edge.
---
 dynetworkx/classes/intervalgraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index b9d93af..f0826c7 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -681,6 +681,10 @@ class IntervalGraph(object):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
+        if u in self._adj and v in self._adj[u] and (v, u, begin, end) in self._adj[u][v]:
+            # edges have no direction: this one is already stored as (v, u)
+            u, v = v, u
+
         if u in self._adj and v in self._adj[u] and (u, v, begin, end) in self._adj[u][v]:
             self._adj[u][v][(u, v, begin, end)].update(attr)
             self._adj[v][u][(u, v, begin, end)].update(attr)
-- 
2.43.0


From 5f94df5c60d9f27ed04fbf068dad9b4bbc2e08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 08/24] fix: edges() for string nodes and for several nodes at
 once

A string node was taken for a collection of one-character nodes, and with
several nodes and no window only the first pair was looked up.
---
 dynetworkx/classes/impulsedigraph.py  | 23 ++++++++++++-----------
 dynetworkx/classes/impulsegraph.py    | 19 ++++++++++++-------
 dynetworkx/classes/intervaldigraph.py | 19 ++++++++++++-------
 dynetworkx/classes/intervalgraph.py   | 19 ++++++++++++-------
 4 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..dd46f41 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -334,10 +334,6 @@ class ImpulseDiGraph(ImpulseGraph):
         self._model = model
 
     def __edges_node_first(self, u_list, v_list, begin, end):
-        if not isinstance(u_list, list):
-            u_list = [u_list]
-        if not isinstance(v_list, list):
-            v_list = [v_list]
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -358,14 +354,14 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -458,6 +454,11 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
+        if isinstance(u, str):
+            u = [u]
+        if isinstance(v, str):
+            v = [v]
+
         try:
             _ = (e for e in u)
         except TypeError:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..9553753 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -736,14 +736,14 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -836,6 +836,11 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
+        if isinstance(u, str):
+            u = [u]
+        if isinstance(v, str):
+            v = [v]
+
         try:
             _ = (e for e in u)
         except TypeError:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 82c9ec1..c41cd71 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -289,14 +289,14 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -393,6 +393,11 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
+        if isinstance(u, str):
+            u = [u]
+        if isinstance(v, str):
+            v = [v]
+
         try:
             _ = (e for e in u)
         except TypeError:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f0826c7..2731dd2 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -836,14 +836,14 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -947,6 +947,11 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
+        if isinstance(u, str):
+            u = [u]
+        if isinstance(v, str):
+            v = [v]
+
         try:
             _ = (e for e in u)
         except TypeError:
-- 
2.43.0


From bd241beb4a0507faf61ee281c07fe8a4205cee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:42 +0000
Subject: [PATCH 09/24] fix: impulse edge lookups honour the inclusive flags

edges() ignored inclusive (and, filtered by node, lost edges at time 0),
a window of one instant was searched twice, and has_edge skipped the window
validation for a bound of 0. The directed edges() and degrees keep their
half-open default window, which is now also what their signature says.
---
 dynetworkx/classes/impulsedigraph.py | 56 ++++++++++------------------
 dynetworkx/classes/impulsegraph.py   | 48 ++++++++----------------
 2 files changed, 34 insertions(+), 70 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index dd46f41..13415b2 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -309,7 +309,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -333,7 +333,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -363,15 +363,15 @@ class ImpulseDiGraph(ImpulseGraph):
             raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -471,11 +471,11 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -499,13 +499,13 @@ class ImpulseDiGraph(ImpulseGraph):
             node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -642,7 +642,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -707,7 +707,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -774,7 +774,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
@@ -973,9 +973,10 @@ class ImpulseDiGraph(ImpulseGraph):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
+        if begin is not None and begin == end:
+            for edge in self.tree.get(begin, ()):
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
@@ -997,6 +998,8 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        if begin is not None and begin == end:
+            return t == begin
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -1011,27 +1014,6 @@ class ImpulseDiGraph(ImpulseGraph):
         if inclusive == (False, False):
             return begin < t < end
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 9553753..1daa55b 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -645,7 +645,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -715,7 +715,7 @@ class ImpulseGraph(object):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -745,13 +745,13 @@ class ImpulseGraph(object):
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
@@ -853,11 +853,11 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -881,13 +881,13 @@ class ImpulseGraph(object):
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -1072,9 +1072,10 @@ class ImpulseGraph(object):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
+        if begin is not None and begin == end:
+            for edge in self.tree.get(begin, ()):
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
@@ -1096,6 +1097,8 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        if begin is not None and begin == end:
+            return t == begin
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -1368,27 +1371,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def from_networkx_graph(graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From 6ef21b134436948ddf37914f4547f70832107fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:53 +0000
Subject: [PATCH 10/24] fix: impulse remove_edge honours inclusive and cleans
 up the time index

remove_edge ignored its inclusive flags, left empty timestamps in the time
index (so interval() and to_snapshot_graph() reported them), swallowed every
error, printed the adjacency on each removal and failed on self-loops.
---
 dynetworkx/classes/impulsedigraph.py | 19 ++++++++-----------
 dynetworkx/classes/impulsegraph.py   | 25 +++++++++++--------------
 2 files changed, 19 insertions(+), 25 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 13415b2..e51badb 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -625,7 +625,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         else:
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -929,20 +929,17 @@ class ImpulseDiGraph(ImpulseGraph):
     def __remove_iedge(self, iedge):
         """Remove the impulse edge from the impulse graph.
 
-        Quiet if the specified edge is not present.
-
         Parameters
         ----------
-        iedge : Edge Tuple (u,v,eid,t)
+        iedge : Edge Tuple (u,v,t)
             Edge to be removed.
         """
-
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
-            return
+        u, v, t = iedge
+        self.tree[t].remove((u, v))
+        if len(self.tree[t]) == 0:
+            del self.tree[t]
+        self._pred[u][v].pop(iedge, None)
+        self._succ[v][u].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1daa55b..0defe3f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -944,7 +944,7 @@ class ImpulseGraph(object):
 
         else:
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -954,11 +954,11 @@ class ImpulseGraph(object):
         # clean up empty dictionaries
         if len(self._adj[u][v]) == 0:
             self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
+        if u in self._adj[v] and len(self._adj[v][u]) == 0:
             self._adj[v].pop(u, None)
         if len(self._adj[u]) == 0:
             self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
+        if v in self._adj and len(self._adj[v]) == 0:
             self._adj.pop(v, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
@@ -1026,22 +1026,19 @@ class ImpulseGraph(object):
         return output
 
     def __remove_iedge(self, iedge):
-        """Remove the interval edge from the impulse graph.
-
-        Quiet if the specified edge is not present.
+        """Remove the impulse edge from the impulse graph.
 
         Parameters
         ----------
-        iedge : Edge Tuple (u,v,eid,t)
+        iedge : Edge Tuple (u,v,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
-            return
-        print(self._adj)
+        u, v, t = iedge
+        self.tree[t].remove((u, v))
+        if len(self.tree[t]) == 0:
+            del self.tree[t]
+        self._adj[u][v].pop(iedge, None)
+        self._adj[v][u].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From 38ee5ff7cb37e2d5e60e723b4c8728e232f7b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 11/24] fix: impulse remove_node removes the node's edges from
 the time index too

A full removal left the edges in the time index, a ranged removal left empty
adjacency entries that has_edge reported as edges, and ImpulseDiGraph had no
working remove_node at all.
---
 dynetworkx/classes/impulsedigraph.py | 24 ++++++++++++++++++++++++
 dynetworkx/classes/impulsegraph.py   |  6 +++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index e51badb..578ce97 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -642,6 +642,30 @@ class ImpulseDiGraph(ImpulseGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes all incoming and outgoing edges of n that appear within the given interval,
+        and the node itself if it has no edge left. Quiet if n is not in the graph.
+        See ImpulseGraph.remove_node for the parameters.
+        """
+        if n not in self._node:
+            return
+
+        if begin is None and end is None:
+            edges = self.edges(u=n) + self.edges(v=n)
+        else:
+            edges = self.edges(begin=begin, end=end, inclusive=inclusive)
+        for edge in edges:
+            if edge[0] == n or edge[1] == n:
+                self.remove_edge(edge[0], edge[1], begin=edge[2], end=edge[2])
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 0defe3f..95d65bd 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -500,6 +500,10 @@ class ImpulseGraph(object):
             return
 
         if begin is None and end is None:
+            for u, v, t in self.edges(u=n):
+                self.tree[t].remove((u, v))
+                if len(self.tree[t]) == 0:
+                    del self.tree[t]
             self._adj.pop(n, None)
             for v in self._adj:
                 if n in self._adj[v]:
@@ -511,7 +515,7 @@ class ImpulseGraph(object):
                 if edge[0] == n or edge[1] == n:
                     remove_edges.append(edge)
             for edge in remove_edges:
-                self.__remove_iedge(edge)
+                self.remove_edge(edge[0], edge[1], begin=edge[2], end=edge[2])
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
-- 
2.43.0


From 91ec792bd08557eee34a70c9a0412749523a826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:45 +0000
Subject: [PATCH 12/24] fix: adding an impulse edge again updates its
 attributes

As documented (and as for interval edges), instead of dropping all earlier
attributes of the edge.
---
 dynetworkx/classes/impulsedigraph.py | 5 +++--
 dynetworkx/classes/impulsegraph.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 578ce97..8a82b50 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -236,8 +236,9 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._pred.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        iedge_attr = self._pred.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), {})
+        iedge_attr.update(attr)
+        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = iedge_attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 95d65bd..d2a1d44 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -577,8 +577,9 @@ class ImpulseGraph(object):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._adj.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        iedge_attr = self._adj.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), {})
+        iedge_attr.update(attr)
+        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = iedge_attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
-- 
2.43.0


From 4473725f0569dbc8e92cb4c66f60f1b272ded0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:09 +0000
Subject: [PATCH 13/24] fix: to_subgraph works on directed interval graphs and
 with all data options

IntervalDiGraph.to_subgraph used attributes that edge tuples do not have, and
ImpulseGraph.to_subgraph looked edge data up under the wrong key when both
edge_data and edge_timestamp_data are asked for.
---
 dynetworkx/classes/impulsegraph.py    |  2 +-
 dynetworkx/classes/intervaldigraph.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d2a1d44..79c62f6 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1188,7 +1188,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c41cd71..8f4d371 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -954,17 +954,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From 1efa35957c2c32884153874e84a8f62e579f2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 14/24] fix: the mean out-degree averages out-degrees

ImpulseDiGraph.out_degree() without a node averaged in-degrees, and
IntervalDiGraph.out_degree printed a debug line per change.
---
 dynetworkx/classes/impulsedigraph.py  | 2 +-
 dynetworkx/classes/intervaldigraph.py | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 8a82b50..a9f950d 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -840,7 +840,7 @@ class ImpulseDiGraph(ImpulseGraph):
             l = 0
             for node in self.nodes(begin=begin, end=end, inclusive=inclusive):
                 n += 1
-                l += self.in_degree(node, begin=begin, end=end, inclusive=inclusive)
+                l += self.out_degree(node, begin=begin, end=end, inclusive=inclusive)
             return l / n
 
         # specified node, no degree_change, return degree
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 8f4d371..d61483b 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -875,7 +875,6 @@ class IntervalDiGraph(IntervalGraph):
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
                 if time[0] != begin:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
         return sorted(output)
-- 
2.43.0


From 697a2a8cbf054fe0c32ba20bfd732bb0d3f8bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:19 +0000
Subject: [PATCH 15/24] fix: directed impulse degree timelines use the caller's
 window

degree, in_degree and out_degree with delta=True replaced the given inclusive
flags by fixed ones, and in_degree failed on a graph without edges.
---
 dynetworkx/classes/impulsedigraph.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index a9f950d..d43cdd6 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -721,9 +721,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -781,16 +781,12 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
 
         d = {}
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -852,7 +848,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
-- 
2.43.0


From 7dca85bed7fbe0c64c13059b65fa584bf2e835d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:11 +0000
Subject: [PATCH 16/24] fix: edge lookups after fitting a predictive model

The prediction was asked with a malformed input, the interval strategy
filtered by the wrong node condition, giving both nodes crashed, missing
bounds turned into a window that lost the last edges, and a graph whose span
is a single instant divided by zero. Fitting itself failed on
ImpulseDiGraph and on graphs with a node that has no edges left.
---
 dynetworkx/classes/impulsedigraph.py  | 26 +++++++++++---------------
 dynetworkx/classes/impulsegraph.py    | 25 +++++++++++--------------
 dynetworkx/classes/intervaldigraph.py | 24 ++++++++++--------------
 dynetworkx/classes/intervalgraph.py   | 27 ++++++++++++---------------
 4 files changed, 44 insertions(+), 58 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index d43cdd6..e7037d6 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -479,30 +479,26 @@ class ImpulseDiGraph(ImpulseGraph):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and len(self.tree) > 1:
+            u, v = list(u), list(v)
+            nodes = set(u).union(v) - {None}
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
@@ -555,7 +551,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]:
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 79c62f6..6ac56dd 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -684,7 +684,7 @@ class ImpulseGraph(object):
             node_edges = set()
             start_timer = timer()
             for u in nodes:
-                for v in self._adj[u]:
+                for v in self._adj.get(u, ()):
                     for edge in self._adj[u][v]:
                         if edge not in node_edges and (edge[2] == begin or (begin < edge[2] < end)):
                             node_edges.add(edge)
@@ -865,30 +865,27 @@ class ImpulseGraph(object):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and len(self.tree) > 1:
+            u, v = list(u), list(v)
+            nodes = set(u).union(v) - {None}
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
+                          if (u == [None] or v == [None]) and (e[0] in nodes or e[1] in nodes)
+                          or e[0] in u and e[1] in v or e[0] in v and e[1] in u]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index d61483b..60e9051 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -417,30 +417,26 @@ class IntervalDiGraph(IntervalGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.tree.begin < self.tree.end:
+            u, v = list(u), list(v)
+            nodes = set(u).union(v) - {None}
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2731dd2..5b17785 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -971,30 +971,27 @@ class IntervalGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.tree.begin < self.tree.end:
+            u, v = list(u), list(v)
+            nodes = set(u).union(v) - {None}
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            interval_begin = graph_begin if begin is None else begin
+            interval_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (interval_end - interval_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or v == [None]) and (e[0] in nodes or e[1] in nodes)
+                          or e[0] in u and e[1] in v or e[0] in v and e[1] in u]
 
         # Node First
         else:
@@ -1230,7 +1227,7 @@ class IntervalGraph(object):
             node_edges = set()
             start_timer = timer()
             for u in nodes:
-                for v in self._adj[u]:
+                for v in self._adj.get(u, ()):
                     for edge in self._adj[u][v]:
                         if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
                             node_edges.add(edge)
-- 
2.43.0


From d943d8680bbe80ad8565bc9ef576143baa6d0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:08 +0000
Subject: [PATCH 17/24] fix: snapshot time ranges that start or end inside a
 snapshot

A range starting after the last snapshot's begin raised an IndexError, one
starting in a gap returned the snapshot before it, and an update ending
inside a snapshot split the following snapshot or none at all.
---
 dynetworkx/classes/snapshotgraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..7147805 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -634,7 +634,7 @@ class SnapshotGraph(object):
                 # Decrease 1 index if start is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
                 # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
+                if min_idx > 0 and start < self.snapshots.keys()[min_idx - 1][1]:
                     if split_overlaps:
                         # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
                         key, g = self.snapshots.popitem(min_idx - 1)
@@ -649,8 +649,8 @@ class SnapshotGraph(object):
                 max_idx = self.snapshots.bisect_left((end,))
                 # Split the snapshot if 'end' is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
+                if split_overlaps and max_idx > min_idx and end < self.snapshots.keys()[max_idx - 1][1]:
+                    key, g = self.snapshots.popitem(max_idx - 1)
                     self.insert(g, key[0], end)
                     self.insert(copy.deepcopy(g), end, key[1])
 
-- 
2.43.0


From 9e545baf37ca889a545879c49a5ff83db7a3f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:24 +0000
Subject: [PATCH 18/24] fix: snapshot selections by empty list, node 0, time 0
 or empty graph

Values that are merely falsy were taken for missing ones: an empty selection
returned every snapshot, degree(nbunch=0) every node, an empty graph could
not be added; and subgraph(sbunch=...) failed to unpack its snapshots.
---
 dynetworkx/classes/snapshotdigraph.py |  4 +-
 dynetworkx/classes/snapshotgraph.py   | 68 +++++++++++++--------------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..e5985b0 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
@@ -39,7 +39,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7147805..1cbc488 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -148,7 +148,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -181,13 +181,13 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
@@ -230,10 +230,10 @@ class SnapshotGraph(object):
         subgraph = SnapshotGraph()
         subgraph.graph = self.graph
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
-            for key, snapshot in self._get(sbunch=sbunch):
+        elif sbunch is not None:
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
@@ -277,15 +277,15 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
-            if nbunch:
+        elif sbunch is not None:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
@@ -319,9 +319,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -355,9 +355,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -392,9 +392,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -428,9 +428,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -464,9 +464,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -498,9 +498,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -532,9 +532,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -571,9 +571,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -620,9 +620,9 @@ class SnapshotGraph(object):
         else:
             graphs = self.snapshots.values()
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
@@ -734,9 +734,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -792,9 +792,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -930,9 +930,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 9586816cd74d10f908acbf3d2c73b65faa449bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:06 +0000
Subject: [PATCH 19/24] fix: to_snapshots accepts any positive length

---
 dynetworkx/classes/impulsegraph.py  | 4 ++--
 dynetworkx/classes/intervalgraph.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 6ac56dd..c285002 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1280,10 +1280,10 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5b17785..c6008e4 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1452,10 +1452,10 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From 148bacc36ba4f144bde642ae04116554ec4faadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:20 +0000
Subject: [PATCH 20/24] fix: motif counts on graphs with a node labelled 0

---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From 4abec04ba25a2ee9c1abecd9d05a3716a4eeede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 21/24] fix: from_snapshot_graph splits an edge reported from
 its other end

---
 dynetworkx/classes/intervalgraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index c6008e4..93d88ca 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1640,6 +1640,9 @@ class IntervalGraph(object):
         for snapshot in snapshot_graph.get():
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
+                # an undirected edge may be reported from either end
+                if not snapshot.is_directed() and (edge[1], edge[0]) in edge_dict:
+                    u_v = (edge[1], edge[0])
                 if u_v in edge_dict:
                     if begin in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = edge_dict[u_v][begin]
-- 
2.43.0


From 5992df275e6a7fb413d7b36da15b21c020aa2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:29 +0000
Subject: [PATCH 22/24] fix: SnapshotGraph.load_from_txt kept the matrix
 entries as text

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 1cbc488..4537d1e 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -870,7 +870,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix))
+                g = from_numpy_array(np.array(matrix, dtype=float))
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From 516ae1b41b45e4e19c8d8c64ac7c06f2fc288f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 23/24] fix: ImpulseDiGraph.load_from_txt read the delimiter as
 a regular expression

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index e7037d6..ecbef44 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1096,7 +1096,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 if not len(line):
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
-- 
2.43.0


From ad235024d4104a17787f7ae453387f7697fd1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:22 +0000
Subject: [PATCH 24/24] fix: load_from_txt read both end nodes as int or
 neither

---
 dynetworkx/classes/impulsedigraph.py | 3 +++
 dynetworkx/classes/impulsegraph.py   | 3 +++
 dynetworkx/classes/intervalgraph.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index ecbef44..cddb511 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1121,6 +1121,9 @@ class ImpulseDiGraph(ImpulseGraph):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index c285002..4e3b3be 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1502,6 +1502,9 @@ class ImpulseGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 93d88ca..798f765 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1814,6 +1814,9 @@ class IntervalGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
-- 
2.43.0

