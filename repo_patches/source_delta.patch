From 46de3f2ac014c05d3f6e240c54327c1010a02aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 01/89] fix: Tree.remove turns a parent without children into a
 LEAF

---
 src/mesh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 9a4a45a..9a3be72 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -752,7 +752,13 @@ class Tree(object):
         Remove node (self) from parent's list of children
         """
         assert self.get_node_type() != 'ROOT', 'Cannot delete ROOT node.'
-        self.get_parent()._children[self._node_position] = None
+        parent = self.get_parent()
+        parent._children[self._node_position] = None
+        #
+        # Change parent type from BRANCH to LEAF if necessary
+        #
+        if parent._node_type == 'BRANCH' and not parent.has_children():
+            parent._node_type = 'LEAF'
 
 
     def add_child(self):
-- 
2.43.0


From 70c4d2ea2936c58c8550ecd4fb037af8fb990139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 02/89] fix: keep positions and addresses up to date when trees
 join or leave a forest

---
 src/mesh.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 9a3be72..f2ede9c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -295,11 +295,8 @@ class Tree(object):
                 #
                 # Add tree to forest
                 #
+                self._children = []
                 forest.add_tree(self)
-
-                self._in_forest = True
-                self._forest = forest
-                self._node_address = [self.get_node_position()]
             else:
                 #
                 # Free standing ROOT cell
@@ -469,9 +466,9 @@ class Tree(object):
         assert self.get_node_type() == 'ROOT', \
             'Only ROOT nodes are in the forest.'
         self._node_position = position
-        self._node_address = [position]
         self._in_forest = True
         self._forest = forest
+        self._update_addresses([position])
 
 
     def remove_from_forest(self):
@@ -480,8 +477,17 @@ class Tree(object):
         """
         self._in_forest = False
         self._node_position = None
-        self._node_address = []
         self._forest = None
+        self._update_addresses([])
+
+
+    def _update_addresses(self, address):
+        """
+        Assign an address to the node and adjust those of its progeny
+        """
+        self._node_address = address
+        for child in self.get_children():
+            child._update_addresses(address + [child.get_node_position()])
 
 
     def is_regular(self):
@@ -1419,6 +1425,11 @@ class Forest(object):
         tree = self.get_child(position)
         tree.remove_from_forest()
         del self._trees[position]
+        #
+        # Renumber the trees that follow
+        #
+        for i in range(position, len(self._trees)):
+            self._trees[i].plant_in_forest(self, i)
 
 
     def record(self, flag):
-- 
2.43.0


From 53649c759b3f77e415b6adae4443613c1b88accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/89] fix: find_node returns the addressed node, or None if
 there is none

---
 src/mesh.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index f2ede9c..04ed2b0 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -972,15 +972,21 @@ class Tree(object):
         Locate node by its address
         """
         node = self.get_root()
-        if address != []:
+        if node.in_forest():
             #
-            # Not the ROOT node
+            # First entry is the position of the tree within the forest
             #
-            for a in address:
-                if node.has_children() and a in range(node.n_children()):
-                    node = node.get_child(a)
-                else:
+            if len(address) > 0:
+                if address[0] != node.get_node_position():
+                    return None
+                address = address[1:]
+        for a in address:
+            if node.has_children() and a in range(node.n_children()):
+                node = node.get_child(a)
+                if node is None:
                     return None
+            else:
+                return None
         return node
 
 
@@ -1347,11 +1353,11 @@ class Forest(object):
         node = self
         while len(address)>0:
             a = address.pop()
-            if node.has_children():
-                if a not in range(node.n_children()):
-                    return None
-                else:
-                    node = node.get_child(a)
+            if a not in range(node.n_children()):
+                return None
+            node = node.get_child(a)
+            if node is None:
+                return None
         return node
 
 
-- 
2.43.0


From 5a61ae7a50d828c2a12443f2a8687eaf7421c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/89] fix: Forest.get_children returns the flagged trees in
 reverse order

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 04ed2b0..f6123d3 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1406,9 +1406,11 @@ class Forest(object):
             else:
                 children = []
                 for tree in reversed(self._trees):
-                    if tree.is_marked():
+                    if tree.is_marked(flag):
                         children.append(tree)
 
+                return children
+
 
     def add_tree(self, tree):
         """
-- 
2.43.0


From bc5c499728e425ac43c401b12f3739ccce30df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 05/89] fix: Tree.tree_depth takes the flag into account below
 the first level

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index f6123d3..16724af 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -439,7 +439,7 @@ class Tree(object):
         depth = self.get_depth()
         if self.has_children():
             for child in self.get_children(flag=flag):
-                d = child.tree_depth()
+                d = child.tree_depth(flag=flag)
                 if d > depth:
                     depth = d
         return depth
-- 
2.43.0


From b6ae6927ec02183a1569fea1ea1c5ca0a7ee0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 06/89] fix: coarsening a submesh unlabels all progeny of the
 coarsened node

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 16724af..95dc173 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1088,7 +1088,7 @@ class Tree(object):
                 # Remove subforest flag from children
                 #
                 for child in self.get_children():
-                    child.unmark(subforest_flag)
+                    child.unmark(subforest_flag, recursive=True)
             else:
                 #
                 # Delete children
-- 
2.43.0


From 1b9979b3115f66db1882f8ac570ac465d4d07227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 07/89] fix: level-wise interval neighbours across parents and
 periodic ends

---
 src/mesh.py | 98 ++++++++++++++++++-----------------------------------
 1 file changed, 33 insertions(+), 65 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 95dc173..cc036b3 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2809,78 +2809,46 @@ class Interval(HalfEdge):
             # =================================================================
             # Return Level-wise Neighbor
             # =================================================================
-            if pivot == 0:
+            nbr = self.previous() if pivot==0 else self.next()
+            if nbr is not None:
                 #
-                # Left neighbor
+                # Sibling or neighboring root interval
                 #
-                nbr = self.previous()
-                if nbr is None:
-                    #
-                    # No previous, may still be periodic
-                    #
-                    v = self.base()
-                    if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Search children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(0)
-                                else:
-                                    #
-                                    # There are no children at same depth as interval
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
-                else:
-                    #
-                    # Return previous interval
-                    #
+                if subforest_flag is None or nbr.is_marked(subforest_flag):
                     return nbr
-            elif pivot == 1:
+                else:
+                    return None
+            elif self.has_parent():
                 #
-                # Right neighbor
+                # Look among the children of the parent's neighbor
                 #
-                nbr = self.next()
-                if nbr is None:
+                parent_nbr = \
+                    self.get_parent().get_neighbor(pivot,
+                                                   subforest_flag=subforest_flag,
+                                                   mode='level-wise')
+                if parent_nbr is None or not parent_nbr.has_children():
                     #
-                    # No next, may still be periodic
+                    # There is no interval on the same level
                     #
-                    v = self.head()
-                    if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Iterate through children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(1)
-                                else:
-                                    #
-                                    # There are no cells matching cell's depth
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
-                else:
-                    #
-                    # Return next interval
-                    #
-                    return nbr
+                    return None
+                #
+                # Child adjoining the interval
+                #
+                i = parent_nbr.n_children()-1 if pivot==0 else 0
+                nbr = parent_nbr.get_child(i)
+            else:
+                #
+                # Root interval: may still be periodic
+                #
+                v = self.base() if pivot==0 else self.head()
+                for pair in v.get_periodic_pair():
+                    nbr, dummy = pair
+            if nbr is None:
+                return None
+            elif subforest_flag is None or nbr.is_marked(subforest_flag):
+                return nbr
+            else:
+                return None
 
         elif mode=='physical':
             # =================================================================
-- 
2.43.0


From 5707d2dba7e1eb3260a46571f150e05ae2f77950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 08/89] fix: point on downward skew half-edge

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index cc036b3..30f6667 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2414,7 +2414,7 @@ class HalfEdge(Tree):
             # Discard points whose x-values don't lie on Edge
             in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
 
-        elif dim==1 or np.abs(v[1]<1e-14):
+        elif dim==1 or np.abs(v[1])<tol:
             #
             # Horizontal line
             #
-- 
2.43.0


From 3ebdd943a7cf9644b7bdd37ef4e332fdf2bc73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 09/89] fix: neighbours about a vertex honour the flag and
 periodic vertices

---
 src/mesh.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 30f6667..c3a9d64 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3480,11 +3480,13 @@ class Cell(Tree):
             #
             neighbors = []
             cell = self
+            vertex = pivot
+            full_rotation = False
             while True:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot)
+                half_edge = cell.incident_half_edge(vertex)
                 neighbor = cell.get_neighbors(half_edge)
                 #
                 # Move on
@@ -3495,25 +3497,29 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
-                    return neighbors
+                    full_rotation = True
+                    break
                 else:
                     #
                     # Got at neighbor!
                     #
                     neighbors.append(neighbor)
                     cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
+                    #
+                    # The pivot, as seen from the neighbor (may be periodic)
+                    #
+                    vertex = half_edge.twin().base()
             #
             # Clockwise
             #
             neighbors_clockwise = []
             cell = self
-            while True:
+            vertex = pivot
+            while not full_rotation:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot, reverse=True)
+                half_edge = cell.incident_half_edge(vertex, reverse=True)
                 neighbor = cell.get_neighbors(half_edge)
                 #
                 # Move on
@@ -3524,15 +3530,14 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
-                    return neighbors
+                    break
                 else:
                     #
                     # Got a neighbor
                     #
                     neighbors_clockwise.append(neighbor)
                     cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
+                    vertex = half_edge.twin().head()
             #
             # Combine clockwise and anticlockwise neighbors
             #
-- 
2.43.0


From 7797782b22bf718d9c1cfe632b33a9b119b6552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 10/89] fix: boundary segments of meshes with several boundary
 components

---
 src/mesh.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index c3a9d64..62be761 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7186,8 +7186,12 @@ class Mesh2D(Mesh):
                 #
                 # Check if g1 can add a deque in bnd_hes_sorted
                 #
-                merger_activity = False
                 for g2 in bnd_hes_sorted:
+                    if g2 is g1:
+                        #
+                        # Closed segments are not merged with themselves
+                        #
+                        continue
                     #
                     # Does g1's head align with g2's tail?
                     #
@@ -7196,6 +7200,7 @@ class Mesh2D(Mesh):
                         g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
                         g1.extend(g2)
                         merger_activity = True
+                        break
                     #
                     # Does g1's tail align with g2's head?
                     #
@@ -7204,6 +7209,9 @@ class Mesh2D(Mesh):
                         g2.reverse()
                         g1.extendleft(g2)
                         merger_activity = True
+                        break
+                if merger_activity:
+                    break
 
             if not merger_activity or len(bnd_hes_sorted)==1:
                 break
-- 
2.43.0


From cea9b2b2727825fba7a18286fd9fe97f6ef1cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 11/89] fix: flagged boundary segments keep exactly the flagged
 half-edges

---
 src/mesh.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 62be761..2bd61fc 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7249,12 +7249,7 @@ class Mesh2D(Mesh):
             # Throw out he's that are not flagged
             #
             if flag is not None:
-                for he, i_he in zip(segment, range(len(segment))):
-                    if not he.is_marked(flag):
-                        #
-                        # Not flagged: remove from list
-                        #
-                        del segment[i_he]
+                segment[:] = [he for he in segment if he.is_marked(flag)]
 
         return bnd
 
-- 
2.43.0


From 5ab3f9d12539b3f8d0fd683e5e0c85ea3706fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 12/89] fix: deleting the children of a QuadCell deletes their
 half-edges

---
 src/mesh.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 2bd61fc..8dc1e9c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3721,6 +3721,35 @@ class QuadCell(Cell, Tree):
                     he_child.pair_periodic_vertices()
 
     
+    def delete_children(self, position=None):
+        """
+        Delete the QuadCell's sub-QuadCells
+
+        Input:
+
+            position: int, position of the child to delete. By default, all
+                children are deleted, together with the sub-edges that belong
+                to them, so that neighboring cells no longer refer to them.
+        """
+        if position is None:
+            #
+            # Delete all progeny, finest cells first
+            #
+            for child in self.get_children():
+                child.delete_children()
+            #
+            # Delete sub-edges and the references to them
+            #
+            for half_edge in self.get_half_edges():
+                for he_child in half_edge.get_children():
+                    twin = he_child.twin()
+                    if twin is not None:
+                        twin.delete_twin()
+                        he_child.delete_twin()
+                half_edge.delete_children()
+        Tree.delete_children(self, position=position)
+
+
     def subcell_position(self, subcell):
         """
         Description
-- 
2.43.0


From 6d1608ca630cf22b779a66620dc08c5821a7a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 13/89] fix: boundary half-edges and points of the DCEL

---
 src/mesh.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 8dc1e9c..2b6c696 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6327,31 +6327,38 @@ class DCEL(object):
         bnd_hes_sorted = [deque([he]) for he in bnd_hes]
 
         while True:
+            merger_activity = False
             for g1 in bnd_hes_sorted:
                 #
                 # Check if g1 can add a deque in bnd_hes_sorted
                 #
-                merger_activity = False
                 for g2 in bnd_hes_sorted:
+                    if g2 is g1:
+                        #
+                        # Closed segments are not merged with themselves
+                        #
+                        continue
                     #
                     # Does g1's head align with g2's tail?
                     #
                     if self.half_edges['connectivity'][g1[-1]][1]==\
                        self.half_edges['connectivity'][g2[0]][0]:
                         # Remove g2 from list
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extend(g2)
-                            merger_activity = True
+                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
+                        g1.extend(g2)
+                        merger_activity = True
+                        break
                     #
                     # Does g1's tail align with g2's head?
                     #
                     elif self.half_edges['connectivity'][g1[0]][0]==\
                          self.half_edges['connectivity'][g2[-1]][1]:
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extendleft(g2)
-                            merger_activity = True
+                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
+                        g1.extendleft(reversed(g2))
+                        merger_activity = True
+                        break
+                if merger_activity:
+                    break
             if not merger_activity:
                 break
         #
@@ -6436,11 +6443,12 @@ class DCEL(object):
             # Two dimensional grid
             #
             bnd_points = []
-            for i_he in self.get_boundary_half_edges():
+            for segment in self.get_boundary_half_edges():
                 #
                 # Add initial point of each boundary half edge
                 #
-                bnd_points.append(self.half_edges['connectivity'][i_he][0])
+                for i_he in segment:
+                    bnd_points.append(self.half_edges['connectivity'][i_he][0])
         else:
             raise Exception('Only dimensions 1 and 2 supported.')
         return bnd_points
-- 
2.43.0


From 64457c4fd58a316520c9a8b28e6cd6f7089549b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 14/89] fix: the DCEL reports no neighbour across a boundary
 half-edge

---
 src/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 2b6c696..588d1c8 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6298,6 +6298,11 @@ class DCEL(object):
                 'Cell not incident to Half-Edge.'
 
             i_nbr_he = self.half_edges['twin'][i_direction]
+            if i_nbr_he == -1:
+                #
+                # No twin: Half-edge lies on the boundary
+                #
+                return None
             i_nbr = self.half_edges['face'][i_nbr_he]
 
         if i_nbr != -1:
-- 
2.43.0


From 7667737a97366bdfed5b3172f3ab3ed70f501fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 15/89] fix: one-point vectors convert to (1,1) arrays

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 588d1c8..11c3bd1 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -116,7 +116,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
                 if dim is not None:
                     assert dim==1, 'Incompatible dimensions'
                 x = x[:,np.newaxis]
-            if len(x) == 2:
+            elif len(x) == 2:
                 #
                 # x is a vector 2 entries: ambiguous
                 #
-- 
2.43.0


From cd80f2e0d98f453b6fb970b3899eb8c8623765ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 16/89] fix: inverse reference map of rectangles in any
 orientation

---
 src/mesh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 11c3bd1..70eed70 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3987,8 +3987,11 @@ class QuadCell(Cell, Tree):
                 #
                 # Cell is a rectangle - the inverse mapping is explicit
                 #
-                s = (x-p_sw_x)/(p_se_x-p_sw_x)
-                t = (y-p_sw_y)/(p_nw_y-p_sw_y)
+                ux, uy = p_se_x-p_sw_x, p_se_y-p_sw_y
+                vx, vy = p_nw_x-p_sw_x, p_nw_y-p_sw_y
+                Det = ux*vy - uy*vx
+                s = (vy*(x-p_sw_x) - vx*(y-p_sw_y))/Det
+                t = (ux*(y-p_sw_y) - uy*(x-p_sw_x))/Det
 
                 x_trg = np.array([s,t]).T
             else:
-- 
2.43.0


From 812bf66279bc751333cc61bdb18812888508d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 17/89] fix: Hessian of the inverse map does not need the
 Jacobian to be requested

---
 src/mesh.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 70eed70..01adc63 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -4044,7 +4044,7 @@ class QuadCell(Cell, Tree):
             # Initialize map gradients (mg) dictionary
             mg = {}
 
-            if jac_r2p or jac_p2r:
+            if jac_r2p or jac_p2r or hess_p2r:
                 #
                 # Compute Jacobian of the forward mapping
                 #
@@ -4059,17 +4059,18 @@ class QuadCell(Cell, Tree):
                 #
                 mg['jac_r2p'] = [np.array([[xs[i], xt[i]], [ys[i], yt[i]]])\
                                  for i in range(n)]
-            if jac_p2r:
-                #
-                # Jacobian of mapping from physical to reference region
-                #
-
+            if jac_p2r or hess_p2r:
                 # Compute matrix inverse of jacobian for backward mapping
                 Det = xs*yt-xt*ys
                 sx =  yt/Det
                 sy = -xt/Det
                 tx = -ys/Det
                 ty =  xs/Det
+
+            if jac_p2r:
+                #
+                # Jacobian of mapping from physical to reference region
+                #
                 mg['jac_p2r'] = [np.array([[sx[i], sy[i]],[tx[i], ty[i]]])\
                                  for i in range(n)]
             if hess_r2p:
-- 
2.43.0


From 4cf91ecf83aa22f9c25c19bd0b6062dc7185c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 18/89] fix: physical-to-reference Jacobian of half-edges

---
 src/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 01adc63..0a746c4 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2664,8 +2664,9 @@ class HalfEdge(Tree):
             if jac_p2r:
                 #
                 # Jacobian of mapping from physical to reference region
-                # TODO: Shouldn't this also be a list?
-                mg['jac_p2r'] = np.array([[1/(x1-x0), 1/(y1-y0)]])
+                #
+                v = np.array([[x1-x0, y1-y0]])
+                mg['jac_p2r'] = [v/np.sum(v**2)]*n
             if hess_r2p:
                 #
                 # Hessian of mapping from reference to physical region
-- 
2.43.0


From 206cf360e0b61641db52ce41035244e141826fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 19/89] fix: position of a sub-edge within a vertical half-edge

---
 src/mesh.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 0a746c4..be798c9 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2541,17 +2541,14 @@ class HalfEdge(Tree):
             'Input "subedge" not contained within HalfEdge.'
         
         #
-        # It suffices to work with x-coordinates
-        #  
-        # Get x-coordinates of reference HalfEdge 
-        x0_ref, dummy = self.base().coordinates()
-        x1_ref, dummy = self.head().coordinates()
-        
-        # Get x-coordinates of sub-edge base  
-        x0_sub, dummy = v0.coordinates()
+        # Location of the sub-edge's base along the HalfEdge
+        #
+        x0_ref = np.array(self.base().coordinates())
+        x0_sub = np.array(v0.coordinates())
+        v = np.array(self.head().coordinates()) - x0_ref
         
         # Compute position
-        pos = (x0_sub-x0_ref)/(x1_ref-x0_ref)
+        pos = np.dot(x0_sub-x0_ref, v)/np.dot(v, v)
         
         # Get relative length
         width = subedge.length()/self.length() 
-- 
2.43.0


From c52dae5111c22ae7fbb617d51042e1b78c89325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 20/89] fix: position of a QuadCell within itself

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index be798c9..8eac357 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3813,7 +3813,7 @@ class QuadCell(Cell, Tree):
                 rel_position += 2**(-(level+1))*sign[i]
         
         # Compute the width of the reference cell
-        width = 2**(-(level+1))
+        width = 2**(-len(rel_address))
         
         # Return result
         return rel_position, width
-- 
2.43.0


From 383b2081ed1fb8f3c3dc1be7483a26ed3facbfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 21/89] fix: iterate the inverse map of distorted
 quadrilaterals to convergence

---
 src/mesh.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 8eac357..c4e32c5 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3998,7 +3998,7 @@ class QuadCell(Cell, Tree):
                 #
                 # Initialize points in reference domain
                 s, t = 0.5*np.ones(n), 0.5*np.ones(n)
-                n_iterations = 5
+                n_iterations = 50
                 for dummy in range(n_iterations):
                     #
                     # Compute residual
@@ -4021,8 +4021,10 @@ class QuadCell(Cell, Tree):
                     # Newton Update:
                     #
                     Det = drx_ds*dry_dt - drx_dt*dry_ds
-                    s -= ( dry_dt*rx - drx_dt*ry)/Det
-                    t -= (-dry_ds*rx + drx_ds*ry)/Det
+                    ds = ( dry_dt*rx - drx_dt*ry)/Det
+                    dt = (-dry_ds*rx + drx_ds*ry)/Det
+                    s -= ds
+                    t -= dt
 
                     #
                     # Project onto [0,1]^2
@@ -4030,6 +4032,9 @@ class QuadCell(Cell, Tree):
                     s = np.minimum(np.maximum(s,0),1)
                     t = np.minimum(np.maximum(t,0),1)
 
+                    if np.all(np.abs(ds)+np.abs(dt)<1e-14):
+                        break
+
                 x_trg = np.array([s,t]).T
 
         #
-- 
2.43.0


From 0ef0873f49b4f72eb963af7ef8a7aa5bb4f5babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 22/89] fix: derivatives of 1D shape functions on the reference
 interval

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index de5f18a..34a6312 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -605,7 +605,7 @@ class QuadFE(Element):
                                 p[:,i] = dN_ds*ds_dxy + dN_dt*dt_dxy
                 else:
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var)
+                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
 
             elif der[0]==2:
                 #
@@ -669,7 +669,7 @@ class QuadFE(Element):
                     # No mapping
                     #
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:])
+                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
             phi.append(p)
 
         if is_singleton:
-- 
2.43.0


From ff31382481ce15d0a4104de55955b1900656cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 23/89] fix: Basis.eval maps physical points to the reference
 cell

---
 src/fem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 34a6312..59d4d85 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1167,11 +1167,15 @@ class Basis():
             #
             # Points lie in physical cell -> first map them to the reference
             # 
-            x = cell.reference_map(x)
+            x, mg = e_cell.reference_map(x, mapsto='reference', 
+                                         jac_p2r=True, hess_p2r=True)
+        else:
+            dummy, mg = e_cell.reference_map(x, jac_p2r=True, hess_p2r=True)
         #
         # Evaluate the Basis function at the given reference points
         #
-        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell)
+        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell, 
+                            jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'])
         return phi
 
 
-- 
2.43.0


From 932605787868698744f76362b57c8f50d00f1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 24/89] fix: derivatives of shape functions on rotated
 rectangles

---
 src/fem.py | 88 +++++++++++++++++++++---------------------------------
 1 file changed, 34 insertions(+), 54 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 59d4d85..060836b 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -585,24 +585,15 @@ class QuadFE(Element):
                             p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
                             p[:,i] = ds_dx*p[:,i]
                     elif isinstance(cell, QuadCell):
-                        if cell.is_rectangle():
-                            #
-                            # Rectangular cells are simpler
-                            #
-                            dst_dxy = np.array([Ji[i_var,i_var] for Ji in jac_p2r])
-                            for i in range(n_dofs_loc):
-                                p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var)
-                                p[:,i] = dst_dxy*p[:,i]
-                        else:
-                            #
-                            # Quadrilateral cells
-                            #
-                            ds_dxy = np.array([Ji[0,i_var] for Ji in jac_p2r])
-                            dt_dxy = np.array([Ji[1,i_var] for Ji in jac_p2r])
-                            for i in range(n_dofs_loc):
-                                dN_ds = self.dphi(local_dofs[i], x_ref, var=0)
-                                dN_dt = self.dphi(local_dofs[i], x_ref, var=1)
-                                p[:,i] = dN_ds*ds_dxy + dN_dt*dt_dxy
+                        #
+                        # Quadrilateral cells (rectangles may be rotated)
+                        #
+                        ds_dxy = np.array([Ji[0,i_var] for Ji in jac_p2r])
+                        dt_dxy = np.array([Ji[1,i_var] for Ji in jac_p2r])
+                        for i in range(n_dofs_loc):
+                            dN_ds = self.dphi(local_dofs[i], x_ref, var=0)
+                            dN_dt = self.dphi(local_dofs[i], x_ref, var=1)
+                            p[:,i] = dN_ds*ds_dxy + dN_dt*dt_dxy
                 else:
                     for i in range(n_dofs_loc):
                         p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
@@ -624,46 +615,35 @@ class QuadFE(Element):
                         for i in range(n_dofs_loc):
                             p[:,i] = (ds_dx)**2*self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
                     elif isinstance(cell, QuadCell):
-                        if cell.is_rectangle():
+                        #
+                        # General quadrilateral (rectangles may be rotated)
+                        #
+                        # First partial derivatives of (s,t) wrt xi, xj
+                        s_xi = np.array([Ji[0,i_var] for Ji in jac_p2r])
+                        s_xj = np.array([Ji[0,j_var] for Ji in jac_p2r])
+                        t_xi = np.array([Ji[1,i_var] for Ji in jac_p2r])
+                        t_xj = np.array([Ji[1,j_var] for Ji in jac_p2r])
+
+                        # Second mixed partial derivatives of (s,t) wrt xi, xj
+                        s_xixj = np.array([Hi[i_var,j_var,0] for Hi in hess_p2r])
+                        t_xixj = np.array([Hi[i_var,j_var,1] for Hi in hess_p2r])
+
+                        for i in range(n_dofs_loc):
                             #
-                            # Rectangular cell: mixed derivatives 0
+                            # Reference partial derivatives
                             #
-                            dri_dxi = np.array([Ji[i_var,i_var] for Ji in jac_p2r])
-                            drj_dxj = np.array([Ji[j_var,j_var] for Ji in jac_p2r])
-                            for i in range(n_dofs_loc):
-                                p[:,i] = \
-                                    dri_dxi*drj_dxj*self.d2phi(local_dofs[i], x_ref, der[1:])
-
-                        else:
+                            N_s = self.dphi(local_dofs[i], x_ref, var=0)
+                            N_t = self.dphi(local_dofs[i], x_ref, var=1)
+                            N_ss = self.d2phi(local_dofs[i], x_ref, (0,0))
+                            N_st = self.d2phi(local_dofs[i], x_ref, (0,1))
+                            N_tt = self.d2phi(local_dofs[i], x_ref, (1,1))
                             #
-                            # General quadrilateral
+                            # Mapped second derivative
                             #
-                            # First partial derivatives of (s,t) wrt xi, xj
-                            s_xi = np.array([Ji[0,i_var] for Ji in jac_p2r])
-                            s_xj = np.array([Ji[0,j_var] for Ji in jac_p2r])
-                            t_xi = np.array([Ji[1,i_var] for Ji in jac_p2r])
-                            t_xj = np.array([Ji[1,j_var] for Ji in jac_p2r])
-
-                            # Second mixed partial derivatives of (s,t) wrt xi, xj
-                            s_xixj = np.array([Hi[i_var,j_var,0] for Hi in hess_p2r])
-                            t_xixj = np.array([Hi[i_var,j_var,1] for Hi in hess_p2r])
-
-                            for i in range(n_dofs_loc):
-                                #
-                                # Reference partial derivatives
-                                #
-                                N_s = self.dphi(local_dofs[i], x_ref, var=0)
-                                N_t = self.dphi(local_dofs[i], x_ref, var=1)
-                                N_ss = self.d2phi(local_dofs[i], x_ref, (0,0))
-                                N_st = self.d2phi(local_dofs[i], x_ref, (0,1))
-                                N_tt = self.d2phi(local_dofs[i], x_ref, (1,1))
-                                #
-                                # Mapped second derivative
-                                #
-                                p[:,i] = N_ss*s_xj*s_xi + N_st*t_xj*s_xi +\
-                                         N_s*s_xixj + \
-                                         N_st*s_xj*t_xi + N_tt*t_xj*t_xi +\
-                                         N_t*t_xixj
+                            p[:,i] = N_ss*s_xj*s_xi + N_st*t_xj*s_xi +\
+                                     N_s*s_xixj + \
+                                     N_st*s_xj*t_xi + N_tt*t_xj*t_xi +\
+                                     N_t*t_xixj
                 else:
                     #
                     # No mapping
-- 
2.43.0


From e95bc978efae1913d3ba7b97baca861b0e1c880b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 25/89] fix: quadrature rules on triangles

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5d912a7..46c61d7 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -155,7 +155,7 @@ class GaussRule():
                 self.__nodes = np.array(nodes)
                 self.__weights = np.array(weights)
 
-        elif element.cell_type == 'triangle':
+        elif shape == 'triangle':
             #
             # Two dimensional rules over triangles
             #
@@ -164,7 +164,7 @@ class GaussRule():
                 #
                 # One point rule
                 #
-                r = [(2.0/3.0,1.0/3.0)]
+                r = [(1.0/3.0,1.0/3.0)]
                 w = [0.5]
             elif order == 3:
                 #
-- 
2.43.0


From 89fc7d496a01d02891ca7c62db046cba8e0b2c0a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 26/89] fix: scale_rule on quadrilaterals

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 46c61d7..48c9c85 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -395,7 +395,7 @@ class GaussRule():
                 assert position.shape == (1,2), \
                     'Position must have dimensions (1,2).'
                     
-                assert np.dim(scale)==0, \
+                assert np.ndim(scale)==0, \
                     'Input "scalar" should have dimension 0.'
                 
                 # Scale the weights 
-- 
2.43.0


From ea8aa619e80dd60edf9f115ac59ec0b303d17fc0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 27/89] fix: get_region_dofs returns its dofs sorted

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 060836b..944582d 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2165,7 +2165,7 @@ class DofHandler(object):
             new_dofs = self.get_cell_dofs(cell, entity, interior=interior)
                                           
             dofs = dofs.union(new_dofs)
-        return list(dofs)
+        return sorted(dofs)
 
 
     def set_dof_vertices(self, subforest_flag=None):
-- 
2.43.0


From 1ffde2670ad8e3cbb7c7d059968f570d18bb3116 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 28/89] fix: dofs on a closed half-edge without vertex dofs

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 944582d..6ddd3f9 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2086,7 +2086,7 @@ class DofHandler(object):
                     # Add endpoint vertices
                     #
                     if v in end_points:
-                        dofs.append(cell_dofs[i])
+                        dofs.extend(cell_dofs[i:i+dpv])
                     i += dpv
             else:
                 #
-- 
2.43.0


From 5b1c7b3cc82c514be8ce16b1a47198501ca15e0b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 29/89] fix: hanging nodes of meshes that have none

---
 src/fem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index 6ddd3f9..b4a177c 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2558,6 +2558,12 @@ class DofHandler(object):
         """
         Returns hanging nodes of current (sub)mesh
         """
+        if self.mesh.dim()==1 or self.element.torn_element():
+            #
+            # No hanging nodes
+            #
+            return {}
+
         if subforest_flag is None:
             #
             # Default
-- 
2.43.0


From 37a4e517bc4c9f2fc1057b5322831f3adcafac7f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 30/89] fix: distributing dofs renews the hanging nodes

---
 src/fem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index b4a177c..d15419f 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1212,6 +1212,9 @@ class DofHandler(object):
             subforest_flag: str/int, identifies the submesh on which to
                 distribute dofs
         """
+        # The mesh may have changed since the last call
+        self.__hanging_nodes = {}
+
         dim = self.element.dim()
         if dim==1:
             for interval in self.mesh.cells.traverse(mode='breadth-first',
-- 
2.43.0


From e593efabc5301f72b3062c12a86ab7a9d6ba4d44 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 31/89] fix: dofs added to a dof handler get their vertices

---
 src/fem.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index d15419f..9098d71 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2175,10 +2175,6 @@ class DofHandler(object):
         """
         Construct a list of all vertices in the mesh
         """
-        # Check if dof_vertices already set
-        if len(self.__dof_vertices) >= self.n_dofs(subforest_flag=subforest_flag):
-            return
-
         # Reference nodes
         x_ref = self.element.reference_nodes()
 
-- 
2.43.0


From 2b9f7024ea117cea2f38c18b93efc7ce6c7dcfcc Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 32/89] fix: Basis.set_subforest_flag renews the index maps

---
 src/fem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index 9098d71..8b0ae27 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -902,6 +902,13 @@ class Basis():
         self.__subforest_flag = subforest_flag
         self.__derivative = parse_derivative_info(derivative)
 
+        self.__set_index_maps()
+
+
+    def __set_index_maps(self):
+        """
+        Construct the mappings between dofs and their position in the basis
+        """
         dofs = self.dofs()
         d2i = -np.ones(dofs[-1]+1, dtype=int)
         d2i[dofs] = np.arange(len(dofs))
@@ -958,6 +965,7 @@ class Basis():
 
         """
         self.__subforest_flag = flag
+        self.__set_index_maps()
 
 
     def derivative(self):
-- 
2.43.0


From 44526fa2eb567dfdc765c95f5a9fe61c2fd2d9b2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 33/89] fix: dofs distributed earlier are shared with cells
 added since

---
 src/fem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index 8b0ae27..5b6f857 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1223,6 +1223,14 @@ class DofHandler(object):
         # The mesh may have changed since the last call
         self.__hanging_nodes = {}
 
+        # Dofs distributed earlier must reach their neighbors before these
+        # are given new ones
+        if not self.element.torn_element():
+            for cell in self.mesh.cells.traverse(mode='breadth-first'):
+                cell_dofs = self.get_cell_dofs(cell)
+                if cell_dofs is not None and None not in cell_dofs:
+                    self.share_dofs_with_neighbors(cell)
+
         dim = self.element.dim()
         if dim==1:
             for interval in self.mesh.cells.traverse(mode='breadth-first',
-- 
2.43.0


From 3b07152ca83f8c43964e502b916f6f49858edaae Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 34/89] fix: dofs of a periodic mesh with a single interval

---
 src/fem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 5b6f857..44b5762 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1416,7 +1416,7 @@ class DofHandler(object):
             own_neighbor = False
             if dim==1:
                 for vertex in cell.get_vertices():
-                    nb = cell.get_neighbor(vertex)
+                    nb = cell.get_neighbor(vertex, mode='level-wise')
                     if nb == cell:
                         own_neighbor = True
                         break
@@ -1466,6 +1466,7 @@ class DofHandler(object):
 
                     # Assign new dofs to interval
                     self.assign_dofs(dofs, cell, cell)
+                    dofs = []
 
             elif dim==2:
                 #
-- 
2.43.0


From d9835fc6eb61305a8cb8098a7df9e2bdb96e47ae Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 35/89] fix: interior dofs of a cell that is its own neighbor

---
 src/fem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 44b5762..2f6b8da 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1508,9 +1508,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
-                    for dof in dofs:
-                        if dof in cell_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
 
             # Subtract unused dofs from total dof count
             count -= len(dofs)
-- 
2.43.0


From 9b6014268a27534183e27af00c7c22521a163c93 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 36/89] fix: constant form over a cell without regions has one
 row

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 48c9c85..96982d5 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1366,7 +1366,7 @@ class Form(object):
                     #
                     # Sampled form
                     #
-                    f_loc = np.zeros(n_samples)
+                    f_loc = np.zeros((1,n_samples))
             elif self.type=='linear':
                 #
                 # Linear form
-- 
2.43.0


From fccb3fb9e86b682df9d2556217925b41d2adbc8e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 37/89] fix: deterministic linear and constant forms in sampled
 problems

---
 src/assembler.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 96982d5..faf8afd 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4053,6 +4053,11 @@ class AssembledForm(object):
         n_samples = self.n_samples()
         dim = self.dim()
         data = self.__cellwise_data
+        if n_samples > 1 and vals.shape[-1]==1:
+            #
+            # Single sample: Copy it
+            #
+            vals = np.repeat(vals, n_samples, axis=-1)
         if cell not in data:
             #
             # Initialize cellwise data
@@ -4077,13 +4082,6 @@ class AssembledForm(object):
             #if vals.shape[1]==1:
             #    print(vals)
             
-            if n_samples > 1:
-                if vals.shape[-1]==1:
-                    #
-                    # Single sample: Copy it 
-                    # 
-                    vals = np.tile(vals, (1,n_samples))
-                
             vals = vals.reshape((n_entries,n_samples), order='F')
             
             """
-- 
2.43.0


From 13d021c67abf59ae953fdbfb9ffcb14fee1a9ab7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 38/89] fix: assembled dofs are sorted

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index faf8afd..0bed0ec 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4348,7 +4348,7 @@ class AssembledForm(object):
             #
             # Get unique dofs from data
             #
-            udofs.append(list(set(dofs[i])))
+            udofs.append(sorted(set(dofs[i])))
 
             #
             # Number of index vectors
-- 
2.43.0


From cb9691df026aa3f126661622653d903c95445354 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 39/89] fix: shape functions on a submesh coarser than the
 assembly mesh

---
 src/assembler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 0bed0ec..293df8f 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3527,8 +3527,14 @@ class Assembler(object):
                     jac_p2r = mg['jac_p2r'] if D[0] in [1,2] else None
                     hess_p2r = mg['hess_p2r'] if D[0]==2 else None
 
-                    p = element.shape(x_ref=x_ref, derivatives=D, cell=cell,
-                                      jac_p2r=jac_p2r, hess_p2r=hess_p2r)
+                    if cell.nearest_ancestor(basis.subforest_flag()) != cell:
+                        #
+                        # Basis function is defined on a coarser cell
+                        #
+                        p = basis.eval(xg[region], cell, location='physical')
+                    else:
+                        p = element.shape(x_ref=x_ref, derivatives=D, cell=cell,
+                                          jac_p2r=jac_p2r, hess_p2r=hess_p2r)
                     phi[region][basis] = p
 
         # Return mapped quadrature nodes, weights, and shape functions
-- 
2.43.0


From 41797b4ba73a53c2935a73364bcac1ac3be38bfe Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 40/89] fix: vertex integrals without shape functions

---
 src/assembler.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 293df8f..ae6958a 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3490,21 +3490,22 @@ class Assembler(object):
                 #
                 xg[region], wg[region] = convert_to_array(region.coordinates()), 1
 
-                #
-                # Determine reference vertex corresponding to Vertex region
-                #
-                basis = list(shape_info[region])[0]
-                ref_cell = basis.dofhandler().element.reference_cell()
+                if len(shape_info[region])>0:
+                    #
+                    # Determine reference vertex corresponding to Vertex region
+                    #
+                    basis = list(shape_info[region])[0]
+                    ref_cell = basis.dofhandler().element.reference_cell()
 
-                # Determine equivalent Vertex on reference element
-                i_v = cell.get_vertices().index(region)
-                v = ref_cell.get_vertex(i_v)
-                x_ref = convert_to_array(v, dim=v.dim())
+                    # Determine equivalent Vertex on reference element
+                    i_v = cell.get_vertices().index(region)
+                    v = ref_cell.get_vertex(i_v)
+                    x_ref = convert_to_array(v, dim=v.dim())
 
-                # Map to physical
-                xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
-                                                    jac_p2r=jac_p2r,
-                                                    hess_p2r=hess_p2r)
+                    # Map to physical
+                    xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
+                                                        jac_p2r=jac_p2r,
+                                                        hess_p2r=hess_p2r)
                 wg[region] = 1
             else:
                 raise Exception('Only Intervals, HalfEdges, Vertices & '+\
-- 
2.43.0


From 8054057adde9d65f0b99f75af17f82dd27bc0663 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 41/89] fix: derivatives requested in a Kernel of nodal
 functions

---
 src/assembler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index ae6958a..d2b2f93 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -956,6 +956,12 @@ class Kernel(object):
             if isinstance(f, Nodal):
                 phi_f = phi if phi is None else phi[f.basis()]
                 dof_f = None if dofs is None else dofs[f.basis()]
+                if dfdx is not None and parse_derivative_info(dfdx) != \
+                    parse_derivative_info(f.basis().derivative()):
+                    #
+                    # The shape functions in phi are not the requested ones
+                    #
+                    phi_f = None
                 if dof_f is None or phi_f is None:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell)
                 else:
-- 
2.43.0


From b824fe2d18cd0611fec0670e53785a1a9470d908 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 42/89] fix: shape functions at points mapped to the boundary
 of the reference cell up to roundoff

---
 src/fem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 2f6b8da..8b0e618 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -523,8 +523,10 @@ class QuadFE(Element):
         #
         # Points should lie in the reference domain
         #
-        assert all(x_ref.ravel() >= 0), 'All entries should be nonnegative.'
-        assert all(x_ref.ravel() <= 1), 'All entries should be at most 1.'
+        # Allow for the roundoff error in points mapped from a physical cell
+        tol = 1e-8
+        assert all(x_ref.ravel() >= -tol), 'All entries should be nonnegative.'
+        assert all(x_ref.ravel() <= 1+tol), 'All entries should be at most 1.'
 
         if cell is not None:
             #
-- 
2.43.0


From ee9903e7926937088f8fc0006769ea026eea7b29 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 43/89] fix: Dirichlet conditions on marked half-edges of a 2D
 mesh

---
 src/assembler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index d2b2f93..70c0646 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3609,12 +3609,14 @@ class Assembler(object):
             #
             # Two dimensional mesh
             #
-            dir_dofs = dh.get_region_dofs(entity_type='vertex',
-                                          entity_flag=dir_marker,
-                                          interior=False,
-                                          on_boundary=on_bnd, \
-                                          subforest_flag=sf)
-            #print('The Dirichlet Dofs are', dir_dofs)
+            dir_dofs = set()
+            for entity_type in ['half_edge', 'vertex']:
+                dir_dofs.update(dh.get_region_dofs(entity_type=entity_type,
+                                                   entity_flag=dir_marker,
+                                                   interior=False,
+                                                   on_boundary=on_bnd,
+                                                   subforest_flag=sf))
+            dir_dofs = sorted(dir_dofs)
         # Number of dirichlet dofs
         n_dirichlet = len(dir_dofs)
 
-- 
2.43.0


From 0f432d7703f7fbd672bb5d573ba6e20776b23168 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 44/89] fix: Dirichlet conditions given by a nodal function
 with the dofs of the problem

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 70c0646..dce1529 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3633,7 +3633,7 @@ class Assembler(object):
             #
             # Nodal function whose dofs coincide with problem dofs
             #
-            idx = dir_fn.dof2idx(dir_dofs)
+            idx = dir_fn.basis().d2i(dir_dofs)
             dir_vals = dir_fn.data()[idx,:]
         else:
             #
-- 
2.43.0


From 18e7f100ffbbe9220a53cce67f0748066ab2126a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 45/89] fix: solving assembled problems without Dirichlet
 conditions

---
 src/assembler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index dce1529..58155d2 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3780,8 +3780,8 @@ class Assembler(object):
         #
         # Resolve Dirichlet conditions
         #
-        dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        u[dir_dofs] = dir_vals[:,0]
+        for dof, vals in self.get_dirichlet(i_problem=i_problem).items():
+            u[dof] = vals[0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
@@ -4434,6 +4434,8 @@ class AssembledForm(object):
                 # Form
                 if len(x0_dofs)>0:
                     x0.append(np.bincount(x0_dofs, x0_vals[:,i],n_rows))
+                else:
+                    x0.append(np.zeros(n_rows))
 
             # Store result
             self.__aggregate_data['array'] = A
-- 
2.43.0


From 4f26b15d20f90a08f99a3da48928984016cbf75d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 46/89] fix: solution of problems whose dofs are not numbered
 consecutively

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 58155d2..d3787c1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3775,13 +3775,13 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[int_dofs] = spla.spsolve(A,b-x0)
+        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
 
         #
         # Resolve Dirichlet conditions
         #
         for dof, vals in self.get_dirichlet(i_problem=i_problem).items():
-            u[dof] = vals[0]
+            u[phi_lin.d2i(dof)] = vals[0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From fe1ba956f13820a999ad3f5a363eb5d87560f7eb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 47/89] fix: solution with sampled Dirichlet conditions

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index d3787c1..2af2cd6 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3781,7 +3781,7 @@ class Assembler(object):
         # Resolve Dirichlet conditions
         #
         for dof, vals in self.get_dirichlet(i_problem=i_problem).items():
-            u[phi_lin.d2i(dof)] = vals[0]
+            u[phi_lin.d2i(dof)] = vals[i_matrix] if len(vals)>1 else vals[0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From 66511354dc6da4f68e1fc91e946a7fca418e0016 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 48/89] fix: hanging nodes belong to the submesh of the trial
 functions

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 2af2cd6..c287968 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3682,7 +3682,7 @@ class Assembler(object):
 
         # Set hanging nodes
         self.__hanging_nodes[i_problem] \
-            = phi.dofhandler().get_hanging_nodes(subforest_flag=self.subforest_flag())
+            = phi.dofhandler().get_hanging_nodes(subforest_flag=phi.subforest_flag())
 
 
     def get_hanging_nodes(self, i_problem=0):
-- 
2.43.0


From b5064919862a3b158e3a4f34221f14b15569b80c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 49/89] fix: problems all of whose dofs are prescribed

---
 src/assembler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index c287968..776b805 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3775,7 +3775,8 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
+        if len(int_dofs)>0:
+            u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
 
         #
         # Resolve Dirichlet conditions
@@ -4373,16 +4374,17 @@ class AssembledForm(object):
             #
             # Dof-to-index mapping for interior dofs
             #
-            dof2idx.append(np.zeros(udofs[i][-1]+1, dtype=int))
+            n_map = udofs[i][-1]+1 if n_idx[i]>0 else 0
+            dof2idx.append(np.zeros(n_map, dtype=int))
             dof2idx[i][udofs[i]] = np.arange(n_idx[i])
 
         #
         # Store values in (n, n_samples) array
         #
+        n_samples = self.n_samples()
         vals = self.__aggregate_data['vals']
-        vals = np.array(vals)
+        vals = np.array(vals, dtype=float).reshape(-1, n_samples)
 
-        n_samples = self.n_samples()
         if dim == 0:
             #
             # Constant (scalar)
-- 
2.43.0


From 720c6244e46ce468a9ae712e05cb06d70b7b5609 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 50/89] fix: a constrained system matrix is reported as
 constrained

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index ab0fd98..53dfe50 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -542,7 +542,7 @@ class LinearSystem(object):
         """
         Determine whether the system matrix has been constrained
         """
-        self.__A_is_constrained
+        return self.__A_is_constrained
         
         
     def invert_matrix(self, b=None, factor=False):
-- 
2.43.0


From 2aed8bedc9b536f1b6d2831f01eb721a464ff2c9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 51/89] fix: equation numbers of unsorted dofs

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 53dfe50..8f9a296 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -93,7 +93,7 @@ class LinearSystem(object):
         # Form Dof-to-Equation Mapping
         # 
         n_dofs = len(dofs)
-        dof2eqn = np.zeros(dofs[-1]+1, dtype=int)
+        dof2eqn = np.zeros(np.max(dofs)+1, dtype=int)
         dof2eqn[dofs] = np.arange(n_dofs, dtype=int)
         
         #
-- 
2.43.0


From d3c502a6a024c4b54c050f5d58041ea59a5a6e17 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 52/89] fix: prescribed values belong to equations, not dofs

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 8f9a296..f4b8fe4 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -342,7 +342,7 @@ class LinearSystem(object):
         # Define constraint vector
         # 
         d = np.zeros(n_dofs)
-        d[c_dofs] = np.array(constraints['affine_terms'])
+        d[self.dof2eqn(c_dofs)] = np.array(constraints['affine_terms'])
         
         # Store constraint vector
         self.__d = d
-- 
2.43.0


From 89cabce99b9e8ddc26e7495a4900c9b620014029 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 53/89] fix: right hand side at several constrained dofs

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index f4b8fe4..270e5c9 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -743,7 +743,7 @@ class LinearSystem(object):
             # Set b=0 at the constraints
             # 
             zc = np.ones(n_dofs)
-            zc[c_dofs] = 0
+            zc[k] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From 12f3c7dcdfbb6e2b996285f3e0d90ca96ebd43f3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 54/89] fix: constraints belong to the linear system, not the
 dofhandler

---
 src/solver.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 270e5c9..94ba06f 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -105,7 +105,18 @@ class LinearSystem(object):
         # Determine Hanging nodes 
         # 
         subforest_flag = self.get_basis().subforest_flag()
-        self.get_dofhandler().set_hanging_nodes(subforest_flag=subforest_flag)
+        dh = self.get_dofhandler()
+        dh.set_hanging_nodes(subforest_flag=subforest_flag)
+        hanging_nodes = dh.get_hanging_nodes(subforest_flag=subforest_flag)
+        
+        #
+        # Constraints of this system
+        #
+        self.__constraints = \
+            {'constrained_dofs': list(hanging_nodes.keys()),
+             'supporting_dofs': [hn[0] for hn in hanging_nodes.values()],
+             'coefficients': [hn[1] for hn in hanging_nodes.values()],
+             'affine_terms': [0 for hn in hanging_nodes]}
         
         # 
         # Store Bilinear Form
@@ -284,7 +295,7 @@ class LinearSystem(object):
             x_dir = convert_to_array(dirichlet_vertices)
             dirichlet_vals = dirichlet_function.eval(x_dir).ravel()
             
-        constraints = dh.constraints
+        constraints = self.__constraints
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
             constraints['constrained_dofs'].append(dof)
             constraints['supporting_dofs'].append([])
@@ -307,7 +318,7 @@ class LinearSystem(object):
         #    
         # Define constraint matrix
         #
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = np.array(constraints['constrained_dofs'], dtype=int)
         c_rows = []
         c_cols = []
@@ -417,7 +428,7 @@ class LinearSystem(object):
         #
         self.column_records = []
         
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         
         #
@@ -715,7 +726,7 @@ class LinearSystem(object):
         b = self.get_rhs()
         n_dofs = len(self.get_dofs())
             
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         C = self.get_C()
         d = self.get_d()
-- 
2.43.0


From b9786c73734ed6061383e1ffcbf5b3f04d58a8c8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 55/89] fix: factorised solves of nonsymmetric systems

---
 src/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 94ba06f..8742aa6 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -623,7 +623,9 @@ class LinearSystem(object):
         assert A is not None, 'No system matrix to factor.'
         A = A.tocsc()
 
-        if cholmod_cholesky is not None:
+        # CHOLMOD reads one triangle only: it needs a symmetric matrix
+        symmetric = abs(A - A.T).max() <= 1e-12*abs(A).max()
+        if cholmod_cholesky is not None and symmetric:
             factor = cholmod_cholesky(A)
 
             # Wrapper to present a uniform `.solve(B)` interface across
-- 
2.43.0


From f27656c402ec78f9dd5d1054877f21155add10e3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 56/89] fix: scaling of the system matrix when conditions
 overlap

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 8742aa6..173b68a 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -512,7 +512,7 @@ class LinearSystem(object):
         # 
         a_diag = A.diagonal()
         ave_vec = np.ones(n_dofs)
-        n_cdofs = len(c_dofs)
+        n_cdofs = len(set(c_dofs))
         if n_dofs > n_cdofs:
             #
             # If there are unconstrained dofs, use average diagonal to scale 
-- 
2.43.0


From b02199be7ac3bf8e900f43bdb731ae8f253c9eb6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 57/89] fix: modified Cholesky decomposition with pivoting

---
 src/spd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index afbd2a8..0cab423 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -459,7 +459,8 @@ class CholeskyDecomposition(SPDMatrix):
                 DMC[k:k+2,k:k+2] = (temp + temp.T)/2  # Ensure symmetric.
                 k += 2
         P = np.eye(n)
-        P = P[:,p]
+        P = P[p,:]
+        L = L[p,:]
         
         #P = sp.diags([1],0,shape=(n,n), format='coo') 
         #P.row = P.row[p]
@@ -620,7 +621,7 @@ class CholeskyDecomposition(SPDMatrix):
             # Use Modified Cholesky
             # 
             L, D, P, dummy = self.get_factors()
-            PL = P.dot(L)
+            PL = L
             y = linalg.solve_triangular(PL,P.dot(b),lower=True, unit_diagonal=True)
             Dinv = sp.diags(1./np.diagonal(D))
             z = Dinv.dot(y)
-- 
2.43.0


From f75f56557db9852df10e6c22cc24ca363e7a34f8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 58/89] fix: square root solve with the modified Cholesky
 decomposition

---
 src/spd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index 0cab423..f3d896a 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -772,7 +772,7 @@ class CholeskyDecomposition(SPDMatrix):
                 #
                 # Solve Wx = b
                 # 
-                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b)) 
+                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b),lower=True) 
                 #return P.T.dot(linalg.solve_triangular(L,sqrtD.dot(b),lower=True))
         
         """
-- 
2.43.0


From 166b1e17fb13d78d622dcd175fb49c4ac1ac2530 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 59/89] fix: default eigenvalue bound of sparse matrices

---
 src/spd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spd.py b/src/spd.py
index f3d896a..62f86a2 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -897,6 +897,8 @@ class EigenDecomposition(SPDMatrix):
             # Default lower bound
             # 
             C = self.get_matrix()
+            if self.is_sparse():
+                C = C.toarray()
             eps = np.finfo(float).eps
             delta = np.sqrt(eps)*linalg.norm(C, 'fro')
 
-- 
2.43.0


From d910f0d6d1d43a810e8ab2eb4a7056b00dbe5b54 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 60/89] fix: generalised eigendecomposition with a sparse mass
 matrix

---
 src/spd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spd.py b/src/spd.py
index 62f86a2..1a4b936 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -932,6 +932,8 @@ class EigenDecomposition(SPDMatrix):
             # 
             is_generalized = True
             M = self.get_mass_matrix()
+            if sp.issparse(M):
+                M = M.toarray()
         else:
             #
             # Standard eigendecomposition
-- 
2.43.0


From 1c9b1437fb9295ec14a23dc5c1c918d440589ab9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 61/89] fix: points given as a list of numbers

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index c4e32c5..9caaa15 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -59,7 +59,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
             # All points are tuples
             #
             x = np.array(x)
-        elif all(type(xi) is numbers.Real for xi in x):
+        elif all(isinstance(xi, numbers.Real) for xi in x):
             #
             # List of real numbers -> turn into (n,1) array
             #
-- 
2.43.0


From aa244bd7973fb61400196e29405dfe5c160826b5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 62/89] fix: nodal functions evaluated with shape functions and
 a cell

---
 src/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index cc847c9..dc49999 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1869,7 +1869,8 @@ class Nodal(Map):
                 #
                 # Get local dofs if not specified
                 #
-                dofs = [b.dofs(cell) for b in phi] 
+                cells = list(cell) if type(cell) is tuple else [cell]*n_variables
+                dofs = [self.basis().dofs(c) for c in cells]
             
             
             if type(dofs) is tuple:
-- 
2.43.0


From 8a5472df33d60d84f7adb8ab753c9d36829cd783 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 63/89] fix: replacing a rule at a given position

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index dc49999..074bcb1 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1446,7 +1446,7 @@ class Explicit(Map):
             assert callable(f), 'Input "f" should be callable.'
             assert type(parameters) is dict, \
             'Input "parameters" should be a dict.'
-            assert self.n_sample()>pos, \
+            assert self.n_samples()>pos, \
             'Input "pos" incompatible with sample size.'
             self.__f[pos] = f
             self.__parameters[pos] = parameters
-- 
2.43.0


From 25093c6ec8a33663a02dad6709ebb1c8324b6961 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 64/89] fix: bivariate nodal data determined by a rule

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 074bcb1..865e6e1 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1695,7 +1695,7 @@ class Nodal(Map):
                 #
                 # Bivariate function
                 # 
-                cols, rows = np.mgrid[0:n_dofs,0:n_dofs]
+                rows, cols = np.mgrid[0:n_dofs,0:n_dofs]
                 x1,x2 = x[rows.ravel(),:], x[cols.ravel(),:]
                 
                 n_samples = fn.n_samples()                
-- 
2.43.0


From d65e109cd97296d3999d993787fcb225c949885f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 65/89] fix: rules and parameters passed as lists belong to the
 caller

---
 src/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.py b/src/function.py
index 865e6e1..7e8205f 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1507,8 +1507,8 @@ class Explicit(Map):
             # 
             # Store functions
             #
-            self.__f = f
-            self.__parameters = parameters
+            self.__f = list(f)
+            self.__parameters = list(parameters)
                             
             
     def add_rule(self, f, parameters={}):
-- 
2.43.0


From 871192ea486e563ed3fe6b795feadc7eaf6921d8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 66/89] fix: nodal values passed as an array belong to the
 caller

---
 src/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/function.py b/src/function.py
index 7e8205f..c0eb0d9 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1665,6 +1665,9 @@ class Nodal(Map):
             n_dofs = self.basis().n_dofs()
             assert data.shape[0]==n_dofs, \
             'Shape of input "data" inconsistent with dofhandler.'
+            # Keep a copy that can be modified 
+            data = np.array(data, dtype=np.result_type(data, float))
+            
             if len(data.shape)<2:
                 # Data passed as a 1D array, convert to matrix 
                 data = data[:,None]
-- 
2.43.0


From a5efd0d185e0a6b5b812430f5e3664a497eb48ae Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 67/89] fix: nodal values modified at all dofs

---
 src/function.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index c0eb0d9..49ea7bf 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1740,7 +1740,11 @@ class Nodal(Map):
             # Turn into 1d array
             data = data.ravel()
             
-        idx = self.basis().d2i(dofs)
+        if dofs is None:
+            # Modify all nodal values
+            idx = np.arange(self.basis().n_dofs())
+        else:
+            idx = self.basis().d2i(dofs)
         self.__data[idx,i_sample] = data
 
 
-- 
2.43.0


From e8ae395270ca1fcd27ebefc5d876fd358201d6b1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 68/89] fix: derivatives of nodal functions are discontinuous
 and live on the submesh

---
 src/function.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/function.py b/src/function.py
index 49ea7bf..6b4bbbf 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2362,21 +2362,21 @@ class Nodal(Map):
         # 
         dofhandler = DofHandler(mesh, element)
         dofhandler.distribute_dofs()
-        basis = Basis(dofhandler)
+        df_basis = Basis(dofhandler, subforest_flag=sf)
         
         #
-        # Determine dof vertices
-        #
-        dofs = dofhandler.get_region_dofs(subforest_flag=sf)
-        x = dofhandler.get_dof_vertices(dofs)       
+        # Evaluate the derivative cell by cell (it may be discontinuous)
         #
-        # Evaluate function at dof vertices
-        #
-        fv = self.eval(x, derivative=derivative)
+        f_basis = Basis(basis.dofhandler(), derivative, subforest_flag=sf)
+        fv = np.zeros((df_basis.n_dofs(), self.n_samples()))
+        for cell in mesh.cells.get_leaves(subforest_flag=sf):
+            phi = f_basis.eval(element.reference_nodes(), cell)
+            idx = df_basis.d2i(df_basis.dofs(cell))
+            fv[idx,:] = self.eval(phi=phi, dofs=[f_basis.dofs(cell)])
         #
         # Define new function
         #
-        return Nodal(data=fv, basis=basis, subforest_flag=sf) 
+        return Nodal(data=fv, basis=df_basis) 
     
     
 class Constant(Map):
-- 
2.43.0


From 8bbd5554a7c0d6abe08ba97ea9ded48e0335258c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 69/89] fix: interpolation of discontinuous functions

---
 src/function.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/function.py b/src/function.py
index 6b4bbbf..6338423 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2303,6 +2303,35 @@ class Nodal(Map):
                     f_vec[in_cell,:] = np.dot(phi, f_loc)
                 """
 
+    def interpolant(self, dofhandler, subforest_flag=None):
+        """
+        Return the interpolant of the function on a (new) dofhandler (see 
+        Map.interpolant). 
+        
+        Note: The values at the dofs of discontinuous elements are those within
+            the dofs' cells. 
+        """
+        fn = Map.interpolant(self, dofhandler, subforest_flag)
+        mesh, element = dofhandler.mesh, dofhandler.element
+        if not element.torn_element() or mesh is not self.mesh():
+            return fn
+        
+        sf = self.subforest_flag()
+        f_basis = Basis(self.basis().dofhandler(), subforest_flag=sf)
+        for cell in mesh.cells.get_leaves(subforest_flag=subforest_flag):
+            #
+            # Cell on which the function is smooth
+            # 
+            f_cell = cell.nearest_ancestor(sf)
+            if f_cell is None or f_cell.has_children(flag=sf):
+                continue
+            x = cell.reference_map(element.reference_nodes())
+            phi = f_basis.eval(x, f_cell, location='physical')
+            idx = fn.basis().d2i(fn.basis().dofs(cell))
+            fn.__data[idx,:] = self.eval(phi=phi, dofs=[f_basis.dofs(f_cell)])
+        return fn
+    
+    
     def project(self, basis):
         """
         Project the current Nodal function onto a given basis set
-- 
2.43.0


From 3a269bb7e87c57d47bc93965a0687691c644c193 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 70/89] fix: samples of Gaussian fields with canonical
 parameters

---
 src/gmrf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0461cde..bef9ce2 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1363,10 +1363,11 @@ class GaussianField(object):
             #
 
             # Compute the mean from the canonical mean
-            mean = self.get_mean()
-            if mean is None:
-                self.compute_mean()
-                mean = self.get_mean()
+            b = self.get_canonical_mean()
+            if b is None:
+                mean = self.mean(m_col)
+            else:
+                mean = C.solve(b)
             Lz = C.sqrt_solve(z,transpose=True)
             return Lz + np.tile(mean,(1,n_samples))
 
-- 
2.43.0


From c2b8c7b891c1064308e6fedf3fc5709eacfda5af Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 71/89] fix: samples of Gaussian fields with several means

---
 src/gmrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index bef9ce2..36064f9 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1348,14 +1348,14 @@ class GaussianField(object):
             # Return Lz + mean
             #
             Lz = C.sqrt_dot(z,transpose=False)
-            return  Lz + np.tile(self.get_mean(),(1,n_samples))
+            return  Lz + np.tile(self.mean(m_col),(1,n_samples))
     
         elif mode=='precision':
             #
             # Return L^{-T} z + mean
             #
             Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(self.get_mean(),(1,n_samples))
+            return Lz + np.tile(self.mean(m_col),(1,n_samples))
                                    
         elif mode=='canonical':
             #
-- 
2.43.0


From 2abb85dc60104ddcd06fd6403efde14b520f8fa0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 72/89] fix: Karhunen-Loeve samples with given noise

---
 src/gmrf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 36064f9..5538cf5 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1215,13 +1215,14 @@ class GaussianField(object):
         
         # Sample 
         if z is None:
-            z = np.random.normal(size=(self.size(), n_samples))
+            z = np.random.normal(size=(i_max-i_min+1, n_samples))
         else:
             assert z.shape[0] == i_max-i_min+1, \
                 'Input "z" should have the same number of rows as the random vector.'
+            n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z[i_min:i_max+1,:])) + np.tile(mean,(1,n_samples))
+        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
     
 
 
-- 
2.43.0


From ffebf2b370d0b852150eb4c5550517bd1a654059 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 73/89] fix: Gaussian fields reduced to their support

---
 src/gmrf.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 5538cf5..693f590 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1060,9 +1060,9 @@ class GaussianField(object):
         
         # Update precision/covariance matrix
         if mode=='covariance':
-            self.__covariance = SPDMatrix(D)
+            self.__covariance = EigenDecomposition(D.toarray(), delta=0)
         elif mode=='precision':
-            self.__precision = SPDMatrix(D)
+            self.__precision = EigenDecomposition(D.toarray(), delta=0)
         
         # Define new set of support vectors
         W = self.support()
@@ -1091,6 +1091,16 @@ class GaussianField(object):
             return b - Pb 
         
         
+    def embed(self, x):
+        """
+        Map coordinates with respect to the support to the full space
+        """
+        V = self.support()
+        if V is not None and x.shape[0]==V.shape[1]:
+            return V.dot(x)
+        return x
+
+
     def size(self):
         """
         Returns the size of the random vector
@@ -1207,10 +1217,10 @@ class GaussianField(object):
 
         # Determine eigenvalue range
         if i_max is None:
-            i_max = self.size()-1
+            i_max = C.get_size()-1
         assert i_max >= i_min, 'Index range should be non-empty.'
         
-        assert i_min >= 0 and i_max < self.size(), \
+        assert i_min >= 0 and i_max < C.get_size(), \
             'Indices should be within the range of the covariance matrix.'
         
         # Sample 
@@ -1222,7 +1232,7 @@ class GaussianField(object):
             n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
+        return self.embed(V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z))) + np.tile(mean,(1,n_samples))
     
 
 
@@ -1348,14 +1358,14 @@ class GaussianField(object):
             #
             # Return Lz + mean
             #
-            Lz = C.sqrt_dot(z,transpose=False)
+            Lz = self.embed(C.sqrt_dot(z,transpose=False))
             return  Lz + np.tile(self.mean(m_col),(1,n_samples))
     
         elif mode=='precision':
             #
             # Return L^{-T} z + mean
             #
-            Lz = C.sqrt_solve(z,transpose=True)
+            Lz = self.embed(C.sqrt_solve(z,transpose=True))
             return Lz + np.tile(self.mean(m_col),(1,n_samples))
                                    
         elif mode=='canonical':
-- 
2.43.0


From 6d81dd07d1ebeb7a7ae1cc2c5a14109389d9a5a8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 74/89] fix: Gaussian fields conditioned on equations

---
 src/gmrf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 693f590..448133d 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1516,13 +1516,17 @@ class GaussianField(object):
                 
                 # Conditional covariance
                 U = linalg.solve(AKAT, KAT.T)
-                K_cnd = K.get_matrix() - KAT.dot(U)
+                if mode=='covariance':
+                    K_mat = K.dot(np.identity(Vk.shape[1]))
+                else:
+                    K_mat = Q.solve(np.identity(Vk.shape[1]))
+                K_cnd = K_mat - KAT.dot(U)
                 K_cnd = Vk.dot(K_cnd.dot(Vk.T))
+                K_cnd = 0.5*(K_cnd + K_cnd.T)
                 
-                print('K_cnd', K_cnd.shape)
-                print('K_cnd', K_cnd[0:10,0:10])
-                # Define random field 
-                X = GaussianField(self.size(), mean=mu_cnd, covariance=K_cnd)
+                # Define random field (the conditional covariance is singular)
+                X = GaussianField(self.size(), mean=mu_cnd, 
+                                  covariance=EigenDecomposition(K_cnd, delta=0))
                 X.update_support()
                 
                 return X
-- 
2.43.0


From fe31c6b9fc9c0c8d62b60c9c44eccd7e49d953d4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 75/89] fix: nodal functions on periodic meshes one cell wide,
 where a cell uses a number twice

---
 src/function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 6338423..87ade80 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2079,7 +2079,9 @@ class Nodal(Map):
                 Phi.append(np.zeros((n_points, n_basis)))
                 for phi, i_pt, dof in zip(phis[i], pidx[i], dofs[i]):
                     i_col = [udofs[i].index(d) for d in dof]
-                    Phi[i][np.ix_(i_pt, i_col)] = phi
+                    for k, j in enumerate(i_col):
+                        # Cells on periodic meshes can use the same dof twice
+                        Phi[i][i_pt, j] += phi[:,k]
             
                 assert Phi[i].shape[1]==n_basis
             #
-- 
2.43.0


From ff4df2288c04d8324e8688a05786804dd394c9cd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 76/89] fix: interpolated integral forms on submeshes

---
 src/assembler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 776b805..0b58b71 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1537,8 +1537,8 @@ class IIForm(Form):
         # Interpolate in the test function component
         # =====================================================================
         test = self.test
-        x = test.dofhandler().get_dof_vertices(test.subforest_flag())
-        n = x.shape[0]
+        x_tst = test.dofhandler().get_dof_vertices(test.dofs(None))
+        n = x_tst.shape[0]
 
         # =====================================================================
         # Specify trial function
@@ -1569,7 +1569,7 @@ class IIForm(Form):
                 #
                 n_gauss = x_g.shape[0]
                 ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
-                x = (x[ii.ravel(),:],x_g[jj.ravel(),:])
+                x = (x_tst[ii.ravel(),:],x_g[jj.ravel(),:])
                 """
                 if self.dim == 1:
                     x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
-- 
2.43.0


From 8548a8a7dc0c512064b2debd5981d3912205fab6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 77/89] fix: integral forms on cells with no region or several
 regions

---
 src/assembler.py | 67 +++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 0b58b71..7f556eb 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1548,7 +1548,8 @@ class IIForm(Form):
         # Number of dofs
         n_dofs = trial.dofhandler().element.n_dofs()
 
-        f_loc = None
+        # Initialize local matrix (zero on cells without regions)
+        f_loc = np.zeros((n,n_dofs))
         for reg in self.regions(cell):
             # Get trial functions evaluated at Gauss nodes
             phi_g = phi[reg][trial]
@@ -1556,39 +1557,30 @@ class IIForm(Form):
             w_g = wg[reg]
 
             #
-            # Initialize local matrix if necessary
+            # Evaluate covariance function at the local Gauss points
             #
-            if f_loc is None:
-                #
-                # Initialize form
-                #
-                f_loc = np.zeros((n,n_dofs))
-
-                #
-                # Evaluate covariance function at the local Gauss points
-                #
-                n_gauss = x_g.shape[0]
-                ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
-                x = (x_tst[ii.ravel(),:],x_g[jj.ravel(),:])
-                """
-                if self.dim == 1:
-                    x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
-                elif self.dim == 2:
+            n_gauss = x_g.shape[0]
+            ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
+            x = (x_tst[ii.ravel(),:],x_g[jj.ravel(),:])
+            """
+            if self.dim == 1:
+                x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
+            elif self.dim == 2:
 
-                """
+            """
 
-                C_loc = self.kernel.eval(x, region=reg, cell=cell,
-                                         phi=phi[reg], dofs=dofs[reg])
-                C_loc = C_loc.reshape(n,n_gauss)
+            C_loc = self.kernel.eval(x, region=reg, cell=cell,
+                                     phi=phi[reg], dofs=dofs[reg])
+            C_loc = C_loc.reshape(n,n_gauss)
 
-                #
-                # Compute local integral
-                #
-                # Weight shape functions
-                Wphi = np.diag(w_g).dot(phi_g)
+            #
+            # Compute local integral
+            #
+            # Weight shape functions
+            Wphi = np.diag(w_g).dot(phi_g)
 
-                # Combine
-                f_loc += C_loc.dot(Wphi)
+            # Combine
+            f_loc += C_loc.dot(Wphi)
         return f_loc
 
 
@@ -1680,7 +1672,11 @@ class IPForm(Form):
         # Sample size
         n_samples = self.kernel.n_samples()
 
-        f_loc = None
+        # Initialize local matrix (zero on cells without regions)
+        if n_samples==1:
+            f_loc = np.zeros((n_dofsi,n_dofsj))
+        else:
+            f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
         for regi in self.regions(ci):
             for regj in self.regions(cj):
                 # Access test(i) and trial(j) functions
@@ -1699,17 +1695,6 @@ class IPForm(Form):
                 dofi = dofs[0][regi]
                 dofj = dofs[1][regj]
 
-                #
-                # Initialize local matrix if necessary
-                #
-                if f_loc is None:
-                    #
-                    # Initialize form
-                    #
-                    if n_samples==1:
-                        f_loc = np.zeros((n_dofsi,n_dofsj))
-                    else:
-                        f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
                 #
                 # Evaluate kernel function at the local Gauss points
                 #
-- 
2.43.0


From bebb72f8f04574e60e6e33fbf9ded9f5cfd3c9e3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 78/89] fix: integral forms with sampled kernels

---
 src/assembler.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 7f556eb..cecafe1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1548,8 +1548,14 @@ class IIForm(Form):
         # Number of dofs
         n_dofs = trial.dofhandler().element.n_dofs()
 
+        # Sample size
+        n_samples = self.kernel.n_samples()
+
         # Initialize local matrix (zero on cells without regions)
-        f_loc = np.zeros((n,n_dofs))
+        if n_samples==1:
+            f_loc = np.zeros((n,n_dofs))
+        else:
+            f_loc = np.zeros((n,n_dofs,n_samples))
         for reg in self.regions(cell):
             # Get trial functions evaluated at Gauss nodes
             phi_g = phi[reg][trial]
@@ -1571,8 +1577,6 @@ class IIForm(Form):
 
             C_loc = self.kernel.eval(x, region=reg, cell=cell,
                                      phi=phi[reg], dofs=dofs[reg])
-            C_loc = C_loc.reshape(n,n_gauss)
-
             #
             # Compute local integral
             #
@@ -1580,7 +1584,11 @@ class IIForm(Form):
             Wphi = np.diag(w_g).dot(phi_g)
 
             # Combine
-            f_loc += C_loc.dot(Wphi)
+            if n_samples==1:
+                f_loc += C_loc.reshape(n,n_gauss).dot(Wphi)
+            else:
+                C_loc = C_loc.reshape(n,n_gauss,n_samples)
+                f_loc += np.einsum('igs,gj->ijs', C_loc, Wphi)
         return f_loc
 
 
@@ -1713,7 +1721,6 @@ class IPForm(Form):
                 C_loc = self.kernel.eval(x, cell=(ci,cj), region=(regi, regj),
                                          phi=(phi[0][regi],phi[1][regj]),
                                          dofs=(dofi,dofj))
-                C_loc = C_loc.reshape(n_gauss,n_gauss)
 
                 #
                 # Compute local integral
@@ -1723,7 +1730,12 @@ class IPForm(Form):
                 Wphij = np.diag(wj_g).dot(phij)
 
                 # Combine
-                f_loc += np.dot(Wphii.T, C_loc.dot(Wphij))
+                if n_samples==1:
+                    C_loc = C_loc.reshape(n_gauss,n_gauss)
+                    f_loc += np.dot(Wphii.T, C_loc.dot(Wphij))
+                else:
+                    C_loc = C_loc.reshape(n_gauss,n_gauss,n_samples)
+                    f_loc += np.einsum('gi,ghs,hj->ijs', Wphii, C_loc, Wphij)
 
         # Return local form
         return f_loc
@@ -4054,6 +4066,11 @@ class AssembledForm(object):
         n_samples = self.n_samples()
         dim = self.dim()
         data = self.__cellwise_data
+        if dim == 2 and vals.ndim == 2:
+            #
+            # Integral forms with one sample
+            #
+            vals = vals[:,:,np.newaxis]
         if n_samples > 1 and vals.shape[-1]==1:
             #
             # Single sample: Copy it
-- 
2.43.0


From abedea3cb40f32bf65c2fd513433c215889be72e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 79/89] fix: integral forms with symmetric kernel but different
 test and trial functions

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index cecafe1..4d5527f 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2466,12 +2466,12 @@ class Assembler(object):
                             #
                             # Special efficiency when kernel is symmetric
                             #
-                            if form.kernel.is_symmetric():
+                            if form.kernel.is_symmetric() and form.test==form.trial:
                                 if ci!=cj:
                                     #
                                     # Symmetric kernel, store the transpose
                                     #
-                                    aform.update_cellwise(ci, form_loc.T,
+                                    aform.update_cellwise(ci, np.swapaxes(form_loc,0,1),
                                                           dofs = [dofs_trl, dofs_tst])
                                 else:
                                     #
-- 
2.43.0


From a62f9df8db39fe59826188259a718722dcd3e12c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 80/89] fix: nodal kernels of two variables in integral forms

---
 src/assembler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 4d5527f..a74c501 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -954,8 +954,12 @@ class Kernel(object):
         n_samples = self.n_samples()
         for f, dfdx in zip(self.__f, self.__dfdx):
             if isinstance(f, Nodal):
-                phi_f = phi if phi is None else phi[f.basis()]
-                dof_f = None if dofs is None else dofs[f.basis()]
+                if f.n_variables() > 1:
+                    # Evaluate at pairs of points
+                    phi_f, dof_f = None, None
+                else:
+                    phi_f = phi if phi is None else phi[f.basis()]
+                    dof_f = None if dofs is None else dofs[f.basis()]
                 if dfdx is not None and parse_derivative_info(dfdx) != \
                     parse_derivative_info(f.basis().derivative()):
                     #
-- 
2.43.0


From 076531aa25ec481bf3613913c922888d37a6c91a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 81/89] fix: anisotropic distances with a mixed term

---
 src/gmrf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 448133d..6372b52 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -223,14 +223,15 @@ def distance(x, y, M=None, periodic=False, box=None):
         #
         # 2D
         #   
-        dx = np.abs(x[:,0]-y[:,0])
-        dy = np.abs(x[:,1]-y[:,1])
+        dx = x[:,0]-y[:,0]
+        dy = x[:,1]-y[:,1]
         if periodic:
             assert box is not None, \
             'If periodic, bounding box must be specified.'
             x_min, x_max, y_min, y_max = box
-            dx = np.min(np.array([dx,(x_max-x_min)-dx]),axis=0)
-            dy = np.min(np.array([dy,(y_max-y_min)-dy]),axis=0)
+            # Shift differences to the nearest periodic copy
+            dx = dx - (x_max-x_min)*np.round(dx/(x_max-x_min))
+            dy = dy - (y_max-y_min)*np.round(dy/(y_max-y_min))
         
         if M is None:
             return np.sqrt(dx**2 + dy**2)
-- 
2.43.0


From 3101b4d32b21e784c90eb3112cd62f66393383e1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 82/89] fix: linear covariance in one dimension drops the
 variance when M is given

---
 src/gmrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 6372b52..7632a1d 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -292,7 +292,7 @@ def linear(x,y,sgm=1, M=None):
             return sgm**2 + x*y
         else:
             assert isinstance(M,Real), 'Input "M" should be a scalar.'
-            return x*M*y
+            return sgm**2 + x*M*y
         
     elif dim==2:
         #
-- 
2.43.0


From 74729bb2ef9b0a34bc8bc44139c6bdd9e5024707 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 83/89] fix: Matern covariance at distance zero

---
 src/gmrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 7632a1d..d2dd672 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -355,9 +355,9 @@ def matern(x, y, sgm, nu, l, M=None, periodic=False, box=None):
     K = sgm**2*2**(1-nu)/gamma(nu)*(np.sqrt(2*nu)*d/l)**nu*\
         kv(nu,np.sqrt(2*nu)*d/l)
     #
-    # Modified Bessel function undefined at d=0, covariance should be 1
+    # Modified Bessel function undefined at d=0, covariance should be sgm^2
     #
-    K[np.isnan(K)] = 1
+    K[np.isnan(K)] = sgm**2
     return K
     
     
-- 
2.43.0


From edd11cd5cc54c6289c9514f3c4a9a02293c4e5dd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 84/89] fix: point location in small and large cells

---
 src/mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 9caaa15..f6d08ab 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3574,7 +3574,11 @@ class Cell(Tree):
 
             # Determine which points lie outside cell
             pos_means_left = (y-y0)*(x1-x0)-( x-x0)*(y1-y0)
-            in_cell[pos_means_left<-tol] = False
+            # (tolerance: a distance relative to the length of the edge,
+            #  and no less than rounding)
+            length = np.sqrt((x1-x0)**2+(y1-y0)**2)
+            rounding = 4*np.finfo(float).eps*max(abs(x0), abs(y0))
+            in_cell[pos_means_left<-(tol*length + rounding)*length] = False
 
         """
         if len(in_cell)==1:
-- 
2.43.0


From fef4156a088c6f787caa36da5c56bcab12491612 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 85/89] fix: points on small half-edges

---
 src/mesh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index f6d08ab..1d35fcd 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2392,9 +2392,10 @@ class HalfEdge(Tree):
 
             points: double,
         """
-        tol = 1e-10
         x0 = convert_to_array(self.base().coordinates())
         v = self.to_vector()
+        # Tolerance: relative to the size of the edge, and no less than rounding
+        tol = 1e-10*np.max(np.abs(v)) + 4*np.finfo(float).eps*np.max(np.abs(x0))
         dim = x0.shape[1]
         p = convert_to_array(points, dim)
         n_points = p.shape[0]
@@ -2403,7 +2404,7 @@ class HalfEdge(Tree):
             #
             # Vertical line
             #
-            assert np.abs(v[1])>tol, 'Half-edge is too short'
+            assert np.abs(v[1])>0, 'Half-edge is too short'
 
             # Locate y-coordinate along segment
             t = (p[:,1]-x0[:,1])/v[1]
@@ -2418,7 +2419,7 @@ class HalfEdge(Tree):
             #
             # Horizontal line
             #
-            assert np.abs(v[0])>tol, 'Half-edge is too short'
+            assert np.abs(v[0])>0, 'Half-edge is too short'
 
             # Locate x-coordinate along line
             t = (p[:,0]-x0[:,0])/v[0]
@@ -2437,7 +2438,7 @@ class HalfEdge(Tree):
             t = (p[:,1]-x0[:,1])/v[1]
 
             # Check coordinates have same location parameters
-            in_half_edge[np.abs(t-s)>tol] = False
+            in_half_edge[np.abs(t-s)*np.min(np.abs(v))>tol] = False
 
             # Check that location parameter lies in [0,1]
             in_half_edge[np.abs(t-0.5)>0.5] = False
-- 
2.43.0


From 17b9a5760952decaa9897d6ac7ddcaf09a1d8dc7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 86/89] fix: intersection of short line segments

---
 src/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 1d35fcd..b2b8c2c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2470,11 +2470,12 @@ class HalfEdge(Tree):
         q = np.array(line[0])
         s = np.array(line[1]) - q
 
-        if abs(np.cross(r,s)) < 1e-14:
+        norm_r, norm_s = np.linalg.norm(r), np.linalg.norm(s)
+        if abs(np.cross(r,s)) <= 1e-14*norm_r*norm_s:
             #
             # Lines are parallel
             #
-            if abs(np.cross(q-p,r)) < 1e-14:
+            if abs(np.cross(q-p,r)) <= 1e-14*norm_r*max(norm_r, norm_s):
                 #
                 # Lines are collinear
                 #
-- 
2.43.0


From fe1fd7a47f725bea9d4a85f69c112c40265882fc Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 87/89] fix: reference map of half-edges far from the origin

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index b2b8c2c..4ec644f 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2634,12 +2634,12 @@ class HalfEdge(Tree):
         if mapsto == 'physical':
             x_trg = [(x0 + (x1-x0)*xi, y0 + (y1-y0)*xi) for xi in x_in]
         elif mapsto == 'reference':
-            if not np.isclose(x0, x1):
+            if abs(x1-x0) >= abs(y1-y0):
                 #
                 # Not a vertical line
                 #
                 x_trg = list((x_in[:,0]-x0)/(x1-x0))
-            elif not np.isclose(y0, y1):
+            else:
                 #
                 # Not a horizontal line
                 #
-- 
2.43.0


From 2f14bbb3dfb8f6fcf9ffe49a582d8c7ab73a73b2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 88/89] fix: small quadrilaterals taken as rectangles

---
 src/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 4ec644f..048c97e 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3648,8 +3648,9 @@ class QuadCell(Cell, Tree):
             for i in range(4):
                 he = half_edges[i].to_vector()
                 he_nxt = half_edges[(i+1)%4].to_vector()
-                on_axis = min(abs(he)) <1e-12
-                perpendicular = abs(np.dot(he, he_nxt)) < 1e-12
+                size, size_nxt = np.linalg.norm(he), np.linalg.norm(he_nxt)
+                on_axis = min(abs(he)) < 1e-12*size
+                perpendicular = abs(np.dot(he, he_nxt)) < 1e-12*size*size_nxt
                 if  not (perpendicular and on_axis):
                     is_rectangle = False
                     break
-- 
2.43.0


From c0def140510db3a394191b73c3920dbb4ad08fb1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 89/89] fix: periodic sides of small and of distant domains

---
 src/mesh.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 048c97e..2fda254 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6496,6 +6496,14 @@ class DCEL(object):
             # In 2D, must align vertices on both side of the box
             #
             x_min, x_max, y_min, y_max = box
+
+            # Compare coordinates relative to the size of the box
+            def x_close(a, b):
+                return abs(a-b) <= 1e-8*(x_max-x_min)
+
+            def y_close(a, b):
+                return abs(a-b) <= 1e-8*(y_max-y_min)
+
             if 0 in coordinates:
                 #
                 # Make periodic in the x-direction
@@ -6511,13 +6519,13 @@ class DCEL(object):
                         x_base, y_base = self.points['coordinates'][i_head]
                         x_head, y_head = self.points['coordinates'][i_base]
 
-                        if np.isclose(x_base,x_max) and np.isclose(x_head,x_max):
+                        if x_close(x_base,x_max) and x_close(x_head,x_max):
                             #
                             # If x-values are near x_max, it's on the right
                             #
                             right_hes.append((he, y_base, y_head))
 
-                        elif np.isclose(x_base,x_min) and np.isclose(x_head,x_min):
+                        elif x_close(x_base,x_min) and x_close(x_head,x_min):
                             #
                             # If x-values are near x_min, it's on the left
                             #
@@ -6538,7 +6546,7 @@ class DCEL(object):
                         # corresponding one on the right.
                         #
                         r_he, r_ybase, r_yhead = right_hes[ir]
-                        if np.isclose(l_ybase, r_yhead) and np.isclose(l_yhead, r_ybase):
+                        if y_close(l_ybase, r_yhead) and y_close(l_yhead, r_ybase):
                             self.half_edges['twin'][l_he] = r_he
                             self.half_edges['twin'][r_he] = l_he
                             del right_hes[ir]
@@ -6563,13 +6571,13 @@ class DCEL(object):
                         x_base, y_base = self.points['coordinates'][i_head]
                         x_head, y_head = self.points['coordinates'][i_base]
 
-                        if np.isclose(y_base,y_max) and np.isclose(y_head,y_max):
+                        if y_close(y_base,y_max) and y_close(y_head,y_max):
                             #
                             # If y-values are near y_max, it's on the top
                             #
                             top_hes.append((he, x_base, x_head))
 
-                        elif np.isclose(y_base,y_min) and np.isclose(y_head,y_min):
+                        elif y_close(y_base,y_min) and y_close(y_head,y_min):
                             #
                             # If y-values are near y_min, it's on the bottom
                             #
@@ -6585,7 +6593,7 @@ class DCEL(object):
                         # corresponding one on the right.
                         #
                         t_he, t_xbase, t_xhead = top_hes[it]
-                        if np.isclose(t_xbase, b_xhead) and np.isclose(t_xhead, b_xbase):
+                        if x_close(t_xbase, b_xhead) and x_close(t_xhead, b_xbase):
                             self.half_edges['twin'][b_he] = t_he
                             self.half_edges['twin'][t_he] = b_he
                             del top_hes[it]
-- 
2.43.0

