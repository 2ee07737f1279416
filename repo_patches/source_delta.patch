From 7bab288d72f099917261695c66d87f5ef608075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 01/43] fix: edge cuts leave faces and new objects of the
 second zone in that zone

---
 crysgsu/gsu/grid.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..22bea9e 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1463,6 +1463,7 @@ class Grid:
             data1 = f1.Data.copy()
             gloid1 = f1.GloId
             zone = f1.Zone
+            zone2 = f2.Zone
             data2 = f2.Data.copy()
             gloid2 = f2.GloId
 
@@ -1548,12 +1549,18 @@ class Grid:
 
             zone.add_face(f1_1)
             zone.add_face(f1_2)
-            zone.add_face(f2_1)
-            zone.add_face(f2_2)
+            zone2.add_face(f2_1)
+            zone2.add_face(f2_2)
             zone.add_edge(e15)
             zone.add_edge(e25)
             zone.add_edge(e35)
-            zone.add_edge(e45)
+            zone2.add_edge(e45)
+            if zone2 is not zone:
+                # New objects on the border of two zones belong to both of them.
+                if n5 not in zone2.Nodes:
+                    zone2.add_node(n5)
+                zone2.add_edge(e15)
+                zone2.add_edge(e25)
 
             return True
         else:
@@ -1860,6 +1867,7 @@ class Grid:
             data1 = face1.Data.copy()
             gloid1 = face1.GloId
             zone = face1.Zone
+            zone2 = face2.Zone
             data2 = face2.Data.copy()
             gloid2 = face2.GloId
 
@@ -1979,16 +1987,23 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_face(f3)
-            zone.add_face(f4)
-            zone.add_face(f5)
-            zone.add_face(f6)
+            zone2.add_face(f4)
+            zone2.add_face(f5)
+            zone2.add_face(f6)
             zone.add_edge(e14)
             zone.add_edge(e25)
             zone.add_edge(e45)
             zone.add_edge(e34)
             zone.add_edge(e35)
-            zone.add_edge(e46)
-            zone.add_edge(e56)
+            zone2.add_edge(e46)
+            zone2.add_edge(e56)
+            if zone2 is not zone:
+                # New objects on the border of two zones belong to both of them.
+                for n in [n4, n5]:
+                    if n not in zone2.Nodes:
+                        zone2.add_node(n)
+                for e in [e14, e25, e45]:
+                    zone2.add_edge(e)
 
             return True
 
-- 
2.43.0


From fe2819e10a19a3168e1f8cbe3511bfbbade477ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 02/43] fix: collapse_face refuses to double an existing edge

---
 crysgsu/gsu/grid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 22bea9e..f55f7a2 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1363,6 +1363,11 @@ class Grid:
 
         max_edge = face.max_edge_from_face()
         if len(max_edge.Faces) == 2:
+            # If opposite nodes are already linked, new edge will be a double of existing one.
+            opposite_nodes = [n for f in max_edge.Faces for n in f.Nodes
+                              if all(n is not i for i in max_edge.Nodes)]
+            if Grid.find_edge(opposite_nodes[0], opposite_nodes[1]) is not None:
+                return False
             self.del_face(face)
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
-- 
2.43.0


From 72e4c31e82194be9cb1e1f7bc3ce48fa0e6d1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 03/43] fix: collapse_edge refuses edges which can not be
 collapsed

---
 crysgsu/gsu/grid.py | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index f55f7a2..27ce0c8 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1573,6 +1573,43 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def is_collapsible(edge):
+        """
+        Check if the grid stays correct after collapsing of the edge (with two faces).
+
+        Parameters
+        ----------
+        edge: Edge
+
+        Returns: True - if edge can be collapsed,
+                 False - otherwise.
+        -------
+
+        """
+
+        n1, n2 = edge.Nodes[0], edge.Nodes[1]
+        opposite = [n for f in edge.Faces for n in f.Nodes if (n is not n1) and (n is not n2)]
+
+        # Both faces must have other neighbours.
+        if any(all(e.is_border() for e in f.Edges if e is not edge) for f in edge.Faces):
+            return False
+
+        # Any other common neighbour leads to doubled edges.
+        around1 = {id(n) for e in n1.Edges for n in e.Nodes}
+        around2 = {id(n) for e in n2.Edges for n in e.Nodes}
+        if around1 & around2 != {id(n) for n in opposite + [n1, n2]}:
+            return False
+
+        # Faces from both sides of the edge between opposite nodes coincide.
+        e = Grid.find_edge(opposite[0], opposite[1])
+        if e is None:
+            return True
+        third = {id(n) for f in e.Faces for n in f.Nodes}
+        return not (id(n1) in third and id(n2) in third)
+
+    # ----------------------------------------------------------------------------------------------
+
     def collapse_edge(self, edge):
         """
 
@@ -1587,12 +1624,10 @@ class Grid:
 
         """
 
-        if len(edge.Faces) == 2:
-
+        if len(edge.Faces) == 2 and Grid.is_collapsible(edge):
             # det all data and del from grid
             f1 = edge.Faces[0]
             f2 = edge.Faces[1]
-
             self.del_face(f1)
             self.del_face(f2)
 
-- 
2.43.0


From 5f140259ca3b9a77e0829b3618155553a50c96d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 04/43] fix: collapse_edge keeps global identifiers without
 gaps and doubles

---
 crysgsu/gsu/grid.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 27ce0c8..e77cdf5 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1573,6 +1573,26 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def refill_glo_ids(objects, deleted):
+        """
+        Give identifiers of deleted objects to objects with too big identifiers.
+
+        Parameters
+        ----------
+        objects: nodes, edges or faces of the grid
+        deleted: objects that were deleted from the list
+
+        """
+
+        count = len(objects)
+        free = [d.GloId for d in deleted if d.GloId < count]
+        for obj in objects:
+            if obj.GloId >= count:
+                obj.GloId = free.pop()
+
+    # ----------------------------------------------------------------------------------------------
+
     @staticmethod
     def is_collapsible(edge):
         """
@@ -1663,12 +1683,9 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            Grid.refill_glo_ids(self.Faces, [f1, f2])
+            Grid.refill_glo_ids(self.Edges, [edge, e1, e2])
+            Grid.refill_glo_ids(self.Nodes, [n2])
 
             return True
         else:
-- 
2.43.0


From 99c4ec18c914e91fbcdea08d553dd78db6422351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 05/43] fix: collapse_face and collapse_edge keep nodes and
 edges of zones

---
 crysgsu/gsu/grid.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index e77cdf5..75ab23e 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1242,7 +1242,8 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
+        for z in self.Zones:
+            z.Nodes = [n for n in z.Nodes if n is not node]
         self.Nodes.remove(node)
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
@@ -1372,6 +1373,7 @@ class Grid:
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
             gloid2 = other_face.GloId
+            zone2 = other_face.Zone
             self.del_face(other_face)
 
             # get new faces
@@ -1411,12 +1413,12 @@ class Grid:
             Grid.link_edge_face(e5, f2)
 
             zone.add_face(f1)
-            zone.add_face(f2)
+            zone2.add_face(f2)
             zone.add_edge(e5)
-
             self.add_face(f1, gloid1)
             self.add_face(f2, gloid2)
-
+            if zone2 is not zone:
+                self.relink_zones([zone, zone2])
             return True
         else:
             return False
@@ -1573,6 +1575,24 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    def relink_zones(self, zones):
+        """
+        Restore lists of nodes and edges of the zones from their faces (in the order of the grid).
+
+        Parameters
+        ----------
+        zones: list of zones
+
+        """
+
+        for z in {id(z): z for z in zones}.values():
+            nodes_ids = {id(n) for f in z.Faces for n in f.Nodes}
+            edges_ids = {id(e) for f in z.Faces for e in f.Edges}
+            z.Nodes = [n for n in self.Nodes if id(n) in nodes_ids]
+            z.Edges = [e for e in self.Edges if id(e) in edges_ids]
+
+    # ----------------------------------------------------------------------------------------------
+
     @staticmethod
     def refill_glo_ids(objects, deleted):
         """
@@ -1682,6 +1702,7 @@ class Grid:
 
             n2.replacing_node(n1)
             self.del_node(n2)
+            self.relink_zones([f1.Zone, f2.Zone] + [f.Zone for f in n1.Faces])
 
             Grid.refill_glo_ids(self.Faces, [f1, f2])
             Grid.refill_glo_ids(self.Edges, [edge, e1, e2])
-- 
2.43.0


From fa97559292d25316ee9f6e852ed5f82571039115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 06/43] fix: atomic edits keep orientation of faces

---
 crysgsu/gsu/grid.py | 37 ++++++++++++++++++++++++++++++++++++-
 crysgsu/gsu/node.py |  8 ++++----
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 75ab23e..2c49e6e 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1249,6 +1249,26 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def inherit_orientation(face, parent, replacements):
+        """
+        Set order of face nodes so that normal has the same direction as normal of parent face.
+
+        Parameters
+        ----------
+        face: Face
+        parent: Face
+        replacements: list of pairs (node of parent face, node of face instead of it)
+
+        """
+
+        nodes = list(parent.Nodes)
+        for old, new in replacements:
+            nodes = [new if n is old else n for n in nodes]
+        face.Nodes = nodes
+
+    # ----------------------------------------------------------------------------------------------
+
     def divide_face(self, face, p):
         """
 
@@ -1315,11 +1335,11 @@ class Grid:
         Grid.link_edge_face(e6, f3)
 
         Grid.link_node_face(n1, f1)
+        Grid.link_node_face(n3, f3)
         Grid.link_node_face(n1, f3)
         Grid.link_node_face(n2, f1)
         Grid.link_node_face(n2, f2)
         Grid.link_node_face(n3, f2)
-        Grid.link_node_face(n3, f3)
         Grid.link_node_face(n4, f1)
         Grid.link_node_face(n4, f2)
         Grid.link_node_face(n4, f3)
@@ -1404,6 +1424,8 @@ class Grid:
             Grid.link_node_face(n2, f2)
             Grid.link_node_face(n3, f2)
             Grid.link_node_face(n4, f2)
+            Grid.inherit_orientation(f1, face, [(n2, n4)])
+            Grid.inherit_orientation(f2, face, [(n1, n4)])
 
             Grid.link_edge_face(e1, f1)
             Grid.link_edge_face(e2, f1)
@@ -1540,6 +1562,10 @@ class Grid:
             Grid.link_node_face(n3, f1_2)
             Grid.link_node_face(n4, f2_1)
             Grid.link_node_face(n4, f2_2)
+            Grid.inherit_orientation(f1_1, f1, [(n1, n5)])
+            Grid.inherit_orientation(f1_2, f1, [(n2, n5)])
+            Grid.inherit_orientation(f2_1, f2, [(n2, n5)])
+            Grid.inherit_orientation(f2_2, f2, [(n1, n5)])
 
             Grid.link_edge_face(e15, f1_2)
             Grid.link_edge_face(e15, f2_1)
@@ -1795,6 +1821,8 @@ class Grid:
             Grid.link_node_face(n4, f2)
             Grid.link_node_face(n1, f1)
             Grid.link_node_face(n2, f2)
+            Grid.inherit_orientation(f1, face, [(n2, n4)])
+            Grid.inherit_orientation(f2, face, [(n1, n4)])
 
             Grid.link_edge_face(e34, f1)
             Grid.link_edge_face(e34, f2)
@@ -1915,6 +1943,9 @@ class Grid:
             Grid.link_node_face(n4, f2)
             Grid.link_node_face(n5, f2)
             Grid.link_node_face(n5, f3)
+            Grid.inherit_orientation(f1, face, [(n2, n4)])
+            Grid.inherit_orientation(f2, face, [(n1, n4), (n2, n5)])
+            Grid.inherit_orientation(f3, face, [(n1, n5)])
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
@@ -2042,6 +2073,10 @@ class Grid:
             Grid.link_node_face(n6, f4)
             Grid.link_node_face(n6, f5)
             Grid.link_node_face(n6, f6)
+            for parent, children in [(face1, [f1, f2, f3]), (face2, [f4, f5, f6])]:
+                Grid.inherit_orientation(children[0], parent, [(n2, n4)])
+                Grid.inherit_orientation(children[1], parent, [(n1, n4), (n2, n5)])
+                Grid.inherit_orientation(children[2], parent, [(n1, n5)])
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
diff --git a/crysgsu/gsu/node.py b/crysgsu/gsu/node.py
index 5daa3cf..9d15c2f 100644
--- a/crysgsu/gsu/node.py
+++ b/crysgsu/gsu/node.py
@@ -81,11 +81,11 @@ class Node:
 
         n.Edges += self.Edges
         n.Faces += self.Faces
+        # Order of nodes has to be kept (it sets the direction of face normal).
         for ed in self.Edges:
-            ed.Nodes.remove(self)
-            ed.Nodes += [n]
+            ed.Nodes = [n if i is self else i for i in ed.Nodes]
+
         for face in self.Faces:
-            face.Nodes.remove(self)
-            face.Nodes += [n]
+            face.Nodes = [n if i is self else i for i in face.Nodes]
 
 # ==================================================================================================
-- 
2.43.0


From 7340fab1232fcb795b87bafead98ca4738403efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 07/43] fix: collapse_face keeps data of the second face

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 2c49e6e..f5624df 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1398,7 +1398,7 @@ class Grid:
 
             # get new faces
             f1 = gsu.Face(list(data.keys()), list(data.values()))
-            f2 = gsu.Face(list(data.keys()), list(data.values()))
+            f2 = gsu.Face(list(other_face.Data.keys()), list(other_face.Data.values()))
 
             # get nodes
             n1 = max_edge.Nodes[0]
-- 
2.43.0


From 80c50c13584d7abee9b884fd0207649acf7eb8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 08/43] fix: hierarchical decomposition of zones which can not
 be split along some axis

---
 crysgsu/gsu/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index f5624df..fafa647 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -917,6 +917,8 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
@@ -975,7 +977,8 @@ class Grid:
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
             # Replace to the end.
-            self.Zones.remove(zone)
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From d00d30e295ed6b6159e3fdfb5023a3ae5389787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 09/43] fix: do not link faces through another node with the
 same coordinates

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index fafa647..3c5250b 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -358,7 +358,7 @@ class Grid:
         """
 
         for edge in node_a.Edges:
-            if node_b in edge.Nodes:
+            if any(node is node_b for node in edge.Nodes):
                 return edge
 
         return None
-- 
2.43.0


From 50305948063ae1d432e0cdd6464ada8706975435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 10/43] fix: load names with equals sign

---
 crysgsu/gsu/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 3c5250b..02a3a4f 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -493,7 +493,7 @@ class Grid:
                     # Comment.
                     pass
                 elif 'TITLE=' in line:
-                    self.Name = line.split('=')[1][1:-2]
+                    self.Name = line.split('=', 1)[1][1:-2]
                 elif 'VARIABLES=' in line:
                     variables_str = line.split('=')[-1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
@@ -503,7 +503,7 @@ class Grid:
                 elif 'ZONE T=' in line:
 
                     # Create new zone.
-                    zone_name = line.split('=')[-1][1:-2]
+                    zone_name = line.split('=', 1)[1][1:-2]
                     zone = gsu.Zone(zone_name)
                     self.Zones.append(zone)
 
-- 
2.43.0


From 891b302372cefeb6740fe8ce36e2928767b00d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 11/43] fix: title and count of border nodes of previous grid
 do not outlive clear

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 02a3a4f..7332c84 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -44,11 +44,13 @@ class Grid:
         Clear grid.
         """
 
+        self.Name = ''
         self.Nodes.clear()
         self.Edges.clear()
         self.Faces.clear()
         self.Zones.clear()
         self.RoundedCoordsBag.clear()
+        self.number_of_border_nodes = 0
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 438d0b397767a1235cd99b3384379fbd5aeb9b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 12/43] fix: print_info finds zones adjacency matrix

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 7332c84..618d928 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -152,7 +152,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From f0d6cb6b8bdb003b910e6a0c8c4b62ba43a788a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 13/43] fix: complete all exchanges before superbuffers are
 used again

---
 crysgsu/crys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bdefc1d..7688d47 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -116,7 +116,8 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
     for i in range(len(mpi_borders)):
         dest = list(mpi_borders.keys())[i]
         count = len(mpi_borders[dest])
-        comm.Isend(send_sb[i][:count], dest=dest)
+        req = comm.Isend(send_sb[i][:count], dest=dest)
+        requests.append(req)
 
     for i in range(len(mpi_borders)):
         source = list(mpi_borders.keys())[i]
@@ -124,8 +125,9 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
         req = comm.Irecv(recv_sb[i][:count], source=source)
         requests.append(req)
 
+    # All exchanges must be completed before superbuffers are used again.
+    requests.append(comm.Ibarrier())
     MPI.Request.Waitall(requests)
-    comm.Ibarrier()
 
 def get_from_superbuffer(mpi_borders, recv_sb, data):
     """Get data from recv superbuffer.
-- 
2.43.0


From 95fffb890f7c591b6af374d29cd7445dd77224b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 14/43] fix: parallel run on zones without neighbours

---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 7688d47..3bbeabf 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -204,7 +204,7 @@ if __name__ == '__main__':
 
     if size > 1:
         mpi_borders = get_mpi_borders(rank, zam, z, g)
-        max_length = max(list(map(len, mpi_borders.values())))
+        max_length = max(list(map(len, mpi_borders.values())), default=0)
 
         # todo numpy не позволяет делать массив с массивами разной длины, поэтому буфферы строятся по максимальной границе.
         send_superbuffer = np.empty((len(mpi_borders), max_length))
-- 
2.43.0


From c6291862fedab1621cf2163e9406c14690dc2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 15/43] fix: gathered ice heights of zones with different
 counts of faces

---
 crysgsu/crys.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 3bbeabf..b84d1ed 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -170,9 +170,12 @@ def remesh(rank, his):
         print("Gathered array: {}".format(recvbuf.size))
 
     if rank == 0:
-        for i, zone in enumerate(g.Zones):
-            for f, new_h in zip(zone.Faces, recvbuf[i * sendcounts[i] : (i + 1) * sendcounts[i]]):
+        # Zones can have different counts of faces.
+        offset = 0
+        for zone, count in zip(g.Zones, sendcounts):
+            for f, new_h in zip(zone.Faces, recvbuf[offset : offset + count]):
                 f.Data['Hi'] = new_h
+            offset += count
 
         TongRemesher(mesh_filename=FILENAME, json_file=JSON, outdir=OUTDIR)(g)
         g.store(OUT_REMESHED_MESH)
-- 
2.43.0


From b36d7deb6a23d9818bbdbc858553836648286d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 16/43] fix: pseudo 2d mode of remesher works with coordinates
 of nodes

---
 crysgsu/remeshing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 0261e5d..696c7b5 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -495,7 +495,7 @@ class TongRemesher:
 
         # Add nodes to appropriate classes with the same x, y coords.
         for node in self.grid.Nodes:
-            c = (int(node.P.x * big_value), int(node.P.y * big_value))
+            c = (int(node.P.X * big_value), int(node.P.Y * big_value))
             v = d.get(c)
             if v is not None:
                 v.append(node)
@@ -512,7 +512,7 @@ class TongRemesher:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (diff columns lens)')
             if len(v) == 1:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (column len = 1)')
-            v.sort(key=lambda n: n.P.z)
+            v.sort(key=lambda n: n.P.Z)
 
         # Set information to grid.
         self.grid.pseudo_2d_oz_columns = vs
@@ -525,7 +525,7 @@ class TongRemesher:
         """
 
         for n in self.grid.Nodes:
-            n.frozen_z = n.P.z
+            n.frozen_z = n.P.Z
 
     # ----------------------------------------------------------------------------------------------
 
@@ -617,9 +617,9 @@ class TongRemesher:
 
         # Correct each column.
         for col in cols:
-            for i, n in enumerate(col):
-                if i != mid_index:
-                    n.P.X, n.P.Y, n.P.Z = col[mid_index].x, col[mid_index].y, n.frozen_z
+            mid = col[mid_index].P
+            for n in col:
+                n.P.X, n.P.Y, n.P.Z = mid.X, mid.Y, n.frozen_z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 2295edf69c566c23e3ed0d84d1b9f8202b8a3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 17/43] fix: null-space smoothing uses existing names of
 classes and fields

---
 crysgsu/smoothing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2adb569..ddc1904 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -3,6 +3,7 @@ from numpy import argmax, array, vstack, diag, dot, abs, cumprod, sum, full, arc
 from copy import deepcopy
 from collections import deque
 import geom
+from geom import Vect
 import gsu
 
 DETERMINANT_ACCURACY = 10e-5
@@ -143,10 +144,10 @@ class NullSpaceSmoothing(Smoothing):
         -------
             numpy array (N_FACES, 3)
         """
-        N = node.Faces[0].get_triangle().normal_orth().coords_as_numpy()
+        N = node.Faces[0].get_triangle().normal_orth().coords_as_np()
         N = N.reshape((1, 3))
         for f in node.Faces[1:]:
-            normal = f.get_triangle().normal_orth().coords_as_numpy()
+            normal = f.get_triangle().normal_orth().coords_as_np().reshape((1, 3))
             assert N.shape[1] == normal.shape[1], print(N.shape, normal.shape)
             N = vstack((N, normal))
 
@@ -195,8 +196,8 @@ class NullSpaceSmoothing(Smoothing):
         for i in range(0, self.num_iterations):
             shifts = []
             for n in self.grid.Nodes:
-                m = len(n.faces)
-                w = [f.get_triangle().area() for f in n.faces]
+                m = len(n.Faces)
+                w = [f.get_triangle().area() for f in n.Faces]
                 N = self.create_matrix_of_normals(n)
                 dv = self.get_laplacian(n)
 
-- 
2.43.0


From a42a4bbf2d6e6765311a7bddb656a7aa5023b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 18/43] fix: null space of symmetric matrix is built from
 orthogonal eigenvectors

---
 crysgsu/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index ddc1904..c17bd85 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -1,4 +1,4 @@
-from scipy.linalg import eig, det
+from scipy.linalg import eigh, det
 from numpy import argmax, array, vstack, diag, dot, abs, cumprod, sum, full, arccos, exp, real
 from copy import deepcopy
 from collections import deque
@@ -213,7 +213,7 @@ class NullSpaceSmoothing(Smoothing):
                 assert NTW.shape == (3, m)
                 assert A.shape == (3, 3)
 
-                eigenValues, eigenVectors = eig(A)
+                eigenValues, eigenVectors = eigh(A)
                 idx = eigenValues.argsort()[::-1]
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
-- 
2.43.0


From d8bb02de0c94e59b5f74729f2ec1582bf90dfc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 19/43] fix: determinant check of null-space smoothing does not
 depend on units

---
 crysgsu/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index c17bd85..5099d88 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -218,7 +218,7 @@ class NullSpaceSmoothing(Smoothing):
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
 
-                assert abs(det(A) - cumprod(eigenValues)[-1]) < DETERMINANT_ACCURACY, \
+                assert abs(det(A) - cumprod(eigenValues)[-1]) < DETERMINANT_ACCURACY * max(1.0, eigenValues[0] ** 3), \
                     print(det(A), cumprod(eigenValues)[-1])
 
                 k = sum((eigenValues > self.epsilon * eigenValues[0]))
-- 
2.43.0


From 75d79528a44bd4d62dcfa6fbc44b98e9c45a846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 20/43] fix: cubic coefficient of prizmatoid volume is a number

---
 crysgsu/geom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/utils.py b/crysgsu/geom/utils.py
index d82d394..e674ca2 100644
--- a/crysgsu/geom/utils.py
+++ b/crysgsu/geom/utils.py
@@ -115,7 +115,7 @@ def prizmatoid_volume_coefs(v1: Vect,
     # a, b, c coefficients
     a = 0.5 * Vect.cross_product(v21, v31).mod()
     b = 0.25 * Vect.dot_product(Vect.cross_product(v21, u31) + Vect.cross_product(u21, v31), n)
-    c = (1.0 / 6.0) * (Vect.cross_product(u21, u31) * n)
+    c = (1.0 / 6.0) * Vect.dot_product(Vect.cross_product(u21, u31), n)
 
     return a, b, c
 
-- 
2.43.0


From 8b15e7f89a7585304d34aba9646b13ead8fb5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 21/43] fix: intersections of triangles with segments near
 edges and on small surfaces

---
 crysgsu/geom/triangle.py | 66 ++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index ba9fc46..7f16051 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -177,17 +177,19 @@ class Triangle:
         m = np.transpose(m)
         d = np.linalg.det(m)
 
+        # Relative accuracy.
+        eps = 1.0e-10
+
         def determinant(i, j):
             """
 
             :param i: Axis i.
             :param j: Axis j.
-            :return: Determinant.
+            :return: Determinant (zero if it is small in comparison with sides).
             """
 
-            det = np.array([[ba.Coords[i], ca.Coords[i]],
-                            [ba.Coords[j], ca.Coords[j]]])
-            return round(np.linalg.det(det), 10)
+            det = ba[i] * ca[j] - ba[j] * ca[i]
+            return det if abs(det) > eps * ba.mod() * ca.mod() else 0
 
         def solve_the_linear_equation(a, b):
             """
@@ -198,12 +200,12 @@ class Triangle:
             :return: Range of solutions for x.
             """
 
-            if a > 0:
+            if a > eps:
                 return [-b / a, float('Inf')]
-            elif a < 0:
+            elif a < -eps:
                 return [float('-Inf'), -b / a]
             else:
-                if b >= 0:
+                if b >= -eps:
                     return [float('-Inf'), float('Inf')]
                 else:
                     return []
@@ -216,31 +218,20 @@ class Triangle:
             :return: A list of one interval.
             """
 
-            res = []
-            if len(data) == 3:
-                res = [np.max(data, axis=0)[0], np.min(data, axis=0)[1]]
-                if res[0] + aps > res[1] or res[0] > res[1] + aps or \
-                        (res[0] - aps > 1 and res[1] > 1) or (res[1] + aps < 0 and res[0] < 0):
-                    return []
-                elif math.isclose(res[0], 1) and res[1] > 1:
-                    return [res[0]]
-                elif math.isclose(res[1], 0) and res[0] < 0:
-                    return [res[1]]
-                elif res[0] - aps <= 0 and res[1] + aps >= 1:
-                    res = [0, 1]
-                elif res[0] - aps <= 0 and res[1] < 1:
-                    res = [0, res[1]]
-                elif res[0] > 0 and res[1] + aps >= 1:
-                    res = [res[0], 1]
-
-                try1 = data[0][0] - aps <= res[0] and data[0][1] + aps >= res[1]
-                try2 = data[1][0] - aps <= res[0] and data[1][1] + aps >= res[1]
-                try3 = data[2][0] - aps <= res[0] and data[2][1] + aps >= res[1]
-                if not (try1 and try2 and try3):
-                    res = []
-            return res
-
-        if abs(d) < 1e-10:
+            # Each inequality must have solutions.
+            if len(data) < 3:
+                return []
+
+            lo = max([0.0] + [i[0] for i in data])
+            hi = min([1.0] + [i[1] for i in data])
+            if lo > hi + aps:
+                return []
+            elif hi - lo <= aps:
+                return [min(lo, 1.0)]
+            else:
+                return [lo, hi]
+
+        if abs(d) <= eps * ba.mod() * ca.mod() * pq.mod():
 
             # one plane
             if self.point_in_one_plane(p) and self.point_in_one_plane(q):
@@ -307,7 +298,7 @@ class Triangle:
                             if res_ab:
                                 res = res + [res_ab]
 
-                            fi = intersection_of_intervals(res, 1.0e-10)  # TODO it is magic constant
+                            fi = intersection_of_intervals(res, eps)
                             if not fi:
                                 return []
                             else:
@@ -318,8 +309,8 @@ class Triangle:
         [alfa, beta, phi] = im.dot(np.array(pa.coords_list()))
 
         # Check solution.
-        is_inside_tri = (alfa >= 0.0) and (beta >= 0.0) and (alfa + beta <= 1.0)
-        is_inside_seg = (phi >= 0.0) and (phi <= 1.0)
+        is_inside_tri = (alfa >= -eps) and (beta >= -eps) and (alfa + beta <= 1.0 + eps)
+        is_inside_seg = (phi >= -eps) and (phi <= 1.0 + eps)
 
         if is_inside_tri and is_inside_seg:
             return [p - pq * phi]
@@ -379,10 +370,7 @@ class Triangle:
 
         det = np.linalg.det(det)
 
-        if det == 0:
-            return True
-        else:
-            return False
+        return bool(abs(det) <= 1.0e-10 * (p - a).mod() * (b - a).mod() * (c - a).mod())
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From ec9dd42b5254eb24499d45bddf86125642836b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 22/43] fix: class of a point in a triangle does not depend on
 units

---
 crysgsu/geom/triangle.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 7f16051..3aa31e0 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -339,11 +339,16 @@ class Triangle:
         # Get all points.
         a, b, c = self.a(), self.b(), self.c()
 
+        area = self.area()
+
+        if area == 0.0:
+            return 0
+
         # А point in a triangle if the sum of the formed areas is equal to the area of the original triangle.
-        ar1 = round(Triangle(a, b, point).area(), 10)
-        ar2 = round(Triangle(a, point, c).area(), 10)
-        ar3 = round(Triangle(point, b, c).area(), 10)
-        if math.isclose(self.area(), ar1 + ar2 + ar3):
+        ar1 = round(Triangle(a, b, point).area() / area, 10)
+        ar2 = round(Triangle(a, point, c).area() / area, 10)
+        ar3 = round(Triangle(point, b, c).area() / area, 10)
+        if math.isclose(1.0, ar1 + ar2 + ar3):
             return bool(ar1) + bool(ar2) + bool(ar3)
         return 0
 
-- 
2.43.0


From be4de56ea571821c8056269558b0da78573395f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 23/43] fix: order of vectors is lexicographic

---
 crysgsu/geom/vect.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index f226120..57c74a6 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -267,14 +267,11 @@ class Vect:
         :return: Result (True or False)
         """
 
-        if abs(self.X - other.X) < 1.0e-10 and abs(self.Y - other.Y) < 1.0e-10 and self.Z < other.Z:
-            return True
-        elif abs(self.X - other.X) < 1.0e-10 and self.Y < other.Y:
-            return True
-        elif self.X < other.X:
-            return True
-        else:
-            return False
+        for i in range(3):
+            if abs(self[i] - other[i]) >= 1.0e-10:
+                return self[i] < other[i]
+
+        return False
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From ed5b92537351cc88173f5720001de92043cf2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 24/43] fix: first intersection of a segment is the nearest one

---
 crysgsu/geom/triangles_cloud.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crysgsu/geom/triangles_cloud.py b/crysgsu/geom/triangles_cloud.py
index 5cafad1..edb03fd 100644
--- a/crysgsu/geom/triangles_cloud.py
+++ b/crysgsu/geom/triangles_cloud.py
@@ -141,7 +141,7 @@ class TrianglesCloud:
         Find intersections with segment.
 
         :param s: Segment.
-        :return:  Triangle (if there is intersection) or None.
+        :return:  Triangle nearest to the begin of the segment (if there is intersection) or None.
         """
 
         # Cold check.
@@ -149,17 +149,20 @@ class TrianglesCloud:
             return None
 
         if self.is_list():
-            for t in self.Triangles:
-                if t.intersection_with_segment(s) != []:
-                    return t
+            ts = [t for t in self.Triangles if t.intersection_with_segment(s) != []]
         else:
-            for sc in self.Subclouds:
-                res = sc.first_intersection_with_segment(s)
-                if not res is None:
-                    return res
+            ts = [sc.first_intersection_with_segment(s) for sc in self.Subclouds]
+            ts = [t for t in ts if not t is None]
 
         # No intersection is found.
-        return None
+        if ts == []:
+            return None
+
+        # The segment may cross several triangles.
+        if len(ts) > 1:
+            ts.sort(key=lambda t: min(s.a().dist_to(p) for p in t.intersection_with_segment(s)))
+
+        return ts[0]
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 94c3484b0770d7e800f38b6b2d21b617ebff9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 25/43] fix: drop that moves with the air flies without drag

---
 crysgsu/drops.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index e4bd951..2fffa19 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -93,6 +93,11 @@ class Space:
 
         # Reynolds number and C_d.
         vsm = (v - v_air).mod()
+
+        # There is no drag if point flies together with air.
+        if vsm == 0.0:
+            return p + v * dt, v
+
         re = vsm * d / air_vis
         if re <= 350.0:
             cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))
-- 
2.43.0


From e354acbc8c3984cce0fa6ee6c06d1c665cfd31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 26/43] fix: secondary impingement of several drops on one face
 is summed

---
 crysgsu/drops.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index 2fffa19..619d76f 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -275,6 +275,9 @@ def drops(grid_stall_file, grid_air_file, out_grid_file,
     tr_f.write('TITLE="Trajectories"\n')
     tr_f.write('VARIABLES="X", "Y", "Z"\n')
 
+    # Secondary impingement of faces (several drops can hit one face).
+    mimp2 = dict()
+
     # Check all faces.
     for f in g.Faces:
         stall_value = f['Stall']
@@ -293,7 +296,8 @@ def drops(grid_stall_file, grid_air_file, out_grid_file,
                 print('... secondary impingement '
                       'from face {0} to face {1}'.format(f.GloId, res[1].GloId))
                 tri2 = res[1].get_triangle()
-                res[1]['MImp2'] = (stall_value / tri2.area())
+                mimp2[res[1].GloId] = mimp2.get(res[1].GloId, 0.0) + stall_value / tri2.area()
+                res[1]['MImp2'] = mimp2[res[1].GloId]
 
     # Save grid back.
     g.convert_grid_stall_to_check_point()
-- 
2.43.0


From 388a9029345be79b1adb8f88d38b095b1ec9f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 27/43] fix: refine imports what exists and rebuilds faces that
 are still there

---
 crysgsu/refine.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index a716b13..f51685d 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -6,13 +6,9 @@ import os
 import time
 import functools
 import math
-from gsu.gsu import Grid
-from gsu.node import Node
-from gsu.edge import Edge
-from gsu.face import Face
-from geom.vect import Vect
-from geom.triangle import Triangle
-from geom.triangles_cloud import TrianglesCloud
+import geom
+from geom import Triangle, TrianglesCloud
+from gsu import Grid, Node
 
 
 def refine_grid(grid_file, out_grid_file):
@@ -48,12 +44,9 @@ def refine_grid(grid_file, out_grid_file):
         # Get all points.
         a, b, c = tri.a(), tri.b(), tri.c()
 
-        if not Triangle(a, b, point).area():
-            return [[a, b], c]
-        elif not Triangle(point, b, c).area():
-            return [[b, c], a]
-        else:
-            return [[c, a], b]
+        # The edge is the nearest one.
+        return min([[[a, b], c], [[b, c], a], [[c, a], b]],
+                   key=lambda e: Triangle(e[0][0], e[0][1], point).area() / e[0][0].dist_to(e[0][1]))
 
     # ----------------------------------------------------------------------------------------------
 
@@ -124,6 +117,10 @@ def refine_grid(grid_file, out_grid_file):
             face = tri.BackRef
             assert (face)
 
+            # объект мог быть уже перестроен вместе с соседом по ребру
+            if not any(f is face for f in g.Faces):
+                continue
+
             # analyze the intersection points for the triangle
             for point in intersection_points:
                 position_in_the_triangle = tri.point_in_triangle(point)
@@ -181,7 +178,10 @@ def refine_grid(grid_file, out_grid_file):
                             node2 = Node(n2)
                             ed = [ed for ed in face.Edges if (ed.Nodes[0].P == node1.P and ed.Nodes[1].P == node2.P) or
                                   (ed.Nodes[1].P == node1.P and ed.Nodes[0].P == node2.P)][0]
-                            g.cut_edge_with_two_nodes(ed, rebuilding_points[0][1], rebuilding_points[1][1])
+                            # точки должны идти от первой вершины ребра ко второй
+                            ps = sorted([rebuilding_points[0][1], rebuilding_points[1][1]],
+                                        key=lambda p: p.dist_to(ed.Nodes[0].P))
+                            g.cut_edge_with_two_nodes(ed, ps[0], ps[1])
 
                         else:
                             # TODO построить три новых треугольника в сетке на месте старого (две точки на двух ребрах)
@@ -243,7 +243,7 @@ def refine_grid(grid_file, out_grid_file):
     # сортировка списка треугольников по id
     res_intersect.sort(key=lambda list_of_tri_and_points: id(list_of_tri_and_points[0]))
     # первый элемент просто записываем в новый список
-    res_intersect_new_list = [res_intersect[0]]
+    res_intersect_new_list = res_intersect[:1]
     # остальные элементы сравниваем с предыдущими
     # если треугольники одинаковвые, то к предыдущему дописывем список точек
     # если треугольники разные - дописываем в новый список треугольник с точками
-- 
2.43.0


From ddc64bad8a0ed79715030e3f117793226efc524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 28/43] fix: cells of Lazurit blocks come in the order of their
 data

---
 crysgsu/convert/lazurit_to_crystal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crysgsu/convert/lazurit_to_crystal.py b/crysgsu/convert/lazurit_to_crystal.py
index 614dfd2..0d1106b 100644
--- a/crysgsu/convert/lazurit_to_crystal.py
+++ b/crysgsu/convert/lazurit_to_crystal.py
@@ -192,8 +192,9 @@ if __name__ == '__main__':
             of.write(' '.join(double_and_neg_list(selems[7 * hec: 8 * hec])) + '\n')
 
             # Печать линков.
-            for i in range(zone_i - 1):
-                for j in range(zone_j - 1):
+            # Порядок ячеек такой же, как и у данных (быстрее всего меняется индекс i).
+            for j in range(zone_j - 1):
+                for i in range(zone_i - 1):
                     ni00 = (i)     + (j)     * zone_i
                     ni01 = (i)     + (j + 1) * zone_i
                     ni10 = (i + 1) + (j)     * zone_i
-- 
2.43.0


From 5baa7d50cb66979dd462888ff00b0c5c0a6e8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 29/43] fix: names of Ansys variables can be separated by
 spaces

---
 crysgsu/convert/ansys_to_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 8a2f894..06c7c24 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -303,7 +303,7 @@ def filter_variables(filename, ofilename, variables_names):
                     if is_str_title(l):
                         of.write(l)
                     elif is_str_variables(l):
-                        fnames = l.split('=')[1].replace('"', '').split(',')
+                        fnames = [s.strip() for s in l.split('=')[1].replace('"', '').split(',')]
                         (fnames, mask) = variables_names_and_mask(fnames, variables_names)
                         filtered_names = filter_with_mask(fnames, mask)
                         joined_names = ', '.join(['"' + name + '"' for name in filtered_names])
-- 
2.43.0


From fad3efb7519ab1e607ade5f985a5de35537930db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 30/43] fix: angle between parallel vectors is a number

---
 crysgsu/geom/vect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index 57c74a6..d85bbfd 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -410,7 +410,8 @@ class Vect:
 
         """
 
-        return np.arccos(Vect.angle_cos(v1, v2))
+        # Cosine can leave [-1, 1] because of rounding.
+        return np.arccos(np.clip(Vect.angle_cos(v1, v2), -1.0, 1.0))
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 64182a11b29b08979a4bdce6b65cb9d175a15049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 31/43] fix: quality of triangle uses math.sqrt

---
 crysgsu/geom/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 3aa31e0..da85a9b 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -522,7 +522,7 @@ class Triangle:
         # Get all points.
         a, b, c = self.a(), self.b(), self.c()
 
-        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / sqrt(self.area())
+        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / math.sqrt(self.area())
 
 
 # ==================================================================================================
-- 
2.43.0


From a7d0f3ab1a78001988346154f1514303f733e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 32/43] fix: arrays of zone use a type numpy has

---
 crysgsu/gsu/zone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/zone.py b/crysgsu/gsu/zone.py
index 907bbdc..f20aa1b 100644
--- a/crysgsu/gsu/zone.py
+++ b/crysgsu/gsu/zone.py
@@ -205,10 +205,10 @@ class Zone:
         """
         gloids, ts, hws = list(), list(), list()
         his, htcs, betas = list(), list(), list()
-        mimp2s = np.zeros((len(self.Faces)), dtype=np.float)
-        vd2s =  np.zeros((len(self.Faces)), dtype=np.float)
+        mimp2s = np.zeros((len(self.Faces)), dtype=np.double)
+        vd2s =  np.zeros((len(self.Faces)), dtype=np.double)
         tauxs, tauys, tauzs = list(), list(), list()
-        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.float)
+        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.double)
 
         for f in self.Faces:
             gloids.append(f.GloId)
@@ -234,7 +234,7 @@ class Zone:
             n1, n2, n3 = f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId
             assert not n1 == n2 == n3
             connectivity_list.append([n1, n2, n3])
-        return np.array(connectivity_list, dtype=np.float)
+        return np.array(connectivity_list, dtype=np.double)
 
     def get_variable(self, name):
         """Return numpy array of variable values.
-- 
2.43.0


From b7444e29f255e8d495754bd0ebab7c4b92668f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 33/43] fix: atomic edits at existing nodes keep zones and do
 not double edges

A new point of an edit that coincides with an existing node reuses this node.
The node was not added to the zone of the edited face, and new edges could
double existing ones (or join a node with itself).  Such edits are refused,
as well as tightening an edge into a point where there is another node.
---
 crysgsu/gsu/grid.py | 120 ++++++++++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 42 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 618d928..ec57c28 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1274,6 +1274,50 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    def is_joinable(self, p, nodes):
+        """
+        Check if a point can be joined by new edges with all of the nodes.
+        If there is a node in this place already, it has to be another one, not joined with them.
+
+        Parameters
+        ----------
+        p: Vect
+        nodes: list of nodes
+
+        Returns: True - if new edges can be added,
+                 False - otherwise.
+        -------
+
+        """
+
+        node = self.find_near_node(gsu.Node(p))
+
+        return node is None or all((node is not n) and (Grid.find_edge(node, n) is None) for n in nodes)
+
+    # ----------------------------------------------------------------------------------------------
+
+    def add_node_to_zone(self, p, zone):
+        """
+        Add node to the grid and to the zone (if there is a node in this place, it is used).
+
+        Parameters
+        ----------
+        p: Vect
+        zone: Zone
+
+        Returns: node.
+        -------
+
+        """
+
+        node = self.add_node(gsu.Node(p), True)
+        if all(n is not node for n in zone.Nodes):
+            zone.add_node(node)
+
+        return node
+
+    # ----------------------------------------------------------------------------------------------
+
     def divide_face(self, face, p):
         """
 
@@ -1289,6 +1333,9 @@ class Grid:
 
         """
 
+        if not self.is_joinable(p, face.Nodes):
+            return False
+
         data = face.Data.copy()
         nodes = face.Nodes
         edges = face.Edges
@@ -1306,12 +1353,7 @@ class Grid:
         n1 = nodes[0]
         n2 = nodes[1]
         n3 = nodes[2]
-        n4 = gsu.Node(p)
-        node = self.add_node(n4, True)
-        if id(node) == id(n4):
-            zone.add_node(n4)
-        else:
-            n4 = node
+        n4 = self.add_node_to_zone(p, zone)
 
         # get edges
         e1 = Grid.find_edge(n1, n2)
@@ -1367,6 +1409,8 @@ class Grid:
         zone.add_edge(e5)
         zone.add_edge(e6)
 
+        return True
+
     # ----------------------------------------------------------------------------------------------
 
     def collapse_face(self, face):
@@ -1491,6 +1535,10 @@ class Grid:
 
         if len(edge.Faces) == 2:
 
+            # New edges must not double existing ones.
+            if not self.is_joinable(p, [n for f in edge.Faces for n in f.Nodes]):
+                return False
+
             # det all data and del from grid
             f1 = edge.Faces[0]
             f2 = edge.Faces[1]
@@ -1522,12 +1570,7 @@ class Grid:
             n2 = edge.Nodes[1]
             n3 = [i for i in f1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = [i for i in f2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
-            n5 = gsu.Node(p)
-            node = self.add_node(n5, True)
-            if id(node) == id(n5):
-                zone.add_node(n5)
-            else:
-                n5 = node
+            n5 = self.add_node_to_zone(p, zone)
 
             # Edges
             f1.Edges.remove(edge)
@@ -1696,6 +1739,11 @@ class Grid:
         """
 
         if len(edge.Faces) == 2 and Grid.is_collapsible(edge):
+            # There must not be another node in the new place.
+            node = self.find_near_node(gsu.Node(geom.Vect.middle_point(edge.Nodes[0].P, edge.Nodes[1].P)))
+            if node is not None and all(node is not n for n in edge.Nodes):
+                return False
+
             # det all data and del from grid
             f1 = edge.Faces[0]
             f2 = edge.Faces[1]
@@ -1774,6 +1822,10 @@ class Grid:
 
         if len(edge.Faces) == 1:
 
+            # New edges must not double existing ones.
+            if not self.is_joinable(p, [n for f in edge.Faces for n in f.Nodes]):
+                return False
+
             # det all data and del from grid
             face = edge.Faces[0]
             data = face.Data.copy()
@@ -1794,12 +1846,7 @@ class Grid:
             n1 = edge.Nodes[0]
             n2 = edge.Nodes[1]
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
-            n4 = gsu.Node(p)
-            node = self.add_node(n4, True)
-            if id(node) == id(n4):
-                zone.add_node(n4)
-            else:
-                n4 = node
+            n4 = self.add_node_to_zone(p, zone)
 
             # Edges
             face.Edges.remove(edge)
@@ -1875,6 +1922,15 @@ class Grid:
                n4       n5
         """
 
+        # New edges must not double existing ones.
+        nodes = [n for f in edge.Faces for n in f.Nodes]
+        node1, node2 = gsu.Node(p1), gsu.Node(p2)
+        near1, near2 = self.find_near_node(node1), self.find_near_node(node2)
+        if node1.RoundedCoords == node2.RoundedCoords \
+                or not self.is_joinable(p1, nodes) or not self.is_joinable(p2, nodes) \
+                or (near1 is not None and near2 is not None and Grid.find_edge(near1, near2) is not None):
+            return False
+
         if len(edge.Faces) == 1:
 
             # det all data and del from grid
@@ -1899,18 +1955,8 @@ class Grid:
             n1 = edge.Nodes[0]
             n2 = edge.Nodes[1]
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
-            n4 = gsu.Node(p1)
-            node = self.add_node(n4, True)
-            if id(node) == id(n4):
-                zone.add_node(n4)
-            else:
-                n4 = node
-            n5 = gsu.Node(p2)
-            node = self.add_node(n5, True)
-            if id(node) == id(n5):
-                zone.add_node(n5)
-            else:
-                n5 = node
+            n4 = self.add_node_to_zone(p1, zone)
+            n5 = self.add_node_to_zone(p2, zone)
 
             # Edges
             face.Edges.remove(edge)
@@ -2009,18 +2055,8 @@ class Grid:
             n2 = edge.Nodes[1]
             n3 = [i for i in face1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n6 = [i for i in face2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
-            n4 = gsu.Node(p1)
-            node = self.add_node(n4, True)
-            if id(node) == id(n4):
-                zone.add_node(n4)
-            else:
-                n4 = node
-            n5 = gsu.Node(p2)
-            node = self.add_node(n5, True)
-            if id(node) == id(n5):
-                zone.add_node(n5)
-            else:
-                n5 = node
+            n4 = self.add_node_to_zone(p1, zone)
+            n5 = self.add_node_to_zone(p2, zone)
 
             # Edges
             face1.Edges.remove(edge)
-- 
2.43.0


From 24ec85587b5c55a723e3b5343961e21717b0ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 34/43] fix: equal points of a refined face are found near zero
 coordinates too

---
 crysgsu/refine.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index f51685d..fca9726 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -5,7 +5,6 @@ refine grid from file
 import os
 import time
 import functools
-import math
 import geom
 from geom import Triangle, TrianglesCloud
 from gsu import Grid, Node
@@ -256,10 +255,7 @@ def refine_grid(grid_file, out_grid_file):
     # одинаковые точки нужно отсеять
     for j in res_intersect_new_list:
         j[1].sort()
-        j[1] = [j[1][0]] + [j[1][i] for i in range(1, len(j[1])) if
-                           not (math.isclose(j[1][i].X, j[1][i - 1].X) and
-                                math.isclose(j[1][i].Y, j[1][i - 1].Y) and
-                                math.isclose(j[1][i].Z, j[1][i - 1].Z))]
+        j[1] = [j[1][0]] + [j[1][i] for i in range(1, len(j[1])) if j[1][i] != j[1][i - 1]]
 
     # Поочереди перестраиваем все треугольники (если у них есть точки для перестроения)
     refine(g, res_intersect_new_list)
-- 
2.43.0


From de20b166884f0ba8fb997e6fad3e32230e5d0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 35/43] fix: names of files with wrong separators are not files
 of the solver

---
 crysgsu/utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crysgsu/utils.py b/crysgsu/utils.py
index 906eb8b..3deaaf3 100644
--- a/crysgsu/utils.py
+++ b/crysgsu/utils.py
@@ -40,7 +40,7 @@ def has_filename_timestamp(s):
     :return: True - if filename has timestamp, False - otherwise
     """
 
-    return re.search(r'_\d\d\d\d\d\d\d\d\d\d\d\d$', s) is not None
+    return re.search(r'_[0-9]{12}\Z', s) is not None
 
 # --------------------------------------------------------------------------------------------------
 
@@ -78,12 +78,12 @@ def dummy_split_filename(s):
 
     s, m, t, e = s[:-23], s[-22:-17], s[-16:-4], s[-3:]
 
-    if m.isdigit():
+    if m.isdecimal():
         md = int(m)
     else:
         md = None
 
-    if t.isdigit():
+    if t.isdecimal():
         td = int(t)
     else:
         td = None
@@ -102,9 +102,7 @@ def is_filename_correct_crys_cry_file(fn, stem):
     :return: True - if file is correct crys cry filename, False - otherwise
     """
 
-    s, m, t, e = dummy_split_filename(fn)
-
-    return (s == stem) and (m is not None) and (t is not None) and (e == 'cry')
+    return re.fullmatch(re.escape(stem) + r'_[0-9]{5}_[0-9]{12}\.cry', fn) is not None
 
 # --------------------------------------------------------------------------------------------------
 
@@ -118,9 +116,7 @@ def is_filename_correct_crys_txt_file(fn, stem):
     :return: True - if file is correct crys txt filename, False - otherwise
     """
 
-    s, m, t, e = dummy_split_filename(fn)
-
-    return (s == stem) and (m is not None) and (t is not None) and (e == 'txt')
+    return re.fullmatch(re.escape(stem) + r'_[0-9]{5}_[0-9]{12}\.txt', fn) is not None
 
 # --------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From ca21f4758f1a9bd002039948fe64fe1cb7c05fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 36/43] fix: product of two vectors is the dot product

---
 crysgsu/geom/vect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index d85bbfd..2bc29e4 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -227,11 +227,13 @@ class Vect:
 
     def __mul__(self, op):
         """
-        Multiplication vector on number.
+        Multiplication vector on number, or dot product of two vectors.
 
         :param op: Vect, float ot int.
-        :return:  Result (vector).
+        :return:  Result (vector, or number for dot product).
         """
+        if isinstance(op, Vect):
+            return Vect.dot_product(self, op)
         return Vect(self.X * op, self.Y * op, self.Z * op)
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From f0bc96bba692e542fd94dac537444f70a56abedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 37/43] fix: kernel does not write outside of arrays of
 different sizes

---
 crysgsu/cpp/src/swim.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crysgsu/cpp/src/swim.cpp b/crysgsu/cpp/src/swim.cpp
index 40de135..f849797 100644
--- a/crysgsu/cpp/src/swim.cpp
+++ b/crysgsu/cpp/src/swim.cpp
@@ -10,14 +10,19 @@ void hi(int n1, double *a1,
         int n2, double *a2,
         int n3, double *a3)
 {
-    (void) n2;
-    (void) n3;
-
+    // Arrays can have different sizes.
     for (int i = 0; i < n1; i++)
     {
         a1[i] += 1;
+    }
+
+    for (int i = 0; i < n2; i++)
+    {
         a2[i] += 2;
+    }
+
+    for (int i = 0; i < n3; i++)
+    {
         a3[i] += 3;
     }
-    
 }
-- 
2.43.0


From 7d6a0999ce6195e6448797c95b19c7d712a4cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 38/43] fix: results are loaded into faces with their
 identifiers after atomic edits

---
 crysgsu/gsu/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index ec57c28..d42e103 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1156,12 +1156,15 @@ class Grid:
         variables = line.split('=')[-1].replace('"', '').replace(',', '').split()[1:]
         line = f.readline()
 
+        # Faces can be in any order after atomic edits.
+        faces = {face.GloId: face for face in self.Faces}
+
         # Process all rest lines.
         while line:
             ss = line.split()
             glo_id = int(ss[0])
             values = [float(s) for s in ss[1:]]
-            face = self.Faces[glo_id]
+            face = faces[glo_id]
             face.Data = dict(zip(variables, values))
             line = f.readline()
 
-- 
2.43.0


From d37e6178f595410758b99d75e67349ee05656727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 39/43] fix: new zones of decompositions do not take names of
 fixed zones

---
 crysgsu/gsu/grid.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index d42e103..7ea8de7 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -2,8 +2,10 @@
 GSU main functions.
 """
 
+import itertools
 import random
 import math
+import re
 import utils
 import geom
 import gsu
@@ -1034,7 +1036,12 @@ class Grid:
         if levels < 1:
             raise Exception('It must be at least 1 level.')
 
-        zone = gsu.Zone('h')
+        # Names of new zones must not coincide with names of fixed zones.
+        new_zone_name = 'h'
+        while any(re.fullmatch(new_zone_name + '[lr]*', z.Name) for z in self.Zones):
+            new_zone_name += 'h'
+
+        zone = gsu.Zone(new_zone_name)
         self.Zones.append(zone)
         for face in self.Faces:
             if face.Zone is None:
@@ -1071,8 +1078,12 @@ class Grid:
         self.Zones = [z for z in self.Zones if z.IsFixed]
         fz_count = len(self.Zones)
         self.unlink_faces_from_zones()
-        for i in range(count):
-            zone = gsu.Zone('farhat ' + str(i))
+        # Names of new zones must not coincide with names of fixed zones.
+        fixed_names = [z.Name for z in self.Zones]
+        names = ('farhat ' + str(i) for i in itertools.count())
+        names = (name for name in names if name not in fixed_names)
+        for name in itertools.islice(names, count):
+            zone = gsu.Zone(name)
             self.Zones.append(zone)
 
         #
-- 
2.43.0


From db526ecd55124bc402d266237dbb7c2fbea266ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 40/43] fix: ansys converter stores coordinates and values
 without loss of precision

---
 crysgsu/convert/gsu_converter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index fade935..ba62faf 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -415,31 +415,31 @@ class Grid:
             fl.write('ZONETYPE=FETRIANGLE\n')
             fl.write('VARLOCATION=([4-9]=CELLCENTERED)\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.X)
+                fl.write('%.18e ' % n.Point.X)
             fl.write('\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.Y)
+                fl.write('%.18e ' % n.Point.Y)
             fl.write('\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.Z)
+                fl.write('%.18e ' % n.Point.Z)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.HTC)
+                fl.write('%.18e ' % f.HTC)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Beta)
+                fl.write('%.18e ' % f.Beta)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.X)
+                fl.write('%.18e ' % f.Tau.X)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.Y)
+                fl.write('%.18e ' % f.Tau.Y)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.Z)
+                fl.write('%.18e ' % f.Tau.Z)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.RecoveryFactor)
+                fl.write('%.18e ' % f.RecoveryFactor)
             fl.write('\n')
 
             # Осталось добавить линки.
-- 
2.43.0


From efafa9d8dce34bb27d19575c926b1f2c47c4bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 41/43] fix: a fixed zone named twice was counted as two when
 splitting

---
 crysgsu/split.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crysgsu/split.py b/crysgsu/split.py
index b4d4ed5..638d1ba 100644
--- a/crysgsu/split.py
+++ b/crysgsu/split.py
@@ -61,6 +61,9 @@ def split(grid_file,
         if not fz in grid_zones_names:
             raise Exception('crys-gsu-split : no zone with name "{0}" in the grid'.format(fz))
 
+    # Several heating elements can be in one zone.
+    fixed_zones = list(dict.fromkeys(fixed_zones))
+
     # Issue#12 recovery_factor support
     # Check recovery factor in grid faces data.
     # If there is no recovery factor in face, then add it.
-- 
2.43.0


From c18a18929d059b903e5f4a4fced81c1fa17eda26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 42/43] fix: without redistribution of the rest ice grew
 several times over its target

---
 crysgsu/remeshing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 696c7b5..4e0cf8b 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -545,6 +545,11 @@ class TongRemesher:
         for face in self.grid.Faces:
             face.ice_chunk = face.rest_ice / rest_iterations
 
+            # Without redistribution differences of volumes do not matter:
+            # the chunk is considered as accreted.
+            if not self.rest_volume_redistr:
+                face.rest_ice -= face.ice_chunk
+
     # ----------------------------------------------------------------------------------------------
 
     def null_space_smoothing(self):
-- 
2.43.0


From 785c91df5ca8f41ab3f2d033295a0fdead7bc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 43/43] fix: edits of a grid loaded without merging of nodes
 took the wrong one of two nodes of one place

---
 crysgsu/gsu/grid.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 7ea8de7..78f9bbd 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1242,6 +1242,22 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    def forget_place(self, node):
+        """
+        Forget the place of a node (if the grid was loaded without merging of nodes,
+        there can be other nodes in this place).
+
+        Parameters
+        ----------
+        node: Node
+
+        """
+
+        if all(n is node or not n.is_near(node) for n in self.Nodes):
+            self.RoundedCoordsBag.remove(node.RoundedCoords)
+
+    # ----------------------------------------------------------------------------------------------
+
     def del_node(self, node):
         """
 
@@ -1263,8 +1279,8 @@ class Grid:
                     face.Nodes.remove(node)
         for z in self.Zones:
             z.Nodes = [n for n in z.Nodes if n is not node]
-        self.Nodes.remove(node)
-        self.RoundedCoordsBag.remove(node.RoundedCoords)
+        self.forget_place(node)
+        self.Nodes = [n for n in self.Nodes if n is not node]
 
     # ----------------------------------------------------------------------------------------------
 
@@ -1652,7 +1668,7 @@ class Grid:
             zone2.add_edge(e45)
             if zone2 is not zone:
                 # New objects on the border of two zones belong to both of them.
-                if n5 not in zone2.Nodes:
+                if all(n is not n5 for n in zone2.Nodes):
                     zone2.add_node(n5)
                 zone2.add_edge(e15)
                 zone2.add_edge(e25)
@@ -1772,7 +1788,7 @@ class Grid:
 
             vect_coord_new_p = geom.Vect.middle_point(n1.P, n2.P)
 
-            self.RoundedCoordsBag.remove(n1.RoundedCoords)
+            self.forget_place(n1)
             n1.P = vect_coord_new_p
             n1.RoundedCoords = n1.P.rounded_coords_tuple(10)
             self.RoundedCoordsBag.add(n1.RoundedCoords)
-- 
2.43.0

