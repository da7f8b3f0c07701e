From 594de049f1e404a2836ddbedbd22a59459425879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 1/2] fix: make the faces of a roof independent of the position
 of its vertices

The faces were traced in the iteration order of a set of vertex index pairs,
which depends on the index values. As the removal of spikes depends on the
order of the faces, the same footprint got different roofs, depending on the
number of vertices in front of it in the list <verts>.
---
 bpypolyskel/poly2FacesGraph.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/bpypolyskel/poly2FacesGraph.py b/bpypolyskel/poly2FacesGraph.py
index a854348..a28a4fd 100644
--- a/bpypolyskel/poly2FacesGraph.py
+++ b/bpypolyskel/poly2FacesGraph.py
@@ -34,10 +34,9 @@ class poly2FacesGraph:
     def add_edge(self, edge):
     # edge of type set, tuple or list,
     # loops are not allowed, but not tested. 
-        edge = set(edge)
-        if len(edge) == 2:  # exclude loops
-            vertex1 = edge.pop()
-            vertex2 = edge.pop()
+        edge = tuple(edge)
+        if len(edge) == 2 and edge[0] != edge[1]:  # exclude loops
+            vertex1, vertex2 = edge
             self.add_vertex(vertex1)
             self.add_vertex(vertex2)
             self.g_dict[vertex1].append(vertex2)
@@ -69,10 +68,12 @@ class poly2FacesGraph:
     def faces(self, embedding, nrOfPolyVerts):
         # adapted from SAGE's trace_faces
 
-        # establish set of possible edges
-        edgeset = set([])
+        # Establish set of possible edges. The keys of a dictionary keep their order of insertion,
+        # while the order of a set would depend on the values of the vertex indices.
+        edgeset = {}
         for edge in self.edges():
-            edgeset = edgeset.union( set([(edge[0],edge[1]),(edge[1],edge[0])]))
+            edgeset[(edge[0],edge[1])] = True
+            edgeset[(edge[1],edge[0])] = True
 
         # storage for face paths
         faces = []
@@ -80,7 +81,7 @@ class poly2FacesGraph:
         face_id = 0
         for edge in edgeset:
             path.append(edge)
-            edgeset -= set([edge])
+            del edgeset[edge]
             break  # (Only one iteration)
 
         # Trace faces
@@ -96,13 +97,13 @@ class poly2FacesGraph:
                 path = []
                 for edge in edgeset:
                     path.append(edge)
-                    edgeset -= set([edge])
+                    del edgeset[edge]
                     break  # (Only one iteration)
             else:
                 if tup in path:
                     raise Exception('Endless loop catched in poly2FacesGraph faces()') 
                 path.append(tup)
-                edgeset -= set([tup])
+                edgeset.pop(tup, None)
         if (len(path) != 0):
             # convert edge list in vertices list
             vert_list = [e[0] for e in path]
-- 
2.43.0


From b5631af4a368f2af2c7c17213766f7a0b693d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:17 +0000
Subject: [PATCH 2/2] fix: read the status of the last log entry completely
 without a final newline

---
 misc/get_osm_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/get_osm_files.py b/misc/get_osm_files.py
index f53ee66..397e7dd 100644
--- a/misc/get_osm_files.py
+++ b/misc/get_osm_files.py
@@ -21,7 +21,7 @@ with open(logFilepath, 'r') as logFile:
         # Position of the separator between the type of the OSM elemement (way or relation) and
         # the status string
         statusPosition = line.rfind('|')
-        status = line[statusPosition+1:-1]
+        status = line[statusPosition+1:].rstrip('\n')
         if status in ("Flat roof", "Not hipped roof"):
             continue
         # position of the separator between the osm id and the type of the OSM element (way or relation)
-- 
2.43.0

