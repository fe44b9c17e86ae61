From dc47291324d7b43734cb658f5a7355ac5064ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 01/26] fix: recompute the event of a vertex whose event
 partner is gone

Every vertex has only one event in the queue. When this was an edge event
and its partner had been consumed by an other event, the event was dropped
and the surviving vertex was left without any event. The skeleton then
missed its edge or split event, faces overlapped or had repeated vertices.
---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 60c9261..0c6dfa3 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -856,6 +856,10 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
+                   # the vertex that survives still needs an event of its own
+                   for vertex in (i.vertex_a, i.vertex_b):
+                       if vertex.is_valid:
+                           prioque.put(vertex.next_event())
                    continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
-- 
2.43.0


From 60fbc8fe59fb7fbd5bc1c95595c3b5fa7f779187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 02/26] fix: do not lose arcs to a merged node that equals one
 of its clustered nodes

Comparing vectors has a tolerance, so that the center of a cluster may equal
one of its nodes. A sink pointing to this node was then removed instead of
being redirected to the merged node.
---
 bpypolyskel/bpypolyskel.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 0c6dfa3..d5484d6 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -658,15 +658,10 @@ def mergeCluster(skeleton, cluster):
     # one of the clustered nodes, to the new node
     for arc in skeleton:
         if arc.source not in mergedSources:
-            to_remove = []
-            for i,sink in enumerate(arc.sinks):
-                if sink in mergedSources:
-                    if new_source in arc.sinks:
-                        to_remove.append(i)
-                    else: 
-                        arc.sinks[i] = new_source
-            for i in sorted(to_remove, reverse = True):
-                del arc.sinks[i]
+            sinks = [sink for sink in arc.sinks if sink not in mergedSources]
+            if len(sinks) < len(arc.sinks) and new_source not in sinks:
+                sinks.append(new_source)
+            arc.sinks[:] = sinks
 
     # remove clustered nodes from skeleton
     # and add the new node
-- 
2.43.0


From 036cebd4fdc3c1b9b8af17323fe850ec6cf37fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 03/26] fix: skip dormers whose bisectors do not intersect

handle_dormer_event() crashed with a TypeError for them.
---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index d5484d6..d9e8929 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -785,6 +785,8 @@ def processDormers(dormers,initialEvents):
             v_prev = ev_prev.vertex
             v_next = ev_next.vertex
             p = v_prev.bisector.intersect(v_next.bisector)
+            if p is None:   # bisectors do not meet, can't handle that dormer
+                continue
             d = dormer[1]/2.0
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
-- 
2.43.0


From 6d84bb1e6ef2a72e23d78827bf2e1357e00354c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 04/26] fix: use the distance to the polygon edges as height of
 a dormer's node

The split events of a dormer may have been computed for an other edge at an
other position. Their mean distance is then not the height of the node.
---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index d9e8929..211d608 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -331,7 +331,8 @@ class _SLAV:
         arcs.append( Subtree(ev_edge.intersection_point, ev_edge.distance, [ev_edge.vertex_a.point,ev_edge.vertex_b.point,p] ) )
 
         # from split events
-        arcs.append( Subtree(p, (ev_prev.distance+ev_next.distance)/2.0, [v_prev.point,v_next.point])   )
+        height = ( Line2(v_prev.edge_prev).distance(p) + Line2(v_next.edge_next).distance(p) )/2.0
+        arcs.append( Subtree(p, height, [v_prev.point,v_next.point])   )
     
         for v in toRemove:
             v.invalidate()
-- 
2.43.0


From 59835342477531e14d0ce1060d5f4fd6ba3cc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 05/26] fix: do not queue an event again whose vertices are
 gone

---
 bpypolyskel/bpypolyskel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 211d608..730e975 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -857,7 +857,10 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                    # the vertex that survives still needs an event of its own
                    for vertex in (i.vertex_a, i.vertex_b):
                        if vertex.is_valid:
-                           prioque.put(vertex.next_event())
+                           ev = vertex.next_event()
+                           # an event with a vertex that is gone would come back forever
+                           if not isinstance(ev, _EdgeEvent) or (ev.vertex_a.is_valid and ev.vertex_b.is_valid):
+                               prioque.put(ev)
                    continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
-- 
2.43.0


From 14f6d3bf5b7390e8450a70e3bb7a5322f46aa8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:13 +0000
Subject: [PATCH 06/26] fix: use the neighbours of the dormer itself to check
 its surroundings

---
 bpypolyskel/bpypolyskel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 730e975..e0dea62 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -763,8 +763,8 @@ def detectDormers(slav, edgeContours):
         d = abs(d1-d2)/(d1+d2)  # "contrast" of side edges lengths^2
         d3 = outerContour[(oi[0]+N-1)%N].length_squared()   # length^2 of previous edge
         d4 = outerContour[oi[3]].length_squared()           # length^2 of next edge
-        facLeft = 0.125 if sequence[(s+N-1)%N] != 'L' else 1.5
-        facRight = 0.125 if sequence[(s+4)%N] != 'L' else 1.5
+        facLeft = 0.125 if sequence[(oi[0]+N-1)%N] != 'L' else 1.5
+        facRight = 0.125 if sequence[(oi[0]+4)%N] != 'L' else 1.5
         if w < 100 and d < 0.35 and d3 >= w*facLeft and d4 >= w*facRight:
             dormers.append((oi,(outerContour[oi[1]].p1-outerContour[oi[1]].p2).magnitude))
             
-- 
2.43.0


From 0087c79b2946672def55bc959fd23ce04206c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 07/26] fix: keep a face's first wall edge when a spike inside
 the face is removed

---
 bpypolyskel/bpypolyskel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index e0dea62..6c688ba 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1108,8 +1108,12 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
             if rightIndx == leftIndx:   # single line into a face, but not separating it
                 commonFace = faces3D[rightIndx]
                 # remove the spike vertice and one of its neighbors
-                commonFace.remove(this)
-                commonFace.remove(prev)
+                peakIndex = commonFace.index(this)
+                del commonFace[peakIndex]
+                if commonFace[peakIndex-1] == prev: # keep an other visit of this neighbor in its place
+                    del commonFace[peakIndex-1]
+                else:
+                    commonFace.remove(prev)
                 if this in face:
                     face.remove(this)
                 break   # that's it for this face
-- 
2.43.0


From 14ca0025753fd8184adcd884b3573a8973fe9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 08/26] fix: rotate a merged face to a wall edge, not just to a
 wall vertex

---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 6c688ba..fe933e9 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1131,7 +1131,8 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
             mergedFace = rightFace + leftFace[1:]
 
             # rotate edge list so that edge of original polygon is first edge
-            nextOrigIndex = next(x[0] for x in enumerate(mergedFace) if x[0]<firstSkelIndex and x[1]< firstSkelIndex)
+            nextOrigIndex = next((i-1 for i,(p,n) in enumerate(_iterCircularPrevNext(mergedFace))\
+                                  if p < firstSkelIndex and n < firstSkelIndex), 0)
             mergedFace = mergedFace[nextOrigIndex:] + mergedFace[:nextOrigIndex]
 
             if mergedFace == face:  # no change, will result in endless loop
-- 
2.43.0


From ccedd32533e3f3097d174c1c730d06671c80f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 09/26] fix: keep the ridge when a dormer and the main roof
 vanish at the same height

---
 bpypolyskel/bpypolyskel.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index fe933e9..2d7f4fc 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -321,18 +321,26 @@ class _SLAV:
         v_prev.prev.next = v_next.next
         v_next.next.prev = v_prev.prev
 
+        p = v_prev.bisector.intersect(v_next.bisector)
+        sinks = [v_prev.point,v_next.point]
+
         new_lav = [_LAV.from_chain(lav.head, self)]
         self._lavs.remove(lav)
-        self._lavs.append(new_lav[0])
+        if len(new_lav[0]) > 2:
+            self._lavs.append(new_lav[0])
+        else:
+            # LAV has collapsed into the line, the dormer meets the main ridge at p
+            for v in list(new_lav[0]):
+                sinks.append(v.point)
+                v.invalidate()
 
-        p = v_prev.bisector.intersect(v_next.bisector)
         arcs = []
         # from edge event
         arcs.append( Subtree(ev_edge.intersection_point, ev_edge.distance, [ev_edge.vertex_a.point,ev_edge.vertex_b.point,p] ) )
 
         # from split events
         height = ( Line2(v_prev.edge_prev).distance(p) + Line2(v_next.edge_next).distance(p) )/2.0
-        arcs.append( Subtree(p, height, [v_prev.point,v_next.point])   )
+        arcs.append( Subtree(p, height, sinks)   )
     
         for v in toRemove:
             v.invalidate()
-- 
2.43.0


From 396424f7a5cb356f6afcba75ab2ecdb139236343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 10/26] fix: keep the corners of a bay in contour order when it
 wraps around the start

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 2d7f4fc..a601160 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -783,7 +783,7 @@ def processDormers(dormers,initialEvents):
     dormerEventIndices = []
     for dormer in dormers:
         dormerIndices = dormer[0]
-        d_events = [ev for i,ev in enumerate(initialEvents) if i in dormerIndices]
+        d_events = [initialEvents[i] for i in dormerIndices]   # in contour order, it may wrap around
         if all([(d is not None) for d in d_events]): # if all events are valid
             if  not isinstance(d_events[0], _SplitEvent) or \
                 not isinstance(d_events[1], _EdgeEvent) or \
-- 
2.43.0


From d9e2779cba472059ac958209d745ace137f69350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 11/26] fix: do not take a ring whose collapsed corner lies
 before the split point

---
 bpypolyskel/bpypolyskel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a601160..a24cd66 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -389,7 +389,12 @@ class _SLAV:
                 xprev	= (y.bisector.v.normalized()).cross((event.intersection_point - y.point).normalized()) <= EPSILON
                 xnext	= (x.bisector.v.normalized()).cross((event.intersection_point - x.point).normalized()) >= -EPSILON
 
-                if xprev and xnext:
+                # between two collapsing parallel edges the bisectors are antiparallel to the edge,
+                # the intersection point must not lie behind them
+                behind = any( abs(v.bisector.v.normalized().cross((event.intersection_point - v.point).normalized())) <= EPSILON and \
+                              v.bisector.v.dot(event.intersection_point - v.point) < -EPSILON for v in (x,y) )
+
+                if xprev and xnext and not behind:
                     break
                 else:
                     x = None
-- 
2.43.0


From f07270114cd69eddb9dd2ce50a8924899e650e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 12/26] fix: do not merge rings that were split from the same
 contour

---
 bpypolyskel/bpypolyskel.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a24cd66..99f88c7 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -214,6 +214,7 @@ class _LAV:
         self.head = None
         self._slav = slav
         self._len = 0
+        self.contours = set()   # contours of the polygon, whose vertices are part of this LAV
 
     @classmethod
     # edgeContour is a list of edges of class Edge2
@@ -289,6 +290,8 @@ class _LAV:
 class _SLAV:
     def __init__(self, edgeContours):
         self._lavs = [_LAV.from_polygon(edgeContour, self) for edgeContour in edgeContours]
+        for i, lav in enumerate(self._lavs):
+            lav.contours.add(i)
 
         # store original polygon edges for calculation of split events
         self._original_edges = [
@@ -325,6 +328,7 @@ class _SLAV:
         sinks = [v_prev.point,v_next.point]
 
         new_lav = [_LAV.from_chain(lav.head, self)]
+        new_lav[0].contours = lav.contours
         self._lavs.remove(lav)
         if len(new_lav[0]) > 2:
             self._lavs.append(new_lav[0])
@@ -378,6 +382,10 @@ class _SLAV:
         y = None  # previous vertex
         norm = event.opposite_edge.norm
         for v in chain.from_iterable(self._lavs):
+            # a LAV can only be merged with that of another contour
+            if v.lav != lav and not v.lav.contours.isdisjoint(lav.contours):
+                continue
+
             if norm == v.edge_prev.norm and event.opposite_edge.p1 == v.edge_prev.p1:
                 x = v
                 y = x.prev
@@ -419,6 +427,7 @@ class _SLAV:
 
         new_lavs = None
         self._lavs.remove(lav)
+        contours = lav.contours | x.lav.contours
         if lav != x.lav:
             # the split event actually merges two lavs
             self._lavs.remove(x.lav)
@@ -427,6 +436,7 @@ class _SLAV:
             new_lavs = [_LAV.from_chain(v1, self), _LAV.from_chain(v2, self)]
 
         for l in new_lavs:
+            l.contours = contours
             if len(l) > 2:
                 self._lavs.append(l)
                 vertices.append(l.head)
-- 
2.43.0


From 2ffdea08d8691584254550f86ae13f3cfc515cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 13/26] fix: removeGhosts lost or doubled roof lines that were
 there already

When the line from the nearer to the farther end existed, it was added once
more and then dropped with the next pair; pairs taken before a replacement
were used after it (ValueError); a first pair of corners hid the others.
---
 bpypolyskel/bpypolyskel.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 99f88c7..8166f71 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -522,6 +522,16 @@ def removeGhosts(skeleton):
     for arc in skeleton:
         if arc.source in arc.sinks:
             arc.sinks.remove(arc.source)
+
+    # replace the edges from an arc to nearSink and to farSink by the edge from nearSink to
+    # farSink, which may be in the skeleton already
+    def replaceEdges(arc, nearNode, nearSink, farSink):
+        arc.sinks.remove(farSink)
+        arc.sinks.remove(nearSink)
+        if farSink not in nearNode.sinks and \
+           not any(node.source == farSink and nearSink in node.sinks for node in skeleton):
+            nearNode.sinks.append(farSink)
+
     # find and resolve parallel or crossed skeleton edges
     for arc in skeleton:
         source = arc.source
@@ -548,14 +558,12 @@ def removeGhosts(skeleton):
 
                         nodeIndexList = [i for i, node in enumerate(skeleton) if node.source == nearSink]
                         if not nodeIndexList:   # both sinks point to polygon vertices (maybe small triangle)
-                            break
+                            continue
 
                         nodeIndex = nodeIndexList[0]
 
                         if dotCosineAbs < EPSILON:  # We have a ghost edge, sinks almost parallel
-                            skeleton[nodeIndex].sinks.append(farSink)
-                            arc.sinks.remove(farSink)
-                            arc.sinks.remove(nearSink)
+                            replaceEdges(arc, skeleton[nodeIndex], nearSink, farSink)
                             sinksAltered = True
                             break
                         else:   # maybe we have a spike that crosses other skeleton edges
@@ -563,11 +571,11 @@ def removeGhosts(skeleton):
                                 # Remove it here only, if it produces any crossing. 
                             for sink in skeleton[nodeIndex].sinks:
                                 if intersect(source, farSink, nearSink, sink):
-                                    skeleton[nodeIndex].sinks.append(farSink)
-                                    arc.sinks.remove(farSink)
-                                    arc.sinks.remove(nearSink)
+                                    replaceEdges(arc, skeleton[nodeIndex], nearSink, farSink)
                                     sinksAltered = True
                                     break
+                            if sinksAltered:    # the other pairs are out of date
+                                break
 
 def detectApses(outerContour):
     import re
-- 
2.43.0


From b0c356267b538cb86f9cb990e62ad59c6bb6648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 14/26] fix: a sharp corner of the footprint kept other spikes
 of its face

A spike that is part of the polygon can't be removed; the search ended there,
so that dead ends in the same face stayed.
---
 bpypolyskel/bpypolyskel.py | 42 +++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 8166f71..4166f93 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1111,31 +1111,31 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                 else:
                     continue
                 crossSine = s0.cross(s1)
-                if abs(dotCosine + 1.0) < PARALLEL and crossSine > -EPSILON: # spike edge to left
-                    # the spike's peak is at 'this'
-                    hadSpikes = True
-                    break
-                else:
-                   continue
+                if not (abs(dotCosine + 1.0) < PARALLEL and crossSine > -EPSILON): # no spike edge to left
+                    continue
+
+                # the spike's peak is at 'this'
+                # find faces adjacent to spike,
+                # on right side it must have adjacent vertices in the order 'this' -> 'prev',
+                # on left side it must have adjacent vertices in the order '_next' -> 'this',
+                rightIndx, leftIndx = (None,None)
+                for i,f in enumerate(faces3D):
+                    if [ p for p,n in _iterCircularPrevNext(f) if p == this and n== prev ]:
+                        rightIndx = i
+                    if [ p for p,n in _iterCircularPrevNext(f) if p == _next and n== this ]:
+                        leftIndx = i
+
+                # part of spike is original polygon and cant get removed,
+                # but there may be an other spike in this face
+                if rightIndx is None or leftIndx is None:
+                    continue
+
+                hadSpikes = True
+                break
 
             if not hadSpikes:
                 continue   # try next face
 
-            # find faces adjacent to spike,
-            # on right side it must have adjacent vertices in the order 'this' -> 'prev',
-            # on left side it must have adjacent vertices in the order '_next' -> 'this',
-            rightIndx, leftIndx = (None,None)
-            for i,f in enumerate(faces3D):
-                if [ p for p,n in _iterCircularPrevNext(f) if p == this and n== prev ]:
-                    rightIndx = i
-                if [ p for p,n in _iterCircularPrevNext(f) if p == _next and n== this ]:
-                    leftIndx = i
-
-            # part of spike is original polygon and cant get removed.
-            if rightIndx is None or leftIndx is None:
-                hadSpikes = False
-                continue
-
             if rightIndx == leftIndx:   # single line into a face, but not separating it
                 commonFace = faces3D[rightIndx]
                 # remove the spike vertice and one of its neighbors
-- 
2.43.0


From c80ace31c9d98affc2f3764777621fcafd632757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 15/26] fix: faces were merged at the wrong visit of a vertex

When the vertex next to a spike's peak is visited twice by the face, the face
was rotated to the first visit, which need not be the one next to the peak.
---
 bpypolyskel/bpypolyskel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 4166f93..655de07 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1149,14 +1149,14 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                     face.remove(this)
                 break   # that's it for this face
 
-            # rotate right face so that 'prev' is in first place
+            # rotate right face so that 'prev' is in first place, and 'this' in last place
             rightFace = faces3D[rightIndx]
-            rotIndex = next(x[0] for x in enumerate(rightFace)  if x[1] == prev )
+            rotIndex = next(i for i,(p,n) in enumerate(_iterCircularPrevNext(rightFace)) if p == this and n == prev )
             rightFace = rightFace[rotIndex:] + rightFace[:rotIndex]
 
-            # rotate left face so that 'this' is in first place
+            # rotate left face so that 'this' is in first place, and '_next' in last place
             leftFace = faces3D[leftIndx]
-            rotIndex = next(x[0] for x in enumerate(leftFace)  if x[1] == this )
+            rotIndex = next(i for i,(p,n) in enumerate(_iterCircularPrevNext(leftFace)) if p == _next and n == this )
             leftFace = leftFace[rotIndex:] + leftFace[:rotIndex]
 
             mergedFace = rightFace + leftFace[1:]
-- 
2.43.0


From 29e329949c4fd479c4460384479d3da5c12ec3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 16/26] fix: a spike folded back along a line took a vertex of
 the line with it

Only a dead end has its neighbor on both sides of the peak.
---
 bpypolyskel/bpypolyskel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 655de07..93d47e5 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1138,13 +1138,14 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
 
             if rightIndx == leftIndx:   # single line into a face, but not separating it
                 commonFace = faces3D[rightIndx]
-                # remove the spike vertice and one of its neighbors
+                # remove the spike vertice
                 peakIndex = commonFace.index(this)
                 del commonFace[peakIndex]
-                if commonFace[peakIndex-1] == prev: # keep an other visit of this neighbor in its place
-                    del commonFace[peakIndex-1]
-                else:
-                    commonFace.remove(prev)
+                if prev == _next:   # a dead end, remove one of its neighbors
+                    if commonFace[peakIndex-1] == prev: # keep an other visit of this neighbor in its place
+                        del commonFace[peakIndex-1]
+                    else:
+                        commonFace.remove(prev)
                 if this in face:
                     face.remove(this)
                 break   # that's it for this face
-- 
2.43.0


From c4cf6da53a94850f7f2c73ca7619d89a9f7e7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 17/26] fix: the height of an edge event was taken from one of
 its three edges only

---
 bpypolyskel/bpypolyskel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 93d47e5..4bac200 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -196,10 +196,14 @@ class _LAVertex:
         i_prev = self.bisector.intersect(self.prev.bisector)
         i_next = self.bisector.intersect(self.next.bisector)
 
+        # three edges meet in an edge event, the median is the most reliable of their distances to it
+        def height(p, *edges):
+            return sorted(Line2(edge).distance(p) for edge in edges)[1]
+
         if i_prev is not None:
-            events.append(_EdgeEvent(Line2(self.edge_prev).distance(i_prev), i_prev, self.prev, self))
+            events.append(_EdgeEvent(height(i_prev, self.prev.edge_prev, self.edge_prev, self.edge_next), i_prev, self.prev, self))
         if i_next is not None:
-            events.append(_EdgeEvent(Line2(self.edge_next).distance(i_next), i_next, self, self.next))
+            events.append(_EdgeEvent(height(i_next, self.edge_prev, self.edge_next, self.next.edge_next), i_next, self, self.next))
 
         if not events:
             return None
-- 
2.43.0


From 429b3ab34fdb00d1945f30b0519a309a5605fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 18/26] fix: the second vertex of a split that merges two rings
 got no event, so its event came too late or never

---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 4bac200..7e0262d 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -436,6 +436,8 @@ class _SLAV:
             # the split event actually merges two lavs
             self._lavs.remove(x.lav)
             new_lavs = [_LAV.from_chain(v1, self)]
+            # both new vertices are in the same lav, and need an event
+            vertices.append(v2)
         else:
             new_lavs = [_LAV.from_chain(v1, self), _LAV.from_chain(v2, self)]
 
-- 
2.43.0


From e3c185138b4626309553455fded2349a853ff45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 19/26] fix: a wall divided by many vertices on a straight line
 raised ZeroDivisionError

---
 bpypolyskel/bpyeuclid.py   | 3 +++
 bpypolyskel/bpypolyskel.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index 7d25e36..54503d6 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -102,6 +102,9 @@ def fitCircle3Points(points):
     z = complex(points[-1].x, points[-1].y)
     w = z-x
     w /= y-x
+    if not w.imag:
+        # points on a straight line
+        return None, None
     c = (x-y)*(w-abs(w)**2)/2j/w.imag-x
     x0 = -c.real
     y0 = -c.imag
diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7e0262d..7667810 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -608,7 +608,8 @@ def detectApses(outerContour):
             apseIndices = [ i%len(sequence) for i in range(*apse.span())]
             apseVertices = [outerContour[i].p1 for i in apseIndices]
             center, R = fitCircle3Points(apseVertices)
-            centers.append(center)
+            if center is not None:
+                centers.append(center)
     
     return centers
 
-- 
2.43.0


From ea65dfed905d992544afa0dcc7316140dfc3f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 20/26] fix: a roof line given twice made the tracing of faces
 run in circles

---
 bpypolyskel/poly2FacesGraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/poly2FacesGraph.py b/bpypolyskel/poly2FacesGraph.py
index a854348..43b7374 100644
--- a/bpypolyskel/poly2FacesGraph.py
+++ b/bpypolyskel/poly2FacesGraph.py
@@ -40,8 +40,9 @@ class poly2FacesGraph:
             vertex2 = edge.pop()
             self.add_vertex(vertex1)
             self.add_vertex(vertex2)
-            self.g_dict[vertex1].append(vertex2)
-            self.g_dict[vertex2].append(vertex1)
+            if vertex2 not in self.g_dict[vertex1]:
+                self.g_dict[vertex1].append(vertex2)
+                self.g_dict[vertex2].append(vertex1)
 
     def edges(self):
     # returns the edges of the graph
-- 
2.43.0


From adbbbaf848a831ce8683ce2f6d96ae9a3506e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 21/26] fix: nodes near an apse center at the same place, up to
 rounding, raised ZeroDivisionError

---
 bpypolyskel/bpypolyskel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7667810..e43d4f1 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -33,6 +33,7 @@ from .bpyeuclid import *
 from .poly2FacesGraph import poly2FacesGraph
 
 EPSILON = 0.00001
+SAMEPLACE = 0.0005
 PARALLEL = 0.01     # set this value to 1-cos(alpha), where alpha is the largest angle 
                     # between lines to accept them as parallelaccepted as 'parallel'.
 
@@ -640,6 +641,13 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
                     if isApseCluster:
                         break
                 if isApseCluster:
+                    # but nodes at the same place, up to rounding errors, have to become one
+                    while cluster:
+                        ref = skeleton[cluster[0]].source
+                        same = [node for node in cluster if (skeleton[node].source-ref).magnitude < SAMEPLACE]
+                        if len(same) > 1:
+                            clusters.append(same)
+                        cluster = [node for node in cluster if node not in same]
                     continue
 
             # detect sinks in this cluster, that are contour vertices of the footprint
-- 
2.43.0


From 75441e68cc5af330b10d590b5572d6d3916c9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 22/26] fix: an edge event whose vertices a split has separated
 was handled: corrupt rings

---
 bpypolyskel/bpypolyskel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index e43d4f1..9c6578a 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -899,8 +899,8 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         topEventList = prioque.getAllEqualDistance()
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
-                if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
-                   # the vertex that survives still needs an event of its own
+                if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
+                   # a vertex that survives, also one separated by a split, still needs an event of its own
                    for vertex in (i.vertex_a, i.vertex_b):
                        if vertex.is_valid:
                            ev = vertex.next_event()
-- 
2.43.0


From 94da67789b83e0993bf8c546b177ee0fae2c00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 23/26] fix: a dormer that was split before it vanished
 corrupted its ring, one that lost a corner kept the others without event

---
 bpypolyskel/bpypolyskel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 9c6578a..270aee7 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -914,7 +914,14 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                     continue
                 (arc, events) = slav.handle_split_event(i)
             elif isinstance(i, DormerEvent):
-                if not i.eventList[0].vertex.is_valid or not i.eventList[1].vertex.is_valid:
+                v_prev, v_next = i.eventList[0].vertex, i.eventList[1].vertex
+                if not v_prev.is_valid or not v_next.is_valid or v_prev.next.next.next is not v_next:
+                    # the dormer is not whole any more, the vertices that survive need events of their own
+                    for vertex in (v_prev, i.eventList[2].vertex_a, i.eventList[2].vertex_b, v_next):
+                        if vertex.is_valid:
+                            ev = vertex.next_event()
+                            if not isinstance(ev, _EdgeEvent) or (ev.vertex_a.is_valid and ev.vertex_b.is_valid):
+                                prioque.put(ev)
                     continue
                 (arc, events) = slav.handle_dormer_event(i)
             prioque.put_all(events)
-- 
2.43.0


From 4ea323aca2c4e7273032e7072c22e2f919166a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 24/26] fix: bisectors that meet where one of them starts
 missed each other by rounding errors

---
 bpypolyskel/bpypolyskel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 270aee7..9028d83 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -93,6 +93,10 @@ _OriginalEdge = namedtuple("_OriginalEdge", "edge bisector_prev, bisector_next")
 
 Subtree = namedtuple("Subtree", "source, height, sinks")
 
+# is the point <p> in front of the vertex, or at the same place up to rounding errors?
+def _approximately_ahead(p, vertex):
+    return (p-vertex.point).magnitude < 0.0001 or (p-vertex.point).dot(vertex.bisector.v) > 0.
+
 class _LAVertex:
     def __init__(self, point, edge_prev, edge_next, direction_vectors=None,forceConvex=False):
         # point is the vertex V(i)
@@ -194,8 +198,15 @@ class _LAVertex:
                     # Found valid candidate
                     events.append(_SplitEvent(Line2(edge.edge).distance(b), b, self, edge.edge))
 
-        i_prev = self.bisector.intersect(self.prev.bisector)
-        i_next = self.bisector.intersect(self.next.bisector)
+        # rays that meet where one of them starts may miss each other by rounding errors
+        def meet(other):
+            p = Line2(self.bisector).intersect(Line2(other.bisector))
+            if p is None or not all(_approximately_ahead(p, v) for v in (self,other)):
+                return None
+            return p
+
+        i_prev = meet(self.prev)
+        i_next = meet(self.next)
 
         # three edges meet in an edge event, the median is the most reliable of their distances to it
         def height(p, *edges):
-- 
2.43.0


From ffa089b1dc632b86727db1ad29f1e6dfa7f709ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 25/26] fix: bisectors on a common line met at an arbitrary
 point of it by rounding errors

---
 bpypolyskel/bpypolyskel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 9028d83..0bce609 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -198,8 +198,11 @@ class _LAVertex:
                     # Found valid candidate
                     events.append(_SplitEvent(Line2(edge.edge).distance(b), b, self, edge.edge))
 
-        # rays that meet where one of them starts may miss each other by rounding errors
+        # rays that meet where one of them starts may miss each other by rounding errors, and
+        # those on a common line seem to meet anywhere on it
         def meet(other):
+            if abs(self.bisector.v.normalized().cross(other.bisector.v.normalized())) < EPSILON:
+                return None
             p = Line2(self.bisector).intersect(Line2(other.bisector))
             if p is None or not all(_approximately_ahead(p, v) for v in (self,other)):
                 return None
-- 
2.43.0


From f29a4bc8f4c3dab608f0a3ccb480b465a8dd1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 26/26] fix: a reflex corner at the origin split walls in line
 with its own ones, the tolerance vanished there

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 0bce609..0732c0f 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -56,7 +56,7 @@ def _iterCircularPrevThisNext(lst):
     return zip(prevs, this, nexts)
     
 def _approximately_equals(a, b):
-    return a == b or ( (a-b).magnitude <= max( a.magnitude, b.magnitude) * 0.001)
+    return a == b or ( (a-b).magnitude <= max( max( a.magnitude, b.magnitude) * 0.001, EPSILON))
 
 def robustFloatEqual(f1,f2):
     if abs(f1-f2) <= EPSILON:
-- 
2.43.0

