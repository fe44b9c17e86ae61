-------------------------------- MODULE Roof --------------------------------
(* What a correct roof is, independently of how it was computed.

   An observed call is a record r with
     contours  sequence of rings of points (outer first), fixed-point
     first     for every ring, the 0-based position of its block in the
               vertex list
     nin       length of the vertex list before the call
     ok        the call returned
     verts     the vertex list afterwards, <<x, y, z>> relative to the base
               elevation
     faces     the faces the call added, sequences of 0-based indices
     tn, td    slope: tangent of the roof pitch = tn / td

   Argument for the tiling: if every directed edge of the faces occurs once,
   the walls occur only in their own direction and every other edge occurs
   with its reverse, then the boundary chain of the sum of all faces is the
   footprint's boundary; if in addition every face is a simple
   counterclockwise polygon, the number of faces over a point equals the
   winding number of the footprint's boundary around it: one inside the
   footprint, zero outside and over holes.                                  *)
EXTENDS Footprint

CrossMargin == 4

RingWalls(first, n) == {<<first + i - 1, first + (i % n)>> : i \in 1..n}
WallsOf(r) == UNION {RingWalls(r.first[c], Len(r.contours[c])) : c \in 1..Len(r.contours)}

FaceEdges(f) == {<<f[i], f[Nx(i, Len(f))]>> : i \in 1..Len(f)}
DirEdges(fs) == UNION {FaceEdges(fs[k]) : k \in 1..Len(fs)}
EdgeTotal(fs) == FoldLeft(LAMBDA a, f : a + Len(f), 0, fs)
Rev(e) == <<e[2], e[1]>>

V(r, i) == r.verts[i + 1]
Ring(r, f) == TLCEval([i \in 1..Len(f) |-> V(r, f[i])])

WallVertices(r) == UNION {{r.first[c] + i - 1 : i \in 1..Len(r.contours[c])} :
                          c \in 1..Len(r.contours)}

IndicesOK(r) ==
  LET wv == WallVertices(r)
  IN \A k \in 1..Len(r.faces) : \A i \in 1..Len(r.faces[k]) :
       LET x == r.faces[k][i]
       IN x \in wv \/ (x >= r.nin /\ x < Len(r.verts))

DistinctOK(r) == \A k \in 1..Len(r.faces) :
                   LET f == r.faces[k]
                   IN Len(f) >= 3 /\ Cardinality({f[i] : i \in 1..Len(f)}) = Len(f)

BaseOK(r, W) == \A k \in 1..Len(r.faces) :
                  LET f == r.faces[k] IN Len(f) >= 2 /\ <<f[1], f[2]>> \in W

\* two walls on one line, in the same direction, may share one (flat) face
SameLine(r, w1, w2) ==
  LET a == V(r, w1[1]) b == V(r, w1[2]) c == V(r, w2[1]) d == V(r, w2[2])
  IN /\ Dot(Sub(b, a), Sub(d, c)) > 0
     /\ Abs(PerpDist(a, b, c)) <= 2 /\ Abs(PerpDist(a, b, d)) <= 2

(* every wall has its face: it is the first edge of exactly one face, or it
   lies, on the line of that face's first edge, in exactly one face         *)
OneEachOK(r, W) ==
  /\ \A w \in W : Cardinality({k \in 1..Len(r.faces) : w \in FaceEdges(r.faces[k])}) = 1
  /\ \A k \in 1..Len(r.faces) :
       LET f == r.faces[k]
           own == FaceEdges(f) \cap W
       IN own # {} /\ \A w \in own : w = <<f[1], f[2]>> \/ SameLine(r, <<f[1], f[2]>>, w)

ManifoldOK(r, W) ==
  LET D == TLCEval(DirEdges(r.faces))
  IN /\ EdgeTotal(r.faces) = Cardinality(D)
     /\ W \subseteq D
     /\ \A e \in D : IF e \in W THEN Rev(e) \notin D ELSE Rev(e) \in D

CCWOK(r) == \A k \in 1..Len(r.faces) : AreaOf(Ring(r, r.faces[k])) > 0

SimpleFace(ps) ==
  LET n == Len(ps)
  IN \A i \in 1..(n - 2) : \A j \in (i + 2)..n :
       (i = 1 /\ j = n) \/
       ~CrossProperly(ps[i], ps[i + 1], ps[j], ps[Nx(j, n)], CrossMargin)
SimpleOK(r) == \A k \in 1..Len(r.faces) : SimpleFace(Ring(r, r.faces[k]))

(* every vertex of a face lies in the plane rising from the face's wall      *)
(* tolerance: r.tol fixed-point units horizontally plus 2 in elevation *)
InPlane(r, l, v) == Abs(DistToLine(l, v) * r.tn - v[3] * r.td) <= r.tol * r.tn + 2 * r.td
PlaneOK(r) ==
  \A k \in 1..Len(r.faces) :
    LET f == r.faces[k]
        l == TLCEval(LineOf(V(r, f[1]), V(r, f[2])))
    IN \A i \in 1..Len(f) : InPlane(r, l, V(r, f[i]))
\* the walls themselves stay at the base elevation
WallsAtBase(r) == \A i \in WallVertices(r) : Abs(V(r, i)[3]) <= 1

(* The clauses.  Later clauses presuppose that indices make sense.           *)
Guarded(r, cl) == IF ~r.ok THEN {"returns"}
                  ELSE IF ~IndicesOK(r) \/ \E k \in 1..Len(r.faces) : r.faces[k] = <<>>
                  THEN {"indices"} ELSE cl

TilingFails(r) ==
  LET W == TLCEval(WallsOf(r))
  IN Guarded(r, (IF ManifoldOK(r, W) THEN {} ELSE {"manifold"})
        \cup (IF CCWOK(r) THEN {} ELSE {"ccw"})
        \cup (IF SimpleOK(r) THEN {} ELSE {"simple"}))

FacesFails(r) ==
  LET W == TLCEval(WallsOf(r))
  IN Guarded(r, (IF DistinctOK(r) THEN {} ELSE {"distinct"})
        \cup (IF BaseOK(r, W) THEN {} ELSE {"base"})
        \cup (IF BaseOK(r, W) /\ OneEachOK(r, W) THEN {} ELSE {"one-per-wall"}))

PlaneFails(r) ==
  LET W == TLCEval(WallsOf(r))
  IN Guarded(r, (IF BaseOK(r, W) /\ PlaneOK(r) THEN {} ELSE {"plane"})
        \cup (IF WallsAtBase(r) THEN {} ELSE {"walls-at-base"}))

(* The least a roof is: the call returned in time, and there are faces, each
   with three or more different and valid indices.                           *)
ExistsFails(r) ==
  IF ~r.ok THEN {"returns"}
  ELSE (IF Len(r.faces) > 0 THEN {} ELSE {"no-face"})
       \cup (IF \A k \in 1..Len(r.faces) : Cardinality({r.faces[k][i] : i \in 1..Len(r.faces[k])}) >= 3 THEN {} ELSE {"fewer-than-three"})
       \cup (IF IndicesOK(r) THEN {} ELSE {"indices"})
=============================================================================
