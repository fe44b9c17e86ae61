------------------------------ MODULE Skeleton ------------------------------
(* What a correct straight skeleton of a footprint is.

   An observed skeleton is a record r with
     contours  rings of points (outer first), fixed-point
     ok        the call returned
     nodes     sequence of <<x, y, h>>
     arcs      sequence (same length) of sequences of ends: <<0, i>> is corner
               number i (corners numbered ring by ring, from 1), <<1, k>> is
               node k, <<2, 0>> is neither.                                  *)
EXTENDS Footprint

RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs) \o Flat(Tail(cs))
Corners(r) == TLCEval(Flat(r.contours))
WallSeq(r) ==      \* the walls as lines with precomputed length
  TLCEval(Flat([c \in 1..Len(r.contours) |->
                  LET ps == r.contours[c] n == Len(ps)
                  IN [i \in 1..n |-> LineOf(ps[i], ps[Nx(i, n)])]]))
Pt(r, cs, e) == IF e[1] = 0 THEN cs[e[2]] ELSE r.nodes[e[2]]
ArcSet(r) == UNION {{<<k, r.arcs[k][j]>> : j \in 1..Len(r.arcs[k])} : k \in 1..Len(r.arcs)}
ArcCount(r) == FoldLeft(LAMBDA a, s : a + Len(s), 0, r.arcs)

(* ---- C11: the skeleton as a graph ---- *)
EndsOK(r) == \A k \in 1..Len(r.arcs) : \A j \in 1..Len(r.arcs[k]) : r.arcs[k][j][1] < 2
\* r.ids[k]: the first node at exactly the place of node k
NodesDistinct(r) == \A k \in 1..Len(r.nodes) : r.ids[k] = k
\* every corner is the end of exactly one roof line
CornersOnce(r, n) == \A i \in 1..n :
  FoldLeft(LAMBDA a, s : a + Cardinality({j \in 1..Len(s) : s[j] = <<0, i>>}), 0, r.arcs) = 1
NoLoops(r) == \A k \in 1..Len(r.arcs) : \A j \in 1..Len(r.arcs[k]) : r.arcs[k][j] # <<1, k>>
\* no roof line listed twice (in either direction)
NoDouble(r) == \A k \in 1..Len(r.arcs) : \A i, j \in 1..Len(r.arcs[k]) :
                 /\ i # j => r.arcs[k][i] # r.arcs[k][j]
                 /\ r.arcs[k][i][1] = 1 /\ r.arcs[k][i][2] # k =>
                       \A m \in 1..Len(r.arcs[r.arcs[k][i][2]]) : r.arcs[r.arcs[k][i][2]][m] # <<1, k>>
\* nodes reached from the set f
RECURSIVE Reach(_, _, _)
Reach(nb, f, seen) == LET g == (UNION {nb[k] : k \in f}) \ seen
                      IN IF g = {} THEN seen ELSE Reach(nb, g, seen \cup g)
Neighbours(r) ==
  LET N == 1..Len(r.nodes)
      E == {<<k, e[2]>> : <<k, e>> \in {a \in ArcSet(r) : a[2][1] = 1}}
  IN TLCEval([k \in N |-> {e[2] : e \in {x \in E : x[1] = k}} \cup {e[1] : e \in {x \in E : x[2] = k}}])
Components(r) == LET nb == Neighbours(r) IN {Reach(nb, {k}, {k}) : k \in 1..Len(r.nodes)}
(* The roof of a dormer is a tree of its own: two nodes that hold the four
   corners of the bay, which turn right, left, left, right.                  *)
CornersOf(r, K) == {a[2][2] : a \in {x \in ArcSet(r) : x[1] \in K /\ x[2][1] = 0}}
TurnAt(ps, i) == LET n == Len(ps) IN Sgn(Orient(ps[Pv(i, n)], ps[i], ps[Nx(i, n)]))
DormerTree(r, K) ==
  LET ps == r.contours[1]
      n == Len(ps)
  IN /\ Cardinality(K) = 2
     /\ \E s \in 1..n :
          /\ n >= 8
          /\ CornersOf(r, K) = {((s + i - 1) % n) + 1 : i \in 0..3}
          /\ <<TurnAt(ps, s), TurnAt(ps, Nx(s, n)), TurnAt(ps, Nx(Nx(s, n), n)), TurnAt(ps, Nx(Nx(Nx(s, n), n), n))>>
                = <<-1, 1, 1, -1>>
(* Where two walls on one line become one moving line, the skeletons of the
   parts they close off need not touch.                                      *)
AlignedWalls(r) ==
  LET W == WallSeq(r)
  IN {<<i, j>> \in (1..Len(W)) \X (1..Len(W)) :
        /\ i < j
        /\ Dot(Sub(W[i][2], W[i][1]), Sub(W[j][2], W[j][1])) > 0
        /\ Abs(DistToLine(W[i], W[j][1])) <= 2 /\ Abs(DistToLine(W[i], W[j][2])) <= 2}
Connected(r) == LET C == TLCEval({K \in Components(r) : ~DormerTree(r, K)})
                IN Cardinality(C) <= 1 + (IF Cardinality(C) = 1 THEN 0 ELSE Cardinality(AlignedWalls(r)))
Cycles(r, n) == ArcCount(r) - (Len(r.nodes) + n) + Cardinality(Components(r)) = Len(r.contours) - 1
(* every node is the meeting point of at least three roof lines, or is passed
   by a straight one (walls on one line)                                     *)
Spokes(r, cs, k) == {r.arcs[k][j] : j \in 1..Len(r.arcs[k])}
                    \cup {<<1, m>> : m \in {x \in 1..Len(r.arcs) : \E j \in 1..Len(r.arcs[x]) : r.arcs[x][j] = <<1, k>>}}
DegreesOK(r, cs) ==
  \A k \in 1..Len(r.nodes) :
    LET E == TLCEval(Spokes(r, cs, k))
    IN \/ Cardinality(E) >= 3
       \/ /\ Cardinality(E) = 2
          /\ \A a, b \in E : a # b =>
               LET u == Sub(Pt(r, cs, a), r.nodes[k]) v == Sub(Pt(r, cs, b), r.nodes[k])
               IN Dot(u, v) < 0 /\ Abs(Cross(u, v)) <= (Norm1(u) + Norm1(v)) * 4
NoCrossing(r, cs) ==
  LET A == TLCEval(SetToSeq(ArcSet(r)))
      n == Len(A)
      p == TLCEval([i \in 1..n |-> r.nodes[A[i][1]]])
      q == TLCEval([i \in 1..n |-> Pt(r, cs, A[i][2])])
  IN \A i \in 1..n : \A j \in (i + 1)..n : ~CrossProperly(p[i], q[i], p[j], q[j], 4)

GraphFails(r) ==
  LET cs == Corners(r) n == Len(cs)
  IN IF ~r.ok THEN {"returns"}
     ELSE IF Len(r.nodes) = 0 \/ ~EndsOK(r) THEN {"ends"}
     ELSE (IF NodesDistinct(r) THEN {} ELSE {"nodes-distinct"})
          \cup (IF CornersOnce(r, n) THEN {} ELSE {"corners-once"})
          \cup (IF NoLoops(r) /\ NoDouble(r) THEN {} ELSE {"no-double"})
          \cup (IF Connected(r) THEN {} ELSE {"connected"})
          \cup (IF Cycles(r, n) THEN {} ELSE {"cycles"})
          \cup (IF DegreesOK(r, cs) THEN {} ELSE {"degree"})
          \cup (IF NoCrossing(r, cs) THEN {} ELSE {"crossing"})

(* ---- C09: heights are distances ---- *)
HTol == 5
Carriers(W, p) == {w \in 1..Len(W) : Abs(DistToLine(W[w], p) - p[3]) <= HTol}
AntiParallel(a, b) ==      \* the lines are parallel and the walls face each other
  LET u == Sub(a[2], a[1]) v == Sub(b[2], b[1])
  IN Dot(u, v) < 0 /\ Abs(Cross(u, v)) <= Norm1(u) * 2 + Norm1(v) * 2
EquiOK(r, W) ==
  \A k \in 1..Len(r.nodes) :
    LET C == TLCEval(Carriers(W, r.nodes[k]))
    IN \/ Cardinality(C) >= 3
       \/ \E a, b \in C : AntiParallel(W[a], W[b])
Inside(r) ==
  \A k \in 1..Len(r.nodes) :
    LET p == r.nodes[k]
    IN p[3] <= 8 \/
       /\ PointIn(p, r.contours[1])
       /\ \A h \in 2..Len(r.contours) : ~PointIn(p, r.contours[h])
Convex(r) == /\ Len(r.contours) = 1
             /\ LET ps == r.contours[1] n == Len(ps)
                IN \A i \in 1..n : Orient(ps[i], ps[Nx(i, n)], ps[Nx(Nx(i, n), n)]) > 0
MinDist(W, p) == FoldLeft(LAMBDA a, w : Mn(a, DistToLine(w, p)), 1000000, W)
LowerEnvelope(r, W) == \A k \in 1..Len(r.nodes) : Abs(MinDist(W, r.nodes[k]) - r.nodes[k][3]) <= HTol
Top(r) == FoldLeft(LAMBDA a, p : Mx(a, p[3]), 0, r.nodes)
\* no point of a grid over the footprint is farther from the walls than the highest node
Innermost(r, W) ==
  LET ps == r.contours[1]
      x0 == Min({ps[i][1] : i \in 1..Len(ps)}) x1 == Max({ps[i][1] : i \in 1..Len(ps)})
      y0 == Min({ps[i][2] : i \in 1..Len(ps)}) y1 == Max({ps[i][2] : i \in 1..Len(ps)})
      t == Top(r)
  IN \A i, j \in 1..15 :
       MinDist(W, <<x0 + ((x1 - x0) * i) \div 16, y0 + ((y1 - y0) * j) \div 16>>) <= t + HTol
\* the height of no node exceeds half the width of the footprint
HeightsPositive(r) == \A k \in 1..Len(r.nodes) : r.nodes[k][3] > 0
(* two ends of a roof line lie on the bisector of two common walls: both are
   at their own height from the lines of (at least) two common walls         *)
BisectorOK(r, cs, W) ==
  LET n == Len(cs)
      C == TLCEval([k \in 1..Len(r.nodes) |-> Carriers(W, r.nodes[k])])
      CC == TLCEval([i \in 1..n |-> Carriers(W, <<cs[i][1], cs[i][2], 0>>)])
  IN \A a \in ArcSet(r) :
       Cardinality(C[a[1]] \cap (IF a[2][1] = 0 THEN CC[a[2][2]] ELSE C[a[2][2]])) >= 2

HeightFails(r) ==
  LET cs == Corners(r) W == WallSeq(r)
  IN IF ~r.ok THEN {"returns"}
     ELSE IF Len(r.nodes) = 0 \/ ~EndsOK(r) THEN {"ends"}
     ELSE (IF EquiOK(r, W) THEN {} ELSE {"equidistant"})
          \cup (IF Inside(r) THEN {} ELSE {"inside"})
          \cup (IF HeightsPositive(r) THEN {} ELSE {"positive"})
          \cup (IF BisectorOK(r, cs, W) THEN {} ELSE {"bisector"})
          \cup (IF ~Convex(r) THEN {} ELSE
                (IF LowerEnvelope(r, W) THEN {} ELSE {"lower-envelope"})
                \cup (IF Innermost(r, W) THEN {} ELSE {"innermost"}))

(* ---- C23: the skeleton shown by the debug output and the roof ----
   r.verts, r.faces, r.nin, r.first: the roof of the same call (slope 1)     *)
RECURSIVE CornerIndex(_, _, _)
CornerIndex(r, c, i) ==     \* position in the vertex list of corner i counted from ring c on
  IF i <= Len(r.contours[c]) THEN r.first[c] + i - 1 ELSE CornerIndex(r, c + 1, i - Len(r.contours[c]))
DebugFails(r) ==
  IF ~r.ok THEN {"returns"}
  ELSE IF ~r.shown THEN {"not-shown"}
  ELSE IF Len(r.nodes) # Len(r.verts) - r.nin \/ ~EndsOK(r) THEN {"nodes"}
  ELSE LET n == Len(r.nodes)
           N == TLCEval([i \in 1..Len(Corners(r)) |-> CornerIndex(r, 1, i)])
           pos(e) == IF e[1] = 0 THEN N[e[2]] ELSE r.nin + e[2] - 1
           L == TLCEval({{r.nin + a[1] - 1, pos(a[2])} : a \in ArcSet(r)})
           walls == UNION {{{r.first[c] + i - 1, r.first[c] + (i % Len(r.contours[c]))} :
                              i \in 1..Len(r.contours[c])} : c \in 1..Len(r.contours)}
           at(i) == r.verts[i + 1]
           \* a face edge that joins several roof lines in a row: each of its
           \* inner points is a node near the edge
           Along(u, v) == \E w \in r.nin..(Len(r.verts) - 1) :
                            /\ w # u /\ w # v
                            /\ Dot(Sub(at(w), at(u)), Sub(at(v), at(u))) > 0
                            /\ Dot(Sub(at(w), at(v)), Sub(at(u), at(v))) > 0
                            /\ Abs(PerpDist(at(u), at(v), at(w))) <= 64 + Norm1(Sub(at(u), at(v))) \div 6
       IN (IF \A k \in 1..n : LET v == at(r.nin + k - 1) p == r.nodes[k]
                              IN Abs(v[1] - p[1]) <= 1 /\ Abs(v[2] - p[2]) <= 1 /\ Abs(v[3] - p[3]) <= 1
           THEN {} ELSE {"node-is-vertex"})
          \cup (IF \A k \in 1..Len(r.faces) : \A i \in 1..Len(r.faces[k]) :
                     LET u == r.faces[k][i] v == r.faces[k][Nx(i, Len(r.faces[k]))]
                     IN {u, v} \in L \/ {u, v} \in walls \/ (u < Len(r.verts) /\ v < Len(r.verts) /\ u # v /\ Along(u, v))
                THEN {} ELSE {"roof-line"})
=============================================================================
