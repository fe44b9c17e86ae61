---------------------------- MODULE ShrinkTrace ----------------------------
(* Replays recorded shrinkings on the transition system Shrink and on the
   specification of the event queue, and looks at the outline between the events.

   A record has
     contours   the footprint; wall k starts at the k-th corner of all contours
     rings      the initial rings, sequences of vertices <<id, wall before, wall
                after, place>>
     steps      the handled events: kind, height, the vertices (edge: a, b;
                split: v and the wall w it runs into), whether a node was added,
                the nodes with the places joined, and the rings afterwards
     queue      the operations on the event queue: <<"put", n, h>>: event number n
                with height h in 1e-5 units; <<"take", n1, n2, ..>>
     probes     outlines at heights between the events: vertices <<x, y, exact,
                wall after>>
     ends       the places of the vertices of the rings left when the processing
                ended: only rings that shrank to a point may be left
     dormers    dormers were recognized: their events link walls on a common line
     doubled    (rectilinear footprints) the rings in doubled lattice units, and
                the probes at whole odd heights                              *)
EXTENDS Shrink, Records
G == INSTANCE Geo
E == INSTANCE Erosion
O == INSTANCE Outline

(* A dormer vanishes at once; the walls on its two sides, which lie on a common
   line, are one wall from then on.  wall -> the number that stands for it.   *)
StepsOfKind(r, k) == {i \in 1..Len(r.steps) : r.steps[i].kind = k}
Gaps(rs) == UNION {{<<rs[k][i][3], rs[k][IF i = Len(rs[k]) THEN 1 ELSE i + 1][2]>> : i \in 1..Len(rs[k])} : k \in 1..Len(rs)}
RECURSIVE Alike(_, _)
Alike(P, S) == LET g == {p[2] : p \in {q \in P : q[1] \in S}} \ S IN IF g = {} THEN S ELSE Alike(P, S \cup g)
SameWalls(r) ==
  LET P == {p \in UNION {Gaps(r.steps[i].rings) : i \in StepsOfKind(r, "dormer")} : p[1] # p[2]}
      Q == P \cup {<<p[2], p[1]>> : p \in P}
      n == FoldLeft(LAMBDA a, c : a + Len(c), 0, r.contours)
  IN [w \in 1..n |-> Min(Alike(Q, {w}))]

\* ---- states from recorded rings
StateOf(rs, same) ==
  LET vs == UNION {{rs[k][i] : i \in 1..Len(rs[k])} : k \in 1..Len(rs)}
      at(v) == CHOOSE w \in vs : w[1] = v
      links == UNION {{<<rs[k][i][1], rs[k][IF i = Len(rs[k]) THEN 1 ELSE i + 1][1]>> : i \in 1..Len(rs[k])} : k \in 1..Len(rs)}
      ids == {v[1] : v \in vs}
      rec == [v \in ids |-> at(v)]
  IN [nx |-> [v \in ids |-> (CHOOSE l \in links : l[1] = v)[2]],
      wl |-> [v \in ids |-> <<same[rec[v][2]], same[rec[v][3]]>>],
      from |-> [v \in ids |-> rec[v][4]]]
\* every vertex stands in one ring, once
Clean(rs) == LET all == FoldLeft(LAMBDA a, r : a \o [i \in 1..Len(r) |-> r[i][1]], <<>>, rs)
             IN Cardinality({all[i] : i \in 1..Len(all)}) = Len(all)

Joined(st, s, ends) == /\ Len(st.nodes) = 1
                       /\ Range(st.nodes[1][2]) = {s.from[v] : v \in ends}
Place(st) == IF Len(st.nodes) = 1 THEN st.nodes[1][1] ELSE 0

StepOK(s, st, t, same) ==
  IF ~st.done THEN t = s /\ st.nodes = <<>>
  ELSE LET new == Verts(t) \ Verts(s)
       IN CASE st.kind = "edge" ->
                 /\ CanEdge(s, st.a, st.b)
                 /\ \E c \in new \cup {-1} :
                      LET r == Edge(s, st.a, st.b, c, Place(st))
                      IN r[1] = t /\ Joined(st, s, r[2])
            [] st.kind = "split" ->
                 \E x \in {y \in Verts(s) : CanSplit(s, st.v, y, same[st.w])} :
                 \E c \in new \cup {-1}, d \in new \cup {-2} :
                   /\ c # d
                   /\ LET r == Split(s, st.v, x, c, d, Place(st))
                      IN r[1] = t /\ Joined(st, s, r[2])
            [] OTHER -> TRUE

\* ---- the queue: what is pending, and what a take must give
RECURSIVE QueueOK(_, _, _, _)
QueueOK(ops, i, pend, lax) ==
  IF i > Len(ops) THEN TRUE
  ELSE LET o == ops[i]
       IN IF o[1] = "put" THEN o[2] \notin DOMAIN pend /\ QueueOK(ops, i + 1, pend @@ (o[2] :> o[3]), lax)
          ELSE LET got == {o[k] : k \in 2..Len(o)}
                   h == Min({pend[e] : e \in DOMAIN pend})
               IN /\ got # {} /\ got \subseteq DOMAIN pend /\ Cardinality(got) = Len(o) - 1
                  /\ pend[o[2]] <= h + 1
                  /\ \A k \in 2..(Len(o) - 1) : pend[o[k]] <= pend[o[k + 1]] + 1
                  /\ \A e \in DOMAIN pend : /\ pend[e] <= h + 98 => e \in got
                                            /\ e \in got => pend[e] <= h + 102
                  /\ QueueOK(ops, i + 1, [e \in DOMAIN pend \ got |-> pend[e]], lax)

\* ---- the outline between events
Corners(r) == FoldLeft(LAMBDA a, c : a \o c, <<>>, r.contours)
WallVec(r) ==      \* wall number -> its vector
  LET C == Corners(r)
      starts == [c \in 1..Len(r.contours) |-> FoldSet(LAMBDA i, a : a + Len(r.contours[i]), 0, 1..(c - 1))]
  IN FoldLeft(LAMBDA acc, c : acc \o [i \in 1..Len(r.contours[c]) |->
                G!Sub(r.contours[c][IF i = Len(r.contours[c]) THEN 1 ELSE i + 1], r.contours[c][i])], <<>>, [c \in 1..Len(r.contours) |-> c])
Tol == 8
Pieces(ring) == {i \in 1..Len(ring) : ring[i][3] = 1 /\ ring[IF i = Len(ring) THEN 1 ELSE i + 1][3] = 1}
NxI(ring, i) == IF i = Len(ring) THEN 1 ELSE i + 1
NotFlipped(ring, W) == \A i \in Pieces(ring) :
  LET d == W[ring[i][4]]
  IN G!Dot(G!Sub(ring[NxI(ring, i)], ring[i]), d) >= -Tol * G!Norm1(d)
\* the pieces of wall of an outline do not cross
NotCrossing(rs) ==
  LET P == UNION {{<<rs[k][i], rs[k][NxI(rs[k], i)]>> : i \in Pieces(rs[k])} : k \in 1..Len(rs)}
  IN \A a \in P : \A b \in P : ~G!CrossProperly(a[1], a[2], b[1], b[2], 6)
ProbeOK(p, W) == /\ \A k \in 1..Len(p.rings) : NotFlipped(p.rings[k], W)
                 /\ NotCrossing(p.rings)

(* A vertex may fail to split its own ring only if the place is not well inside
   any piece of that wall, or if it ends at that height in another way (when
   several events coincide).                                                  *)
Refused(st, W) ==
  \A k \in 1..Len(st.could) :
    LET y == st.could[k][1] x == st.could[k][2] d == W[st.w]
        m == 20 * G!Norm1(d)
    IN y[3] = 1 /\ x[3] = 1 => ~(/\ G!Dot(G!Sub(st.at, y), d) > m /\ G!Dot(G!Sub(x, st.at), d) > m)

\* rectilinear: the walls of the outline are those of the eroded footprint
PM == 1000
UnitWalls(a, b) ==
  LET dx == b[1] - a[1] dy == b[2] - a[2]
      sx == IF dx > 0 THEN 1 ELSE IF dx < 0 THEN -1 ELSE 0
      sy == IF dy > 0 THEN 1 ELSE IF dy < 0 THEN -1 ELSE 0
      n == IF dx = 0 THEN (IF dy < 0 THEN -dy ELSE dy) ELSE (IF dx < 0 THEN -dx ELSE dx)
  IN {<<PM * (a[1] + i * sx) + a[2] + i * sy, PM * (a[1] + (i + 1) * sx) + a[2] + (i + 1) * sy>> : i \in 0..(n - 1)}
LatticeRing(ring) == \A i \in 1..Len(ring) : /\ ring[i][3] = 1
                                             /\ LET q == ring[NxI(ring, i)] IN ring[i][1] = q[1] \/ ring[i][2] = q[2]
RectOK(r) ==
  IF ~("doubled" \in DOMAIN r) THEN TRUE
  ELSE LET Ls == E!Layers(E!Cells(r.doubled))
       IN \A k \in 1..Len(r.at) :
            LET p == r.at[k]
                want == IF p.h + 1 <= Len(Ls) THEN O!Walls(Ls[p.h + 1]) ELSE {}
                parts == [j \in 1..Len(p.rings) |-> p.rings[j]]
                got == UNION {UNION {UnitWalls(parts[j][i], parts[j][NxI(parts[j], i)]) : i \in 1..Len(parts[j])} : j \in 1..Len(parts)}
            IN (\A j \in 1..Len(parts) : LatticeRing(parts[j])) /\ got = want

EndsSoon(r, S, clean, i) ==
  /\ clean
  /\ \E j \in (i + 1)..Len(r.steps) : /\ r.steps[j].done /\ r.steps[j].h <= r.steps[i].h + 1000
                                      /\ r.steps[i].v \in Verts(S[j - 1]) \ Verts(S[j])

\* ---- verdict
Fails(r) ==
  IF ~r.ok THEN {"returns"}
  ELSE LET n == Len(r.steps)
           ringsAt == [i \in 0..n |-> IF i = 0 THEN r.rings ELSE r.steps[i].rings]
           clean == \A i \in 0..n : Clean(ringsAt[i])
           same == TLCEval(SameWalls(r))
           S == IF clean THEN TLCEval([i \in 0..n |-> StateOf(ringsAt[i], same)]) ELSE <<>>
           done == {i \in 1..n : r.steps[i].done}
           W == TLCEval(WallVec(r))
       IN (IF ~clean THEN {"rings"}
           ELSE (IF \A i \in 0..n : Rings(S[i]) /\ Linked(S[i]) /\ Proper(S[i]) THEN {} ELSE {"rings"})
                \cup (IF \A i \in 1..n : StepOK(S[i - 1], r.steps[i], S[i], same) THEN {} ELSE {"step"})
                \cup (IF r.dormers \/ \A i \in 1..Len(r.probes) : ProbeOK(r.probes[i], W) THEN {} ELSE {"outline"})
                \cup (IF RectOK(r) THEN {} ELSE {"eroded"}))
          \cup (IF \A i \in done : \A j \in done : i < j => r.steps[j].h >= r.steps[i].h - 1000 THEN {} ELSE {"order"})
          \cup (IF \A i \in 1..n : r.steps[i].kind = "split" /\ ~r.steps[i].done => Refused(r.steps[i], W) \/ EndsSoon(r, S, clean, i) THEN {} ELSE {"refused"})
          \cup (IF QueueOK(r.queue, 1, <<>>, r.dormers) THEN {} ELSE {"queue"})
          \cup (IF \A k \in 1..Len(r.ends) : \A i, j \in 1..Len(r.ends[k]) : G!Norm1(G!Sub(r.ends[k][i], r.ends[k][j])) <= 13 THEN {} ELSE {"left"})
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
