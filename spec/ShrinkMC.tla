------------------------------ MODULE ShrinkMC ------------------------------
(* All behaviours of Shrink from a contour of N corners and holes of H corners,
   whatever the geometry: any piece of wall may vanish, any reflex vertex may run
   into any piece of wall.

   A vertex is reflex or not.  Corners may be either; a vertex that comes out of
   a split is not reflex; of the two vertices that meet where a piece of wall
   vanishes at most one is reflex, and only then may the new one be.          *)
EXTENDS Shrink
CONSTANTS N, H, MaxReflex      \* corners of the contour, of the holes <<h1, ..>>, number of reflex corners
HolesDef == <<3>>
NoHoles == <<>>
TwoHoles == <<3, 3>>

VARIABLES s, reflex, fresh, nodes, arcs, merges
vars == <<s, reflex, fresh, nodes, arcs, merges>>

Sizes == <<N>> \o H
Total == FoldSet(LAMBDA i, a : a + Sizes[i], 0, 1..Len(Sizes))
Start(k) == FoldSet(LAMBDA i, a : a + Sizes[i], 0, 1..(k - 1))
RingNo(v) == CHOOSE k \in 1..Len(Sizes) : Start(k) < v /\ v <= Start(k) + Sizes[k]
After(v) == LET k == RingNo(v) IN IF v = Start(k) + Sizes[k] THEN Start(k) + 1 ELSE v + 1
Before(v) == LET k == RingNo(v) IN IF v = Start(k) + 1 THEN Start(k) + Sizes[k] ELSE v - 1

\* wall v runs from corner v to the next one
Init == /\ s = [nx |-> [v \in 1..Total |-> After(v)], wl |-> [v \in 1..Total |-> <<Before(v), v>>], from |-> [v \in 1..Total |-> v]]
        /\ reflex \in {R \in SUBSET (1..Total) : Cardinality(R) <= MaxReflex /\ (Len(H) > 0 => R # {})}
        /\ fresh = Total + 1
        /\ nodes = 0 /\ arcs = 0 /\ merges = 0

Do(r, newreflex, m) == /\ s' = r[1]
                       /\ reflex' = newreflex \cap Verts(r[1])
                       /\ nodes' = nodes + 1
                       /\ arcs' = arcs + Cardinality(r[2])
                       /\ merges' = merges + m
                       /\ fresh' = fresh + 2
EdgeEvent == \E a \in Verts(s) :
  LET b == s.nx[a]
      r == Edge(s, a, b, fresh, fresh)
  IN /\ ~(a \in reflex /\ b \in reflex)
     /\ \/ Do(r, reflex, 0)
        \/ (a \in reflex \/ b \in reflex) /\ fresh \in Verts(r[1]) /\ Do(r, reflex \cup {fresh}, 0)
SplitEvent == \E v \in reflex : \E x \in Verts(s) :
  LET w == s.wl[x][1]
  IN /\ CanSplit(s, v, x, w)
     /\ w \notin {s.wl[v][1], s.wl[v][2]}
     /\ Do(Split(s, v, x, fresh, fresh + 1, fresh), reflex, IF x \in RingOf(s, v) THEN 0 ELSE 1)
Next == EdgeEvent \/ SplitEvent
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RingsInv == Rings(s)
LinkedInv == Linked(s)
\* the number of roof lines, nodes, vertices and rings are tied to each other
EulerInv == arcs - (Total + nodes) + Cardinality(Verts(s)) - Cardinality(RingSet(s)) = -Len(Sizes) + 2 * merges
\* when nothing is left, every hole having been joined once, the skeleton has one independent cycle per hole
CyclesInv == Verts(s) = {} /\ merges = Len(H) => arcs - (Total + nodes) + 1 = Len(H)
\* every event removes a reflex vertex or a vertex: shrinking comes to an end
Measure == Cardinality(reflex) * 100 + Cardinality(Verts(s))
Shrinks == [][Cardinality(reflex') < Cardinality(reflex) \/ (reflex' = reflex /\ Cardinality(Verts(s')) < Cardinality(Verts(s)))
              \/ (Cardinality(reflex') <= Cardinality(reflex) /\ Cardinality(Verts(s')) < Cardinality(Verts(s)))]_vars
=============================================================================
