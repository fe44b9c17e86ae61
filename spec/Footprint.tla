----------------------------- MODULE Footprint -----------------------------
(* Which footprints the library promises to roof: a simple outer contour,
   counterclockwise, and simple clockwise holes strictly inside it, disjoint
   from each other and not nested.                                          *)
EXTENDS Geo

SimpleRing(ps) ==
  LET n == Len(ps)
  IN /\ n >= 3
     /\ \A i \in 1..n : ps[i] # ps[Nx(i, n)]
     /\ \A i \in 1..n : \A j \in (i + 1)..n :
          IF j = i + 1 \/ (i = 1 /\ j = n)
          THEN \* neighbours share exactly their common end
               LET a == IF j = i + 1 THEN ps[i] ELSE ps[n]
                   m == IF j = i + 1 THEN ps[j] ELSE ps[1]
                   b == IF j = i + 1 THEN ps[Nx(j, n)] ELSE ps[2]
               IN n = 3 \/ ~(Orient(a, m, b) = 0 /\ Dot(Sub(a, m), Sub(b, m)) > 0)
          ELSE ~Meet(ps[i], ps[Nx(i, n)], ps[j], ps[Nx(j, n)])

RingsApart(ps, qs) ==
  \A i \in 1..Len(ps) : \A j \in 1..Len(qs) :
    ~Meet(ps[i], ps[Nx(i, Len(ps))], qs[j], qs[Nx(j, Len(qs))])

ValidFootprint(cs) ==
  /\ \A c \in 1..Len(cs) : SimpleRing(cs[c])
  /\ AreaOf(cs[1]) > 0
  /\ \A h \in 2..Len(cs) :
       /\ AreaOf(cs[h]) < 0
       /\ PointIn(cs[h][1], cs[1])
       /\ RingsApart(cs[h], cs[1])
       /\ \A g \in 2..Len(cs) : g # h =>
            /\ RingsApart(cs[h], cs[g])
            /\ ~PointIn(cs[h][1], cs[g])

\* number of walls
WallCount(cs) == FoldLeft(LAMBDA a, c : a + Len(c), 0, cs)
=============================================================================
