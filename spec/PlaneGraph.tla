----------------------------- MODULE PlaneGraph -----------------------------
(* Connected planar graphs with straight edges, and their faces.

   P is a sequence of lattice points, an edge a set of two indices.  The faces
   are the orbits of the half-edges <<u, v>> under Follow: arrive at v from u
   and leave by the next edge clockwise.                                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

GD(P, u, v) == <<P[v][1] - P[u][1], P[v][2] - P[u][2]>>
GCross(a, b) == a[1] * b[2] - a[2] * b[1]
GDot(a, b) == a[1] * b[1] + a[2] * b[2]
\* clockwise angle from a to b: 1 below a half turn, 2 a half turn, 3 above, 0 none
GClass(a, b) == LET k == GCross(a, b) IN IF k < 0 THEN 1 ELSE IF k > 0 THEN 3 ELSE IF GDot(a, b) < 0 THEN 2 ELSE 0
\* turning clockwise from a, b is met before c
Before(a, b, c) == LET x == GClass(a, b) y == GClass(a, c)
                   IN x < y \/ (x = y /\ GCross(b, c) < 0)

Nbs(E) == [v \in UNION E |-> {w \in UNION E : {v, w} \in E /\ v # w}]
HalfEdges(E) == {<<u, v>> \in (UNION E) \X (UNION E) : u # v /\ {u, v} \in E}
\* the neighbour of v that comes next, clockwise, after u
Clockwise(P, N, v, u) ==
  IF N[v] = {u} THEN u
  ELSE CHOOSE w \in N[v] \ {u} : \A x \in N[v] \ {u, w} : Before(GD(P, v, u), GD(P, v, w), GD(P, v, x))
Follow(P, N, h) == <<h[2], Clockwise(P, N, h[2], h[1])>>

RECURSIVE OrbitFrom(_, _, _, _)
OrbitFrom(P, N, h, seen) == IF h \in seen THEN seen ELSE OrbitFrom(P, N, Follow(P, N, h), seen \cup {h})
Faces(P, E) == LET N == Nbs(E) IN {OrbitFrom(P, N, h, {}) : h \in HalfEdges(E)}

(* Judging a reported embedding: emb[v] lists the neighbours of v once each,
   in clockwise order (the other way round for the direction "CW").           *)
EmbeddingOK(P, E, emb, flip) ==
  LET N == Nbs(E)
  IN \A v \in UNION E :
       LET s == emb[v] n == Len(emb[v])
       IN /\ n = Cardinality(N[v])
          /\ {s[i] : i \in 1..n} = N[v]
          /\ \A i \in 1..n :
               LET a == s[i] b == s[(i % n) + 1]
               IN IF flip THEN Clockwise(P, N, v, b) = a ELSE Clockwise(P, N, v, a) = b

\* the half-edges of a reported face f (a closed walk)
Walk(f) == {<<f[i], f[(i % Len(f)) + 1]>> : i \in 1..Len(f)}
(* Reported are exactly the orbits with a vertex that is not an outline one
   (index above n), each once, from an outline edge on if there is one.       *)
TraceFails(P, E, n, fs) ==
  LET N == Nbs(E)
      H == HalfEdges(E)
      K == 1..Len(fs)
      used == UNION {Walk(fs[k]) : k \in K}
      flat(h) == h[1] <= n /\ h[2] <= n
  IN IF \E k \in K : Len(fs[k]) < 2 \/ ~(Walk(fs[k]) \subseteq H) THEN {"edges"}
     ELSE (IF FoldLeft(LAMBDA a, f : a + Len(f), 0, fs) = Cardinality(used) THEN {} ELSE {"once"})
          \cup (IF \A k \in K : LET f == fs[k] m == Len(fs[k])
                               IN \A i \in 1..m : Clockwise(P, N, f[(i % m) + 1], f[i]) = f[((i + 1) % m) + 1]
                THEN {} ELSE {"turning"})
          \cup (IF \A k \in K : \E i \in 1..Len(fs[k]) : fs[k][i] > n THEN {} ELSE {"outline-face"})
          \cup (IF \A h \in H \ used : flat(h) THEN {} ELSE {"missing-face"})
          \cup (IF \A k \in K : LET f == fs[k] IN (\E h \in Walk(f) : flat(h)) => flat(<<f[1], f[2]>>)
                THEN {} ELSE {"outline-first"})

\* sanity of the definition: Euler's formula for connected graphs
Euler(P, E) == Cardinality(UNION E) - Cardinality(E) + Cardinality(Faces(P, E)) = 2
=============================================================================
