------------------------------ MODULE SameRoof ------------------------------
(* When two recorded calls a, b describe the same roof.

   Both are given in the coordinates of the original footprint (the recorder
   undoes the motion the job applied), so vertices are identified by their
   plan position; faces are compared as cyclic sequences of points.          *)
EXTENDS Roof

Near(p, q, t) == Abs(p[1] - q[1]) <= t /\ Abs(p[2] - q[2]) <= t

\* the vertices that occur in faces
Used(r) == UNION {{f[i] : i \in 1..Len(f)} : f \in {r.faces[k] : k \in 1..Len(r.faces)}}
UsedNew(r) == {i \in Used(r) : i >= r.nin}

SameVertices(a, b, t, tz) ==
  LET ua == UsedNew(a) ub == UsedNew(b)
      close(p, q) == Near(p, q, t) /\ Abs(p[3] - q[3]) <= tz
  IN /\ \A i \in ua : \E j \in ub : close(V(a, i), V(b, j))
     /\ \A j \in ub : \E i \in ua : close(V(a, i), V(b, j))

SameFace(a, f, b, g, t) ==
  LET n == Len(f)
  IN /\ Len(g) = n
     /\ \E s \in 0..(n - 1) :
          /\ Near(V(a, f[1]), V(b, g[1 + s]), t)
          /\ \A i \in 1..n : Near(V(a, f[i]), V(b, At(g, i + s)), t)

SameFaces(a, b, t) ==
  /\ Len(a.faces) = Len(b.faces)
  /\ \A k \in 1..Len(a.faces) :
       Cardinality({m \in 1..Len(b.faces) : SameFace(a, a.faces[k], b, b.faces[m], t)}) = 1

(* a face with a single wall starts with that wall in both (walls on one
   line may share a face, which may start with any of them)                  *)
SameFirsts(a, b) ==
  LET W == WallsOf(a)
      own == {f \in {a.faces[k] : k \in 1..Len(a.faces)} : Cardinality(FaceEdges(f) \cap W) = 1}
      starts == {<<V(b, b.faces[k][1]), V(b, b.faces[k][2])>> : k \in 1..Len(b.faces)}
  IN \A f \in own : \E d \in starts : Near(V(a, f[1]), d[1], 1) /\ Near(V(a, f[2]), d[2], 1)

Usable(r) == /\ r.ok
             /\ \A k \in 1..Len(r.faces) : \A i \in 1..Len(r.faces[k]) :
                  r.faces[k][i] >= 0 /\ r.faces[k][i] < Len(r.verts)
             /\ \A k \in 1..Len(r.faces) : Len(r.faces[k]) >= 2
             /\ IndicesOK(r)

SameRoofFails(a, b, t, tz) ==
  IF ~a.ok /\ ~b.ok THEN {"returns"}
  ELSE IF ~a.ok \/ ~b.ok THEN {"only-one-returns"}
  ELSE IF ~Usable(a) \/ ~Usable(b) THEN {"indices"}
  ELSE (IF SameVertices(a, b, t, tz) THEN {} ELSE {"same-vertices"})
       \cup (IF SameFaces(a, b, t) THEN {} ELSE {"same-faces"})
       \cup (IF SameFirsts(a, b) THEN {} ELSE {"same-walls"})

(* ---- heights and pitches ----
   a is the reference run with pitch 1 and zero height.                      *)
NewIdx(r) == {i \in r.nin..(Len(r.verts) - 1) : TRUE}
TopOf(r) == FoldSet(LAMBDA i, m : Mx(V(r, i)[3], m), -1000000, NewIdx(r))

PitchFails(a, b, mode, pn, pd) ==
  IF ~a.ok \/ ~b.ok THEN {"returns"}
  ELSE IF Len(a.verts) - a.nin # Len(b.verts) - b.nin THEN {"plan"}
  ELSE LET n == Len(a.verts) - a.nin
           za(i) == V(a, a.nin + i - 1)[3]
           zb(i) == V(b, b.nin + i - 1)[3]
           top == TopOf(a)
       IN (IF \A i \in 1..n : Near(V(a, a.nin + i - 1), V(b, b.nin + i - 1), 1)
           THEN {} ELSE {"plan"})
          \cup (IF a.faces = b.faces THEN {} ELSE {"faces"})
          \cup (CASE mode = "tan" ->
                       IF \A i \in 1..n : Abs(zb(i) * pd - za(i) * pn) <= pn + pd
                       THEN {} ELSE {"pitch"}
                  [] mode = "flat" ->
                       IF \A i \in 1..n : zb(i) = 0 THEN {} ELSE {"flat"}
                  [] mode = "height" ->
                       (IF TopOf(b) * pd = 64 * pn \/ Abs(TopOf(b) * pd - 64 * pn) <= pd
                        THEN {} ELSE {"highest"})
                       \cup (IF \A i \in 1..n :
                                  Abs(zb(i) * top - za(i) * TopOf(b)) <= top + TopOf(b)
                             THEN {} ELSE {"proportion"}))
          \cup (IF \A i \in WallVertices(b) : V(b, i)[3] = 0 THEN {} ELSE {"walls-at-base"})

(* ---- the caller's lists ---- *)
ContractFails(r) ==
  IF ~r.ok THEN {"returns"}
  ELSE (IF r.prefix THEN {} ELSE {"verts-prefix"})
       \cup (IF r.kept THEN {} ELSE {"faces-prefix"})
       \cup (IF r.samelist THEN {} ELSE {"same-list"})
       \cup (IF r.isnew THEN {} ELSE {"is-list"})
       \cup (IF r.hsame THEN {} ELSE {"holes-changed"})
       \cup (IF r.usame THEN {} ELSE {"unit-vectors-changed"})
       \cup (IF r.vertdim THEN {} ELSE {"vertex-dimension"})
       \cup (IF Len(r.verts) > r.nin THEN {} ELSE {"no-new-vertex"})
       \cup (IF Len(r.faces) > 0 /\ IndicesOK(r) THEN {} ELSE {"new-faces"})
=============================================================================
