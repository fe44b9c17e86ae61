------------------------------ MODULE Building ------------------------------
(* The building of the demo add-on: a prism over a given footprint, closed by
   the hipped roof that the library puts on its eaves.

   A record is what the add-on handed to Blender: verts in units of 1/4096,
   faces (0-based), the scale <<sx, sy, sz>> in units of 1/1024, the number of
   meshes made, linked and the answer of the operator.                       *)
EXTENDS Geo

\* the footprint of the building, in units of 1/4096
Outline == <<
  <<31580, -28521>>, <<32996, 18216>>, <<1735, 18763>>, <<1569, 20541>>, <<1235, 22228>>, <<541, 23824>>,
  <<-430, 25283>>, <<-1652, 26469>>, <<-3096, 27472>>, <<-4706, 28156>>, <<-6399, 28475>>, <<-8148, 28521>>,
  <<-9870, 28201>>, <<-11508, 27609>>, <<-12979, 26697>>, <<-14256, 25511>>, <<-15283, 24098>>, <<-16005, 22502>>,
  <<-16422, 20815>>, <<-16588, 19082>>, <<-18171, 19173>>, <<-18448, 11741>>, <<-32219, 11468>>, <<-32996, -13109>>,
  <<-19226, -13200>>, <<-19698, -27426>> >>
N == 26

Close(v, w, tol) == Abs(v - w) <= tol
\* x * s / 1024 without overflow
Times(x, s) == LET a == Abs(x) r == (a \div 1024) * s + ((a % 1024) * s) \div 1024 IN IF x < 0 THEN -r ELSE r

GroundOK(r) == /\ Len(r.verts) >= 2 * N
               /\ \A i \in 1..N : /\ Close(r.verts[i][1], Times(Outline[i][1], r.scale[1]), 4 + Abs(r.scale[1]) \div 256)
                                  /\ Close(r.verts[i][2], Times(Outline[i][2], r.scale[2]), 4 + Abs(r.scale[2]) \div 256)
                                  /\ r.verts[i][3] = 0
EavesOK(r) == /\ Len(r.verts) >= 2 * N
              /\ \A i \in 1..N : /\ r.verts[N + i][1] = r.verts[i][1]
                                 /\ r.verts[N + i][2] = r.verts[i][2]
                                 /\ Close(r.verts[N + i][3], 20 * r.scale[3], 2)
RoofAbove(r) == \A i \in (2 * N + 1)..Len(r.verts) : r.verts[i][3] > 20 * r.scale[3]
\* the ridge is as high as 0.6 times the distance of its ends from the walls allows
Edges(f) == {<<f[i], f[Nx(i, Len(f))]>> : i \in 1..Len(f)}
Total(fs) == FoldLeft(LAMBDA a, f : a + Len(f), 0, fs)
FacesOK(r) == \A k \in 1..Len(r.faces) :
  LET f == r.faces[k]
  IN /\ Len(f) >= 3
     /\ Cardinality({f[i] : i \in 1..Len(f)}) = Len(f)
     /\ \A i \in 1..Len(f) : f[i] >= 0 /\ f[i] < Len(r.verts)
Ground == {<<i - 1, i % N>> : i \in 1..N}
ClosedOK(r) ==
  LET D == UNION {Edges(r.faces[k]) : k \in 1..Len(r.faces)}
  IN /\ Cardinality(D) = Total(r.faces)                   \* every directed edge once
     /\ Ground \subseteq D
     /\ \A e \in D : (<<e[2], e[1]>> \in D) # (e \in Ground)
\* roof faces are counterclockwise from above: the walls then face outwards
UpOK(r) == \A k \in 1..Len(r.faces) :
  LET f == r.faces[k]
      up == \A i \in 1..Len(f) : f[i] >= N
      P(i) == r.small[f[i] + 1]
  IN up => LET a == FoldLeft(LAMBDA acc, i : acc + Orient(P(1), P(i), P(i + 1)), 0, [i \in 1..(Len(f) - 2) |-> i + 1])
           IN a >= 0
UsedOK(r) == \A i \in 0..(Len(r.verts) - 1) : i < 2 * N => \E k \in 1..Len(r.faces) : i \in {r.faces[k][j] : j \in 1..Len(r.faces[k])}
OperatorOK(r) == r.made = 1 /\ r.linked = 1 /\ r.edges = 0 /\ (r.how = "operator" => r.answer = <<"FINISHED">>)

BuildingFails(r) ==
  IF ~r.ok THEN {"returns"}
  ELSE (IF OperatorOK(r) THEN {} ELSE {"operator"})
       \cup (IF GroundOK(r) THEN {} ELSE {"ground"})
       \cup (IF EavesOK(r) THEN {} ELSE {"eaves"})
       \cup (IF FacesOK(r) THEN (IF ClosedOK(r) THEN {} ELSE {"closed"})
                                \cup (IF UpOK(r) THEN {} ELSE {"up"})
                                \cup (IF UsedOK(r) THEN {} ELSE {"used"})
             ELSE {"faces"})
       \cup (IF RoofAbove(r) THEN {} ELSE {"above"})
=============================================================================
