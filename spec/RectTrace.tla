----------------------------- MODULE RectTrace -----------------------------
(* Judges recorded skeletons of rectilinear footprints against the roof that
   Erosion defines.  A record has rings (lattice points, all even, positive),
   nodes <<x, y, h>> in 1/64 units, arcs (see Skeleton), corners.            *)
EXTENDS Erosion, Records
D == INSTANCE Dormers

Tol == 6
Round(v) == (v + 32) \div 64
OnLattice(v) == LET d == v - 64 * Round(v) IN d <= Tol /\ d >= -Tol
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs) \o Flat(Tail(cs))

\* the unit pieces of the straight line p -> q
Pieces(p, q) ==
  LET dx == q[1] - p[1] dy == q[2] - p[2]
      n == IF Abs(dx) > Abs(dy) THEN Abs(dx) ELSE Abs(dy)
      sx == Sgn(dx) sy == Sgn(dy)
      at(i) == <<p[1] + i * sx, p[2] + i * sy>>
      low(a, b) == IF a < b THEN a ELSE b
  IN {LET a == at(i) b == at(i + 1)
          c == Num(low(a[1], b[1]), low(a[2], b[2]))
      IN <<IF sy = 0 THEN "h" ELSE IF sx = 0 THEN "v" ELSE IF sx = sy THEN "/" ELSE "b", c>> : i \in 0..(n - 1)}
Straight(p, q) == LET dx == Abs(q[1] - p[1]) dy == Abs(q[2] - p[2])
                  IN p # q /\ (dx = 0 \/ dy = 0 \/ dx = dy)

Fails(r) ==
  IF ~r.ok THEN {"returns"}
  ELSE IF \E k \in 1..Len(r.nodes) : \E i \in 1..3 : ~OnLattice(r.nodes[k][i]) THEN {"off-lattice"}
  ELSE IF \E k \in 1..Len(r.arcs) : \E j \in 1..Len(r.arcs[k]) : r.arcs[k][j][1] > 1 THEN {"ends"}
  ELSE LET A == TLCEval(Cells(r.rings))
           cs == TLCEval(Flat(r.rings))
           N == TLCEval([k \in 1..Len(r.nodes) |-> <<Round(r.nodes[k][1]), Round(r.nodes[k][2]), Round(r.nodes[k][3])>>])
           pt(e) == IF e[1] = 0 THEN cs[e[2]] ELSE N[e[2]]
           L == UNION {{<<<<N[k][1], N[k][2]>>, <<pt(e)[1], pt(e)[2]>>>> : e \in {r.arcs[k][j] : j \in 1..Len(r.arcs[k])}} : k \in 1..Len(r.arcs)}
       IN IF \E l \in L : ~Straight(l[1], l[2]) THEN {"direction"}
          ELSE LET want == TLCEval(Creases(A))
                   H == TLCEval(Heights(A))
                   got == TLCEval(UNION {Pieces(l[1], l[2]) : l \in L})
                   total == FoldSet(LAMBDA l, a : a + Cardinality(Pieces(l[1], l[2])), 0, L)
               IN (IF \E w \in want : w[1] = "?" THEN {"model"} ELSE {})
                  \cup (IF \A k \in 1..Len(N) : Num(N[k][1], N[k][2]) \in DOMAIN H /\ H[Num(N[k][1], N[k][2])] = N[k][3]
                        THEN {} ELSE {"heights"})
                  \cup (IF want \subseteq got THEN {} ELSE {"missing"})
                  \cup (IF got \subseteq want THEN {} ELSE {"added"})
                  \cup (IF total = Cardinality(got) THEN {} ELSE {"overlap"})
Judge(r) ==
  LET f == Fails(r)
      \* bays with unequal sides are roofed otherwise, by design: nothing but the return is promised
      g == IF f = {} THEN {} ELSE IF D!Uneven(r.rings[1], 1) THEN f \cap {"returns"} ELSE f
      t == IF r.turned THEN {"TURNED"} ELSE {}
  IN Say(r.id, IF g = {} THEN g ELSE IF HeadOn(Cells(r.rings)) THEN g \cup {"HEADON"} \cup t ELSE g \cup t)
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
