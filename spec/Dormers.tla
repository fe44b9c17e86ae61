------------------------------ MODULE Dormers ------------------------------
(* Which bays of an outer contour are roofed as dormers.

   The contour is a sequence of lattice points <<x, y>> in units of 1/U of the
   implementation's unit of length.  Corner i lies between wall i - 1 and wall
   i; wall i runs from corner i to corner i + 1.

   A bay starts at corner i when the corners i .. i + 3 turn right, left, left
   and right by nearly a right angle (the sine of the turn above 0.99).  Bays
   that share a corner are no dormers, nor are any when all corners belong to
   bays.  A bay becomes a dormer when its front is shorter than 10 units, its
   sides are alike (the squares of their lengths differ by less than 35 percent
   of their sum) and its neighbours are long enough: the square of each is at
   least 1/8 of that of the front, or 3/2 where it ends in a left turn.        *)
EXTENDS Integers, Sequences, FiniteSets

DAt(c, i) == c[((i - 1) % Len(c)) + 1]
DV(c, i) == <<DAt(c, i + 1)[1] - DAt(c, i)[1], DAt(c, i + 1)[2] - DAt(c, i)[2]>>
DSq(v) == v[1] * v[1] + v[2] * v[2]
DLen2(c, i) == DSq(DV(c, i))                 \* squared length of wall i
DCross(u, v) == u[1] * v[2] - u[2] * v[1]

\* sine of the turn at corner i above 0.99, in absolute value: cross^2 > 0.9801 |u|^2 |v|^2
Steep(u, v) == LET k == DCross(u, v) IN 100 * (DSq(u) * DSq(v) - k * k) < (199 * DSq(u) * DSq(v)) \div 100
Turn(c, i) == LET u == DV(c, i + Len(c) - 1) v == DV(c, i) k == DCross(u, v)
              IN IF ~Steep(u, v) THEN "0" ELSE IF k > 0 THEN "L" ELSE "R"

Bays(c) == {i \in 1..Len(c) : Turn(c, i) = "R" /\ Turn(c, i + 1) = "L" /\ Turn(c, i + 2) = "L" /\ Turn(c, i + 3) = "R"}
Wrap(c, i) == ((i - 1) % Len(c)) + 1
Apart(c) == {i \in Bays(c) : Wrap(c, i + 3) \notin Bays(c) /\ Wrap(c, i + Len(c) - 3) \notin Bays(c)}
OnlyBays(c) == Cardinality(UNION {{Wrap(c, i + j) : j \in 0..3} : i \in Apart(c)}) = Len(c)
Dif(a, b) == IF a < b THEN b - a ELSE a - b
Small(c, i, U) ==
  LET w == DLen2(c, i + 1) d1 == DLen2(c, i) d2 == DLen2(c, i + 2)
      p == DLen2(c, i + Len(c) - 1) n == DLen2(c, i + 3)
      enough(d, turn) == IF turn = "L" THEN 2 * d >= 3 * w ELSE 8 * d >= w
  IN /\ w < 100 * U * U
     /\ 20 * Dif(d1, d2) < 7 * (d1 + d2)
     /\ enough(p, Turn(c, i + Len(c) - 1))
     /\ enough(n, Turn(c, i + 4))
\* the first corners of the dormers
DormerBays(c, U) == IF OnlyBays(c) THEN {} ELSE {i \in Apart(c) : Small(c, i, U)}
\* a dormer whose sides differ gets a tilted ridge: not the straight skeleton
Uneven(c, U) == \E i \in DormerBays(c, U) : DLen2(c, i) # DLen2(c, i + 2)
=============================================================================
