-------------------------------- MODULE Geo --------------------------------
(* Fixed-point plane geometry, within TLC's 32-bit integers.

   Coordinates are integers in units of 1/S (S = 64 by default); footprints
   stay within +-12800, values observed from the implementation are clamped
   by the recorder to +-16000, so that a cross product of two difference
   vectors (at most 2 * 32000^2) never overflows.                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* 1-based circular successor and predecessor in a sequence of length n
Nx(i, n) == IF i = n THEN 1 ELSE i + 1
Pv(i, n) == IF i = 1 THEN n ELSE i - 1
At(s, i) == s[((i - 1) % Len(s)) + 1]

X(p) == p[1]
Y(p) == p[2]
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
\* twice the signed area of triangle abc: positive iff c is left of a->b
Orient(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])

RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2
                   IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
\* floor of the square root
ISqrt(n) == IF n = 0 THEN 0 ELSE
            ISqrtFrom(n, IF n < 1024 THEN 32 ELSE IF n < 1048576 THEN 1024 ELSE 46340)

RECURSIVE ShiftOf(_)
ShiftOf(n) == IF n >= 268435456 THEN 0 ELSE 1 + ShiftOf(n * 4)

(* The length of an integer vector with |v|^2 = n > 0, n <= 2^31-1, as m / 2^k
   with m >= 2^14, i.e. with a relative error below 2^-14.                  *)
ScaledLen(n) == LET k == ShiftOf(n) IN <<ISqrt(n * (4 ^ k)), 2 ^ k>>

\* signed distance of point v from the line p->q (positive to the left of it)
PerpDist(p, q, v) ==
  LET d == Sub(q, p)
      sl == ScaledLen(Dot(d, d))
  IN (Orient(p, q, v) * sl[2]) \div sl[1]

\* the same with a precomputed line <<p, q, m, 2^k>>
LineOf(p, q) == LET d == Sub(q, p)
                    sl == IF Dot(d, d) = 0 THEN <<1, 1>> ELSE ScaledLen(Dot(d, d))
                IN <<p, q, sl[1], sl[2]>>
DistToLine(l, v) == (Orient(l[1], l[2], v) * l[4]) \div l[3]

Norm1(v) == Abs(v[1]) + Abs(v[2])
Dist(p, q) == LET d == Sub(p, q) n == Dot(d, d) IN IF n = 0 THEN 0 ELSE ISqrt(n)

(* Segments ab and cd cross properly, every endpoint being farther than
   roughly `m` units from the line through the other segment.               *)
CrossProperly(a, b, c, d, m) ==
  LET n1 == m * Norm1(Sub(b, a))
      n2 == m * Norm1(Sub(d, c))
      o1 == Orient(a, b, c) o2 == Orient(a, b, d)
      o3 == Orient(c, d, a) o4 == Orient(c, d, b)
  IN /\ (o1 > n1 /\ o2 < -n1) \/ (o1 < -n1 /\ o2 > n1)
     /\ (o3 > n2 /\ o4 < -n2) \/ (o3 < -n2 /\ o4 > n2)

\* closed segments ab and cd have a point in common (exact)
OnBox(a, b, c) == /\ Mn(a[1], b[1]) <= c[1] /\ c[1] <= Mx(a[1], b[1])
                  /\ Mn(a[2], b[2]) <= c[2] /\ c[2] <= Mx(a[2], b[2])
Meet(a, b, c, d) ==
  LET o1 == Orient(a, b, c) o2 == Orient(a, b, d)
      o3 == Orient(c, d, a) o4 == Orient(c, d, b)
  IN \/ Sgn(o1) * Sgn(o2) < 0 /\ Sgn(o3) * Sgn(o4) < 0
     \/ o1 = 0 /\ OnBox(a, b, c)
     \/ o2 = 0 /\ OnBox(a, b, d)
     \/ o3 = 0 /\ OnBox(c, d, a)
     \/ o4 = 0 /\ OnBox(c, d, b)

(* Area of a closed polygon (sequence of points), in units of 32 squared
   fixed-point units, so that sums cannot overflow.                         *)
AreaOf(ps) ==
  LET n == Len(ps)
  IN FoldLeft(LAMBDA acc, i : acc + Orient(ps[1], ps[i], ps[i + 1]) \div 64,
              0, [i \in 1..(n - 2) |-> i + 1])

\* the sign of the area is exact when all coordinates stay in range
PointIn(p, ps) ==        \* p strictly inside the polygon ps (p not on its boundary)
  LET n == Len(ps)
      hits == {i \in 1..n :
                 LET a == ps[i] b == ps[Nx(i, n)]
                 IN /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ (Orient(a, b, p) > 0) = (b[2] > a[2])}
  IN Cardinality(hits) % 2 = 1

JoinSet(s) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "," \o x,
                       "", SetToSeq(s))
=============================================================================
