----------------------------- MODULE Primitives -----------------------------
(* What the geometric primitives mean, on lattice input, exactly.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

PAbs(x) == IF x < 0 THEN -x ELSE x
PSgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Cr(u, v) == u[1] * v[2] - u[2] * v[1]
Dt(u, v) == u[1] * v[1] + u[2] * v[2]
Mi(p, r) == <<p[1] - r[1], p[2] - r[2]>>
Side(a, b, c) == PSgn(Cr(Mi(b, a), Mi(c, a)))

(* Lines and rays A = (p, v), B = (r, w): with d = v x w the common point is
   p + (k / d) v, k = (r - p) x w.  A ray takes only non-negative factors.    *)
MeetK(p, v, r, w) == Cr(Mi(r, p), w)
MeetExists(rayA, rayB, p, v, r, w) ==
  LET d == Cr(v, w)
      kB == Cr(Mi(r, p), v)       \* B's factor is kB / d
  IN /\ d # 0
     /\ rayA = 1 => PSgn(MeetK(p, v, r, w)) * PSgn(d) >= 0
     /\ rayB = 1 => PSgn(kB) * PSgn(d) >= 0
\* got: the point in units of 1/sc, exact up to tol of these units
MeetAt(p, v, r, w, got, sc, tol) ==
  LET d == Cr(v, w) k == MeetK(p, v, r, w)
  IN \A i \in 1..2 : PAbs((got[i] - sc * p[i]) * d - sc * k * v[i]) <= tol * PAbs(d)

\* two segments cross in a point inside both
Crossing(a, b, c, d) == /\ Side(a, b, c) * Side(a, b, d) < 0
                        /\ Side(c, d, a) * Side(c, d, b) < 0
\* no three of the four ends on one line
Generic(a, b, c, d) == /\ Side(a, b, c) # 0 /\ Side(a, b, d) # 0
                       /\ Side(c, d, a) # 0 /\ Side(c, d, b) # 0
LeftTurn(a, b, c) == Side(a, b, c) > 0

\* distance g / sc of point x from the line through a and b
DistIs(a, b, x, g, sc) ==
  LET o == Cr(Mi(b, a), Mi(x, a)) n == Dt(Mi(b, a), Mi(b, a))
      lo == IF g = 0 THEN 0 ELSE g - 1
  IN g >= 0 /\ lo * lo * n <= o * o * sc * sc /\ o * o * sc * sc <= (g + 1) * (g + 1) * n
\* unit vector u / sc in the direction of v
UnitOf(v, u, sc) == /\ PAbs(Cr(v, u)) <= 2 * (PAbs(v[1]) + PAbs(v[2]))
                    /\ Dt(v, u) > 0
                    /\ PAbs(Dt(u, u) - sc * sc) <= 4 * sc
\* center c / sc and radius R / sc of the circle through three points
CircleIs(x, y, z, c, R, sc) ==
  LET u == Mi(y, x) w == Mi(z, x)
      D == 2 * Cr(u, w)
      nx == w[2] * Dt(u, u) - u[2] * Dt(w, w)
      ny == u[1] * Dt(w, w) - w[1] * Dt(u, u)
      e == Mi(<<sc * x[1], sc * x[2]>>, c)
  IN /\ PAbs((c[1] - sc * x[1]) * D - sc * nx) <= 2 * PAbs(D)
     /\ PAbs((c[2] - sc * x[2]) * D - sc * ny) <= 2 * PAbs(D)
     /\ PAbs(Dt(e, e) - R * R) <= 8 * (R + 2)

(* The number of pairs of lines that cross inside both.                      *)
LinesOf(nodes) == UNION {{<<k, j, nodes[k][1], nodes[k][2][j]>> : j \in 1..Len(nodes[k][2])} : k \in 1..Len(nodes)}
CrossCount(nodes) ==
  LET L == LinesOf(nodes)
      before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
  IN Cardinality({<<a, b>> \in L \X L : before(a, b) /\ Crossing(a[3], a[4], b[3], b[4])})
=============================================================================
