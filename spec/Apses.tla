------------------------------- MODULE Apses -------------------------------
(* Apses of an outer contour (lattice points).  Corner i, between wall i - 1
   and wall i, is flat when it turns by less than 30 degrees; a run is a
   maximal circular sequence of at least 6 flat corners.                      *)
EXTENDS Primitives, Dormers, TLC

Flat(c, i) == LET u == DV(c, i + Len(c) - 1) v == DV(c, i) k == DCross(u, v)
              IN 4 * k * k < DSq(u) * DSq(v)
FlatAt(c) == [i \in 1..Len(c) |-> Flat(c, i)]
\* <<first corner, length>> of the runs
RECURSIVE RunLen(_, _, _)
RunLen(F, i, n) == IF n = Len(F) \/ ~F[((i + n - 1) % Len(F)) + 1] THEN n ELSE RunLen(F, i, n + 1)
Runs(F) == {<<i, RunLen(F, i, 0)>> : i \in {j \in 1..Len(F) : F[j] /\ ~F[((j + Len(F) - 2) % Len(F)) + 1]}}
Longs(F) == {r \in Runs(F) : r[2] >= 6}
(* Where the contour starts inside of a run, the part of the run from there on
   may be reported as well.                                                   *)
Parts(F) == {<<1, r[1] + r[2] - 1 - Len(F)>> : r \in {x \in Longs(F) : x[1] + x[2] - 1 - Len(F) >= 6}}
RunPoints(c, r) == <<DAt(c, r[1]), DAt(c, r[1] + r[2] \div 2), DAt(c, r[1] + r[2] - 1)>>
Degenerate(p) == Side(p[1], p[2], p[3]) = 0
\* center c / sc of the circle through three points
CenterIs(p, c, sc) ==
  LET u == Mi(p[2], p[1]) w == Mi(p[3], p[1])
      D == 2 * Cr(u, w)
      nx == w[2] * Dt(u, u) - u[2] * Dt(w, w)
      ny == u[1] * Dt(w, w) - w[1] * Dt(u, u)
  IN /\ PAbs((c[1] - sc * p[1][1]) * D - sc * nx) <= 2 * PAbs(D)
     /\ PAbs((c[2] - sc * p[1][2]) * D - sc * ny) <= 2 * PAbs(D)

\* judging the centers reported for contour c, in units of 1/64
ApseFails(c, centers) ==
  LET F == TLCEval(FlatAt(c))
      L == Longs(F)
      is(r, k) == CenterIs(RunPoints(c, r), centers[k], 64)
  IN IF \A i \in 1..Len(F) : F[i] THEN (IF centers = <<>> THEN {} ELSE {"all-flat"})
     ELSE (IF \A r \in L : \E k \in 1..Len(centers) : is(r, k) THEN {} ELSE {"missed"})
          \cup (IF \A k \in 1..Len(centers) : \E r \in L \cup Parts(F) : is(r, k) THEN {} ELSE {"no-apse"})
          \cup (IF L = {} /\ centers # <<>> THEN {"no-run"} ELSE {})
\* contours on which a center is defined
Judgeable(c) == LET F == FlatAt(c) IN (\A i \in 1..Len(F) : F[i]) \/ \A r \in Longs(F) \cup Parts(F) : ~Degenerate(RunPoints(c, r))

(* Judging the reported dormers: their four corners, and 64 times the widths. *)
BayFails(c, U, bays, widths) ==
  LET B == DormerBays(c, U)
  IN (IF {bays[k][1] : k \in 1..Len(bays)} = B /\ Len(bays) = Cardinality(B) THEN {} ELSE {"bays"})
     \cup (IF \A k \in 1..Len(bays) : Len(bays[k]) = 4 /\ \A j \in 2..4 : bays[k][j] = Wrap(c, bays[k][1] + j - 1)
           THEN {} ELSE {"corners"})
     \cup (IF \A k \in 1..Len(bays) :
                LET w == widths[k] l == DLen2(c, bays[k][1] + 1)      \* w = 64 sqrt(l)
                IN (w - 1) * (w - 1) <= 4096 * l /\ 4096 * l <= (w + 1) * (w + 1)
           THEN {} ELSE {"width"})

(* The roof of a dormer on a roomy footprint: from the middle of the front,
   w / 2 inwards, the ridge runs to the point w / 2 behind the middle of the
   base line, both at height w / 2.  r: ring c (lattice), unit U, nodes
   <<x, y, h>> in units of 1/64, arcs as ends <<0, corner>>, <<1, node>>.      *)
RidgeFails(r) ==
  LET c == r.ring U == r.unit
      s == 32 \div U                               \* half a lattice step
      B == {i \in DormerBays(c, U) : DLen2(c, i) = DLen2(c, i + 2)}
      spot(i, a, b) == LET f == DV(c, i + 1)
                       IN <<s * (DAt(c, a)[1] + DAt(c, b)[1] - f[2]), s * (DAt(c, a)[2] + DAt(c, b)[2] + f[1])>>
      found(i, p) == {k \in 1..Len(r.nodes) :
                        /\ PAbs(r.nodes[k][1] - p[1]) <= 2 /\ PAbs(r.nodes[k][2] - p[2]) <= 2
                        /\ PAbs(r.nodes[k][3] * r.nodes[k][3] - s * s * DLen2(c, i + 1)) <= 6 * r.nodes[k][3] + 9}
      line(k, e) == (\E j \in 1..Len(r.arcs[k]) : r.arcs[k][j] = e)
                    \/ (e[1] = 1 /\ \E j \in 1..Len(r.arcs[e[2]]) : r.arcs[e[2]][j] = <<1, k>>)
      ok(i) == \E k \in found(i, spot(i, i + 1, i + 2)) : \E m \in found(i, spot(i, i, i + 3)) :
                 /\ k # m /\ line(k, <<1, m>>)
                 /\ line(k, <<0, Wrap(c, i + 1)>>) /\ line(k, <<0, Wrap(c, i + 2)>>)
                 /\ line(m, <<0, i>>) /\ line(m, <<0, Wrap(c, i + 3)>>)
  IN IF \A i \in B : ok(i) THEN {} ELSE {"ridge"}
=============================================================================
