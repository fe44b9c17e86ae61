------------------------------ MODULE PlaneGen ------------------------------
(* All connected planar graphs on a GW x GH grid of points, by growth: the
   action adds an edge that touches the graph and crosses none of it.  TLC
   visits every graph once, checks Euler's formula for its faces and prints
   it.                                                                        *)
EXTENDS PlaneGraph, Primitives, TLC, IOUtils

GW == atoi(IOEnv.GW)
GH == atoi(IOEnv.GH)
Pts == [i \in 1..(GW * GH) |-> <<(i - 1) % GW, (i - 1) \div GW>>]
\* no grid point inside the segment
Bare(i, j) == ~\E k \in 1..(GW * GH) : /\ k # i /\ k # j
                                       /\ Side(Pts[i], Pts[j], Pts[k]) = 0
                                       /\ GDot(GD(Pts, k, i), GD(Pts, k, j)) < 0
Segments == {{i, j} : <<i, j>> \in {p \in (1..(GW * GH)) \X (1..(GW * GH)) : p[1] < p[2] /\ Bare(p[1], p[2])}}
Lo(e) == Min(e)
Hi(e) == Max(e)
Clear(e, E) == \A f \in E : ~Crossing(Pts[Lo(e)], Pts[Hi(e)], Pts[Lo(f)], Pts[Hi(f)])

VARIABLE graph
Init == \E e \in Segments : graph = {e}
Add == \E e \in Segments \ graph : e \cap UNION graph # {} /\ Clear(e, graph) /\ graph' = graph \cup {e}
Spec == Init /\ [][Add]_graph

EulerHolds == Euler(Pts, graph)
Emit == PrintT("P|" \o ToString({<<Lo(e), Hi(e)>> : e \in graph}))
=============================================================================
