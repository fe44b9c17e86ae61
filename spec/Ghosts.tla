------------------------------- MODULE Ghosts -------------------------------
(* Removal of ghost lines from a skeleton, as a transition system.

   The state maps every node to the set of the ends of its lines, <<0, c>> for
   corner c and <<1, k>> for node k.  When two lines leave node a in the same
   direction, towards n (the nearer end, a node) and f, one step replaces both
   by a line from n to f.  The same step is taken for lines that differ by
   less than 8 degrees if the line to f crosses one of the lines of n.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Primitives

At2(c, e) == IF e[1] = 0 THEN c.corners[e[2]] ELSE <<c.nodes[e[2]][1], c.nodes[e[2]][2]>>
Start(c) == [k \in 1..Len(c.nodes) |-> {c.arcs[k][j] : j \in 1..Len(c.arcs[k])} \ {<<1, k>>}]

SameWay(u, v) == Cr(u, v) = 0 /\ Dt(u, v) > 0
NearlySameWay(u, v) == Dt(u, v) > 0 /\ 10000 * Dt(u, v) * Dt(u, v) > 9801 * Dt(u, u) * Dt(v, v)
Touching(a, b, x, y) == Side(a, b, x) * Side(a, b, y) <= 0 /\ Side(x, y, a) * Side(x, y, b) <= 0

Replace(g, a, n, f) ==
  LET h == [g EXCEPT ![a] = @ \ {<<1, n>>, f}]
  IN IF f[1] = 1 /\ <<1, n>> \in h[f[2]] THEN h      \* the line is there already
     ELSE [h EXCEPT ![n] = @ \cup {f}]

\* pairs <<n, f>> of ends at node a, n nearer (either one of two at the same distance)
Pairs(c, g, a) == {<<n, f>> \in {k \in 1..Len(c.nodes) : <<1, k>> \in g[a]} \X g[a] :
                     /\ f # <<1, n>>
                     /\ LET u == Mi(At2(c, <<1, n>>), At2(c, <<1, a>>)) v == Mi(At2(c, f), At2(c, <<1, a>>))
                        IN Dt(u, u) <= Dt(v, v) /\ NearlySameWay(u, v)}
Way(c, a, p) == SameWay(Mi(At2(c, <<1, p[1]>>), At2(c, <<1, a>>)), Mi(At2(c, p[2]), At2(c, <<1, a>>)))
May(c, g, a, p) == \/ Way(c, a, p)
                   \/ \E s \in g[p[1]] : Touching(At2(c, <<1, a>>), At2(c, p[2]), At2(c, <<1, p[1]>>), At2(c, s))
\* the states: the lines, and the nodes that got a line on the way
Succ(c, st) == UNION {{<<Replace(st[1], a, p[1], p[2]), st[2] \cup {p[1]}>> :
                         p \in {q \in Pairs(c, st[1], a) : May(c, st[1], a, q)}} : a \in 1..Len(c.nodes)}
RECURSIVE ReachG(_, _, _)
ReachG(c, new, seen) == LET s == (UNION {Succ(c, st) : st \in new}) \ seen
                        IN IF s = {} THEN seen ELSE ReachG(c, s, seen \cup s)

(* Nothing is left to do at a node that got no further line: no pair in the
   same direction, no pair that crosses a line that was there all the time.   *)
Must(c, g, got, a, p) ==
  \/ Way(c, a, p)
  \/ /\ p[1] \notin got
     /\ LET u == Mi(At2(c, <<1, p[1]>>), At2(c, <<1, a>>)) v == Mi(At2(c, p[2]), At2(c, <<1, a>>))
        IN Dt(u, u) < Dt(v, v)
     /\ \E s \in g[p[1]] : /\ Crossing(At2(c, <<1, a>>), At2(c, p[2]), At2(c, <<1, p[1]>>), At2(c, s))
                           /\ Generic(At2(c, <<1, a>>), At2(c, p[2]), At2(c, <<1, p[1]>>), At2(c, s))
Settled(c, st) == \A a \in (1..Len(c.nodes)) \ st[2] : ~\E p \in Pairs(c, st[1], a) : Must(c, st[1], st[2], a, p)

(* Judging a recorded result c.after.                                        *)
GhostFails(c) ==
  LET g0 == Start(c)
      n == Len(c.nodes)
      r == c.after
  IN IF Len(r.arcs) # n \/ r.nodes # c.nodes THEN {"nodes"}
     ELSE LET g == [k \in 1..n |-> {r.arcs[k][j] : j \in 1..Len(r.arcs[k])}]
          IN (IF \A k \in 1..n : <<1, k>> \notin g[k] THEN {} ELSE {"loop"})
             \cup (IF /\ \A k \in 1..n : Cardinality(g[k]) = Len(r.arcs[k])
                      /\ \A k, m \in 1..n : k = m \/ <<1, k>> \notin g[m] \/ <<1, m>> \notin g[k]
                   THEN {} ELSE {"double"})
             \cup (LET R == {st \in ReachG(c, {<<g0, {}>>}, {<<g0, {}>>}) : st[1] = g}
                   IN IF R = {} THEN {"replaced"} ELSE IF \E st \in R : Settled(c, st) THEN {} ELSE {"left"})
=============================================================================
