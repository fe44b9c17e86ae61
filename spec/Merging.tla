------------------------------ MODULE Merging ------------------------------
(* Merging of nearby skeleton nodes.

   A record holds the rings of the footprint, the skeleton before and after
   (nodes <<x, y, h>>, arcs as ends <<0, corner>> or <<1, node>>) in units of
   1/U, and the centers of its apses.

   Nodes closer than 0.1 (sum of the differences) belong together; a group is
   a connected set of places under that relation.  A group stays as it is
   when a node of it is less than 3 from the center of an apse, or when two
   corners it is connected to are at most 0.2 apart; else it becomes one node
   at the mean of its places.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

MAbs(x) == IF x < 0 THEN -x ELSE x
Manh(p, q) == MAbs(p[1] - q[1]) + MAbs(p[2] - q[2])
CloseBy(U, p, q) == 10 * Manh(p, q) < U
MPos(nd) == <<nd[1], nd[2]>>
Places(s) == {MPos(s.nodes[k]) : k \in 1..Len(s.nodes)}

RECURSIVE Spread(_, _, _, _)
Spread(U, S, new, seen) == LET g == {q \in S \ seen : \E p \in new : CloseBy(U, p, q)}
                           IN IF g = {} THEN seen ELSE Spread(U, S, g, seen \cup g)
Groups(U, S) == {Spread(U, S, {p}, {p}) : p \in S}
Tight(U, g) == \A p, q \in g : CloseBy(U, p, q)

AllCorners(r) == FoldLeft(LAMBDA a, c : a \o c, <<>>, r.rings)
NodesAt(s, g) == {k \in 1..Len(s.nodes) : MPos(s.nodes[k]) \in g}
EndsAt(s, g) == UNION {{s.arcs[k][j] : j \in 1..Len(s.arcs[k])} : k \in NodesAt(s, g)}
Detail(r, g) ==
  LET C == {AllCorners(r)[e[2]] : e \in {x \in EndsAt(r.before, g) : x[1] = 0}}
  IN \E p, q \in C : /\ p # q /\ 4 * Manh(p, q) < 2 * r.unit
                     /\ 25 * ((p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])) <= r.unit * r.unit
NearApse(r, g) == \E p \in g : \E k \in 1..Len(r.apses) : Manh(p, r.apses[k]) < 3 * r.unit
Merges(r, g) == Cardinality(g) > 1 /\ ~NearApse(r, g) /\ ~Detail(r, g)

\* the nodes to expect, as sets of places
Blocks(r) == UNION {IF Merges(r, g) THEN {g} ELSE {{p} : p \in g} : g \in Groups(r.unit, Places(r.before))}
SumOf(S, f(_)) == FoldSet(LAMBDA p, a : a + f(p), 0, S)
HeightAt(s, p) == s.nodes[Min(NodesAt(s, {p}))][3]
MeanIs(r, b, nd) ==
  LET n == Cardinality(b)
  IN /\ MAbs(n * nd[1] - SumOf(b, LAMBDA p : p[1])) < n
     /\ MAbs(n * nd[2] - SumOf(b, LAMBDA p : p[2])) < n
     /\ MAbs(n * nd[3] - SumOf(b, LAMBDA p : HeightAt(r.before, p))) < n

\* every group is tight: the result is determined
Exact(r) ==
  LET B == Blocks(r)
      a == r.after
      of(b) == {k \in 1..Len(a.nodes) : MeanIs(r, b, a.nodes[k])}
      img(e) == IF e[1] = 0 THEN e ELSE <<1, Min(of(CHOOSE b \in B : MPos(r.before.nodes[e[2]]) \in b))>>
  IN IF Len(a.nodes) # Cardinality(B) \/ \E b \in B : Cardinality(of(b)) # 1 THEN {"nodes"}
     ELSE (IF \A b \in B : LET k == Min(of(b))
                           IN {a.arcs[k][j] : j \in 1..Len(a.arcs[k])} = {img(e) : e \in EndsAt(r.before, b)} \ {<<1, k>>}
           THEN {} ELSE {"connections"})
          \cup (IF \A k \in 1..Len(a.arcs) : Cardinality({a.arcs[k][j] : j \in 1..Len(a.arcs[k])}) = Len(a.arcs[k])
                THEN {} ELSE {"double"})

(* Chains of nodes, in which not all are close to each other: which of them are
   merged is left open.                                                       *)
GroupOf(r, nd) == {g \in Groups(r.unit, Places(r.before)) :
                     \E p \in g : Manh(p, nd) * 4 < r.unit}
GroupLinks(s, G(_)) ==    \* the connections between groups
  {l \in UNION {{<<G(s.nodes[k]), G(s.nodes[e[2]])>> : e \in {x \in {s.arcs[k][j] : j \in 1..Len(s.arcs[k])} : x[1] = 1}}
                  : k \in 1..Len(s.nodes)} : l[1] # l[2]}
CornerLinks(s, G(_)) ==   \* and of groups to corners
  UNION {{<<G(s.nodes[k]), e[2]>> : e \in {x \in {s.arcs[k][j] : j \in 1..Len(s.arcs[k])} : x[1] = 0}}
           : k \in 1..Len(s.nodes)}
Loose(r) ==
  LET a == r.after
      G(nd) == GroupOf(r, nd)
  IN IF \E k \in 1..Len(a.arcs) : \E j \in 1..Len(a.arcs[k]) : a.arcs[k][j][1] = 2 THEN {"dangling"}
     ELSE IF \E k \in 1..Len(a.nodes) : Cardinality(G(a.nodes[k])) # 1 THEN {"nodes"}
     ELSE (IF GroupLinks(a, G) = GroupLinks(r.before, G) /\ CornerLinks(a, G) = CornerLinks(r.before, G) THEN {} ELSE {"connections"})
          \cup (IF \A g \in Groups(r.unit, Places(r.before)) :
                     LET K == {k \in 1..Len(a.nodes) : G(a.nodes[k]) = {g}}
                     IN /\ K # {}
                        /\ ~NearApse(r, g) /\ ~Detail(r, g) => \A k, m \in K : k = m \/ 10 * Manh(a.nodes[k], a.nodes[m]) >= r.unit - 50
                        /\ \A k \in K : \A c \in 1..2 : /\ a.nodes[k][c] >= Min({p[c] : p \in g}) - 1
                                                        /\ a.nodes[k][c] <= Max({p[c] : p \in g}) + 1
                THEN {} ELSE {"merged"})

MergeFails(r) == IF \A g \in Groups(r.unit, Places(r.before)) : Tight(r.unit, g) THEN Exact(r) ELSE Loose(r)
=============================================================================
