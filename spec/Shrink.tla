------------------------------- MODULE Shrink -------------------------------
(* The shrinking outline of a footprint as a transition system.

   The outline is a set of rings of vertices.  Between two neighbouring vertices
   runs the piece of a wall that is still there, so every vertex stands between
   two walls.  Every event adds one node to the skeleton and joins it with the
   places where the vertices that end in it started.

   State  [nx, wl, from]
     nx     the next vertex (nx is a permutation, its cycles are the rings)
     wl     the walls before and after the vertex <<wp, wn>>
     from   the place (corner or skeleton node) where the vertex started
   Events
     edge   the piece of wall between two vertices vanishes
     peak   a ring of three vertices vanishes
     split  a vertex runs into a piece of wall: of its own ring, which falls into
            two, or of another ring, to which it gets joined.  Rings of two
            vertices that come out have no area; they vanish at once.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Verts(s) == DOMAIN s.nx
PrevOf(s, v) == CHOOSE p \in Verts(s) : s.nx[p] = v
RECURSIVE RingFrom(_, _, _)
RingFrom(s, v, acc) == IF v \in acc THEN acc ELSE RingFrom(s, s.nx[v], acc \cup {v})
RingOf(s, v) == RingFrom(s, v, {})
RingSet(s) == {RingOf(s, v) : v \in Verts(s)}

Part(f, S) == [x \in S |-> f[x]]
Without(s, R) == LET K == Verts(s) \ R
                 IN [nx |-> Part(s.nx, K), wl |-> Part(s.wl, K), from |-> Part(s.from, K)]
Upd(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

\* every event: <<state after it, the vertices that end in its node>>
CanEdge(s, a, b) == a \in Verts(s) /\ b \in Verts(s) /\ s.nx[a] = b /\ a # b
Edge(s, a, b, c, place) ==
  LET p == PrevOf(s, a)
      n == s.nx[b]
  IN IF p = n THEN <<Without(s, {a, b, p}), {a, b, p}>>        \* peak
     ELSE LET t == Without(s, {a, b})
          IN <<[nx |-> Upd(t.nx, (p :> c) @@ (c :> n)),
                wl |-> Upd(t.wl, c :> <<s.wl[a][1], s.wl[b][2]>>),
                from |-> Upd(t.from, c :> place)], {a, b}>>

\* x is the vertex at the far end of the piece of wall that v runs into
CanSplit(s, v, x, w) == /\ v \in Verts(s) /\ x \in Verts(s) /\ s.wl[x][1] = w
                        /\ x # v /\ PrevOf(s, x) # v
Split(s, v, x, c, d, place) ==
  LET p == PrevOf(s, v)
      n == s.nx[v]
      y == PrevOf(s, x)
      w == s.wl[x][1]
      t == Without(s, {v})
      u == [nx |-> Upd(t.nx, (p :> c) @@ (c :> x) @@ (y :> d) @@ (d :> n)),
            wl |-> Upd(t.wl, (c :> <<s.wl[v][1], w>>) @@ (d :> <<w, s.wl[v][2]>>)),
            from |-> Upd(t.from, (c :> place) @@ (d :> place))]
      flat == UNION {r \in {RingOf(u, c), RingOf(u, d)} : Cardinality(r) <= 2}
  IN <<Without(u, flat), {v} \cup (flat \ {c, d})>>

\* ---- invariants of a state
\* (1) the piece of wall after a vertex is the one before the next vertex
Linked(s) == \A v \in Verts(s) : s.wl[v][2] = s.wl[s.nx[v]][1]
\* (2) nx is a permutation without short cycles
Rings(s) == /\ {s.nx[v] : v \in Verts(s)} = Verts(s)
            /\ \A r \in RingSet(s) : Cardinality(r) >= 3
\* (3) no wall is missing between its neighbours: a vertex stands between two different walls
Proper(s) == \A v \in Verts(s) : s.wl[v][1] # s.wl[v][2]
=============================================================================
