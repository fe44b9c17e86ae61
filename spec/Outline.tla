------------------------------ MODULE Outline ------------------------------
(* From a set of cells to the rings of its outline, and the polyominoes.

   A cell (x, y) is the number M * x + y, as in Erosion.  The outline is made
   of unit walls with the cells on their left; it is a set of rings when no
   two cells touch in a point only.                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

PM == 1000
\* unit walls <<from, to>> as point numbers
Walls(A) == UNION {
  (IF c - 1 \notin A THEN {<<c, c + PM>>} ELSE {})                    \* south, eastwards
  \cup (IF c + PM \notin A THEN {<<c + PM, c + PM + 1>>} ELSE {})      \* east, northwards
  \cup (IF c + 1 \notin A THEN {<<c + PM + 1, c + 1>>} ELSE {})        \* north, westwards
  \cup (IF c - PM \notin A THEN {<<c + 1, c>>} ELSE {}) : c \in A}     \* west, southwards
Simple(A) == ~\E c \in A :
  \/ (c + PM + 1) \in A /\ (c + PM) \notin A /\ (c + 1) \notin A
  \/ (c + PM - 1) \in A /\ (c + PM) \notin A /\ (c - 1) \notin A

\* the rings: sequences of the corners (where the direction changes)
RECURSIVE Walk(_, _, _, _)
Walk(Next, start, p, acc) ==
  LET q == Next[p]
      acc2 == IF Next[q] - q # q - p THEN Append(acc, q) ELSE acc
  IN IF q = start THEN acc2 ELSE Walk(Next, start, q, acc2)
RECURSIVE AllRings(_, _)
AllRings(Next, left) ==
  IF left = {} THEN <<>>
  ELSE LET s == Min(left)
           RECURSIVE On(_, _)
           On(p, seen) == IF p \in seen THEN seen ELSE On(Next[p], seen \cup {p})
       IN <<Walk(Next, s, s, <<>>)>> \o AllRings(Next, left \ On(s, {}))
\* the outer contour comes first: it contains the least point
Rings(A) == LET W == Walls(A)
                Next == [p \in {w[1] : w \in W} |-> (CHOOSE w \in W : w[1] = p)[2]]
            IN AllRings(Next, DOMAIN Next)
=============================================================================
