------------------------------ MODULE Erosion ------------------------------
(* The shrinking of a rectilinear footprint, as a state machine on the cells of
   the unit lattice, and the roof it defines.

   All walls of the footprint lie on even lattice lines.  State: the set of the
   cells that are still higher than t.  The only action raises t by one: every
   wall moves inwards by one, which leaves the cells whose eight neighbours are
   all there.  (The part of the footprint farther than t from all walls, with
   mitred corners, is the erosion by the square with side 2t.)

   The roof: the height of a lattice point is the number of steps it survives;
   over every cell the roof is one plane or two, and a ridge or valley runs
   wherever the slope changes.  That is the exact straight skeleton.

   Cells and lattice points are numbers: (x, y) is M * x + y; a cell has the
   number of its lower left corner.                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

M == 1000
Num(x, y) == M * x + y
XOf(c) == c \div M
YOf(c) == c % M
Ring8(c) == {c - M - 1, c - M, c - M + 1, c - 1, c + 1, c + M - 1, c + M, c + M + 1}

\* ---- the action
Erode(A) == {c \in A : Ring8(c) \subseteq A}

\* ---- whole behaviour: the sequence of the alive sets, ending with the empty one
RECURSIVE Layers(_)
Layers(A) == IF A = {} THEN <<{}>> ELSE <<A>> \o Layers(Erode(A))

\* level of a cell: the last t at which it is alive
LevelFn(Ls) == [c \in Ls[1] |-> CHOOSE t \in 0..(Len(Ls) - 2) : c \in Ls[t + 1] /\ c \notin Ls[t + 2]]
Lev(F, A, c) == IF c \in A THEN F[c] ELSE -1
Min4(a, b, c, d) == LET x == IF a < b THEN a ELSE b y == IF c < d THEN c ELSE d IN IF x < y THEN x ELSE y
\* height of lattice point p: the least level of the cells around it, plus one
HeightAt(F, A, p) == 1 + Min4(Lev(F, A, p), Lev(F, A, p - M), Lev(F, A, p - 1), Lev(F, A, p - M - 1))

\* ---- the roof over one cell
Pattern(F, A, c) ==     \* which corners (sw, se, ne, nw) are one higher than the level
  LET l == F[c]
  IN <<HeightAt(F, A, c) - l, HeightAt(F, A, c + M) - l, HeightAt(F, A, c + M + 1) - l, HeightAt(F, A, c + 1) - l>>
\* the crease in the cell, and the slopes next to its sides <<south, east, north, west>>
Piece(p) ==
  CASE p = <<0, 0, 1, 1>> -> <<"", "N", "N", "N", "N">>
    [] p = <<1, 1, 0, 0>> -> <<"", "S", "S", "S", "S">>
    [] p = <<0, 1, 1, 0>> -> <<"", "E", "E", "E", "E">>
    [] p = <<1, 0, 0, 1>> -> <<"", "W", "W", "W", "W">>
    [] p = <<0, 0, 1, 0>> -> <<"/", "N", "N", "E", "E">>
    [] p = <<1, 0, 0, 0>> -> <<"/", "W", "W", "S", "S">>
    [] p = <<0, 1, 0, 0>> -> <<"b", "E", "S", "S", "E">>
    [] p = <<0, 0, 0, 1>> -> <<"b", "N", "W", "W", "N">>
    [] p = <<0, 1, 1, 1>> -> <<"/", "E", "E", "N", "N">>
    [] p = <<1, 1, 0, 1>> -> <<"/", "S", "S", "W", "W">>
    [] p = <<1, 0, 1, 1>> -> <<"b", "W", "N", "N", "W">>
    [] p = <<1, 1, 1, 0>> -> <<"b", "S", "E", "E", "S">>
    [] OTHER -> <<"?", "?", "?", "?", "?">>      \* impossible when all walls are even

(* The creases as unit pieces: <<"/", c>> from the lower left to the upper right
   corner of cell c, <<"b", c>> from the upper left to the lower right, <<"h", p>>
   from lattice point p to the right, <<"v", p>> upwards.                     *)
Creases(A) ==
  LET Ls == TLCEval(Layers(A))
      F == TLCEval(LevelFn(Ls))
      P == TLCEval([c \in A |-> Piece(Pattern(F, A, c))])
  IN {<<P[c][1], c>> : c \in {x \in A : P[x][1] # ""}}
     \cup {<<"h", c>> : c \in {x \in A : (x - 1) \in A /\ P[x][2] # P[x - 1][4]}}
     \cup {<<"v", c>> : c \in {x \in A : (x - M) \in A /\ P[x][5] # P[x - M][3]}}
Heights(A) ==      \* heights of all lattice points inside
  LET Ls == TLCEval(Layers(A))
      F == TLCEval(LevelFn(Ls))
      Q == UNION {{c, c + 1, c + M, c + M + 1} : c \in A}
  IN [p \in Q |-> HeightAt(F, A, p)]

(* Two reflex corners of the outline meet head-on at lattice point p: the step
   before, the four cells around p are there and reach two opposite corners.
   There the outline touches itself in a point.                              *)
HeadOnAt(B, p) ==
  LET sw == p - M - 1
  IN /\ {sw, p, p - M, p - 1} \subseteq B
     /\ \/ /\ sw - M - 1 \notin B /\ p + M + 1 \notin B
           /\ {sw - M, sw - 1, p + M, p + 1} \subseteq B
        \/ /\ (p - M) - M + 1 \notin B /\ (p - 1) + M - 1 \notin B
           /\ {(p - M) - M, (p - M) + 1, (p - 1) + M, (p - 1) - 1} \subseteq B
HeadOn(A) == LET Ls == Layers(A)
             IN \E t \in 1..Len(Ls) : \E p \in Ls[t] : HeadOnAt(Ls[t], p)

\* ---- the cells of a footprint given by its rings of lattice points
Cells(rings) ==
  LET E == UNION {LET ps == rings[c] n == Len(ps)
                  IN {<<ps[i], ps[IF i = n THEN 1 ELSE i + 1]>> : i \in 1..n} : c \in 1..Len(rings)}
      vert == {e \in E : e[1][1] = e[2][1]}
      xs == {e[1][1] : e \in E} ys == {e[1][2] : e \in E}
      \* a cell is inside iff the number of vertical walls to its left is odd
      in(x, y) == Cardinality({e \in vert : /\ e[1][1] <= x
                                            /\ (IF e[1][2] < e[2][2] THEN e[1][2] ELSE e[2][2]) <= y
                                            /\ y < (IF e[1][2] > e[2][2] THEN e[1][2] ELSE e[2][2])}) % 2 = 1
  IN UNION {{Num(x, y) : x \in {z \in Min(xs)..(Max(xs) - 1) : in(z, y)}} : y \in Min(ys)..(Max(ys) - 1)}
=============================================================================
