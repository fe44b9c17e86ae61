----------------------------- MODULE ErosionMC -----------------------------
(* Model checking of Erosion itself: every set of cells of a small box (scaled
   by two, so that all walls are even) shrinks step by step.                 *)
EXTENDS Erosion
O == INSTANCE Outline
N == 3

VARIABLES start, alive, t
Scaled(S) == UNION {{M * (2 * (c \div M) + dx) + 2 * (c % M) + dy : dx, dy \in 0..1} : c \in S}
Box == {M * x + y : x \in 1..N, y \in 1..N}
Init == /\ start \in {Scaled(S) : S \in SUBSET Box}
        /\ alive = start
        /\ t = 0
Next == /\ alive # {}
        /\ alive' = Erode(alive)
        /\ t' = t + 1
        /\ UNCHANGED start
Spec == Init /\ [][Next]_<<start, alive, t>> /\ WF_<<start, alive, t>>(Next)

\* what is alive is what is farther than t from the outside, in the maximum norm
IsErosion == alive = {c \in start : \A dx \in -t..t, dy \in -t..t : (c + M * dx + dy) \in start}
\* every wall of the shrunk outline is a wall of the footprint moved inwards by t
Dir(w) == w[2] - w[1]
Line(w) == IF Dir(w) \in {M, -M} THEN w[1] % M ELSE w[1] \div M
Inward(w) == IF Dir(w) \in {M, -1} THEN 1 ELSE -1      \* the cells are on the left
MovedWalls == \A w \in O!Walls(alive) : \E v \in O!Walls(start) : Dir(v) = Dir(w) /\ Line(w) = Line(v) + t * Inward(v)
\* every cell of the roof is one plane or two
Pieces == t = 0 => \A c \in {x[2] : x \in {y \in Creases(start) : y[1] \in {"/", "b", "?"}}} : <<"?", c>> \notin Creases(start)
\* a step lowers no point of the roof already passed: heights are survival times
HeightsSurvive == \A c \in alive : LET H == Layers(start) IN c \in H[t + 1]
Vanishes == <>(alive = {})
=============================================================================
