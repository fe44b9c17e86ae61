------------------------------ MODULE PolyGen ------------------------------
(* All polyominoes in a GW x GH box, by growth: the state is a set of cells,
   the action adds a neighbouring cell.  TLC visits every connected set once;
   those whose outline is made of simple rings, and that touch the left and the
   lower side of the box, are printed as footprints: cells scaled by GS.      *)
EXTENDS Outline, TLC, IOUtils

GW == atoi(IOEnv.GW)
GH == atoi(IOEnv.GH)
Box == {PM * x + y : x \in 0..(GW - 1), y \in 0..(GH - 1)}
Nb(c) == {c - 1, c + 1, c - PM, c + PM} \cap Box

VARIABLE cells
Init == \E c \in Box : cells = {c}
Add == \E c \in cells : \E d \in Nb(c) \ cells : cells' = cells \cup {d}
Spec == Init /\ [][Add]_cells

\* evaluated once per distinct state
Low == (\E c \in cells : c \div PM = 0) /\ (\E c \in cells : c % PM = 0)
Emit == IF Low /\ Simple(cells) THEN PrintT("P|" \o ToString(Rings(cells))) ELSE TRUE
=============================================================================
