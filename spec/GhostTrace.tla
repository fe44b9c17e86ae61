----------------------------- MODULE GhostTrace -----------------------------
EXTENDS Ghosts, Records
Fails(r) == IF ~r.ok THEN {"returns"} ELSE UNION {GhostFails(r.cases[k]) : k \in 1..Len(r.cases)}
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
