----------------------------- MODULE BuildTrace -----------------------------
(* Judges recorded buildings of the demo add-on. *)
EXTENDS Building, Records
Judge(r) == Say(r.id, BuildingFails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
