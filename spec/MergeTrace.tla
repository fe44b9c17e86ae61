----------------------------- MODULE MergeTrace -----------------------------
EXTENDS Merging, Records
Fails(r) == IF ~r.ok THEN {"returns"} ELSE MergeFails(r)
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
