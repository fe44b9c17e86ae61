----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, Records
Judge(r) == Say(r.id, QueueFails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
