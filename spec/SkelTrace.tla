----------------------------- MODULE SkelTrace -----------------------------
(* Judges recorded straight skeletons; MODE selects the clauses.            *)
EXTENDS Skeleton, Records

Mode == IOEnv.MODE
Fails(r) == CASE Mode = "graph"  -> GraphFails(r)
              [] Mode = "height" -> HeightFails(r)
              [] Mode = "debug"  -> DebugFails(r)
              [] Mode = "all"    -> GraphFails(r) \cup HeightFails(r)
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
