----------------------------- MODULE RoofTrace -----------------------------
(* Judges recorded roofs against the roof contract; MODE selects the clauses. *)
EXTENDS Roof, Records

Mode == IOEnv.MODE
Fails(r) == CASE Mode = "tiling" -> TilingFails(r)
              [] Mode = "faces"  -> FacesFails(r)
              [] Mode = "plane"  -> PlaneFails(r)
              [] Mode = "exists" -> ExistsFails(r)
              [] Mode = "all" -> TilingFails(r) \cup FacesFails(r) \cup PlaneFails(r)
\* nothing is promised for other than valid footprints (large coordinates are not looked at)
Promised(r) == Mode # "exists" \/ (\E c \in 1..Len(r.contours) : \E i \in 1..Len(r.contours[c]) : \E k \in 1..2 : Abs(r.contours[c][i][k]) > 6400)
               \/ ValidFootprint(r.contours)
Judge(r) == IF Promised(r) THEN Say(r.id, Fails(r)) ELSE Note("not a footprint: " \o r.id) /\ Say(r.id, {})
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
