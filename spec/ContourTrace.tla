---------------------------- MODULE ContourTrace ----------------------------
(* Judges the apses and bays found in outer contours.                        *)
EXTENDS Apses, Records
One(r, c) == IF r.kind = "apses" THEN (IF Judgeable(c.ring) THEN ApseFails(c.ring, c.centers) ELSE {})
             ELSE BayFails(c.ring, c.unit, c.bays, c.widths)
Fails(r) == IF ~r.ok THEN {"returns"} ELSE IF r.kind = "ridges" THEN RidgeFails(r) ELSE UNION {One(r, r.cases[k]) : k \in 1..Len(r.cases)}
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
