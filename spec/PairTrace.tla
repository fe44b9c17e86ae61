----------------------------- MODULE PairTrace -----------------------------
(* Judges pairs of recorded calls (and the list contract of single calls).   *)
EXTENDS SameRoof, Records

Fails(r) == CASE r.kind = "same" -> SameRoofFails(r.a, r.b, r.t, r.tz)
              [] r.kind = "pitch" -> PitchFails(r.a, r.b, r.mode, r.pn, r.pd)
              [] r.kind = "contract" -> ContractFails(r.a)
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
