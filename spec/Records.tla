------------------------------ MODULE Records ------------------------------
(* Frame for the modules that judge recorded behaviours: the records are dealt
   out to K chunks (so that TLC's workers share them), one state per record.
   The verdict on every record is printed, whether it is accepted or not.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)
K == 64

VARIABLES chunk, pos

RecInit == chunk = 0 /\ pos = 0
\* the action: judge record pos'
Step(Verdict(_)) ==
  \/ /\ chunk = 0
     /\ chunk' \in 1..K
     /\ chunk' <= NRecs
     /\ pos' = chunk'
     /\ Verdict(Recs[pos'])
  \/ /\ chunk > 0
     /\ pos + K <= NRecs
     /\ pos' = pos + K
     /\ chunk' = chunk
     /\ Verdict(Recs[pos'])
RecVars == <<chunk, pos>>

Join(s) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "," \o x, "", SetToSeq(s))
Say(id, s) == PrintT("V|" \o id \o "|" \o Join(s))
Note(s) == PrintT("N|" \o s)
=============================================================================
