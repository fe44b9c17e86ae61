----------------------------- MODULE SessionGen -----------------------------
(* Generates histories: TLC's simulator walks the actions of Session at random
   (seeded) and prints every history that reached its full length.           *)
EXTENDS Session, Json
Done == Len(hist) = MaxOps => PrintT("H|" \o ToJson(hist))
=============================================================================
