----------------------------- MODULE SessionMC -----------------------------
(* Exhaustive check of the session design (histories hidden by the view).    *)
EXTENDS Session
View == <<vl, fl, dbg, Len(hist)>>
=============================================================================
