------------------------------ MODULE Session ------------------------------
(* The library as its caller sees it: vertex lists and face lists that calls
   extend, over a whole session of calls.

   State
     vl    vertex lists.  A list is abstracted to the sequence of the blocks
           that were appended to it: a footprint placed by the caller,
           <<"fp", f>>, or the roof vertices of one call, <<"roof", f, o>>.
     fl    face lists: the sequence of the calls that extended them,
           <<"call", f, o, v, b, p>>: roof of footprint f with options o in vertex
           list v, footprint in block b, roof vertices in block p.
     dbg   what the debug output holds: "off", "on" (requested, no call yet)
           or the call it shows.
   The substance is what does NOT appear: no other state influences a call.   *)
EXTENDS Integers, Sequences, TLC

CONSTANTS NF,      \* footprints 1..NF
          NV, NL,  \* vertex lists 1..NV, face lists 1..NL (0: none given)
          NO,      \* option sets 1..NO
          NB,      \* kinds of calls that fail
          MaxOps
VARIABLES vl, fl, dbg, hist
vars == <<vl, fl, dbg, hist>>

\* ---- the steps, as functions of the state [vl, fl, dbg]
PlaceStep(s, f, v) == [s EXCEPT !.vl[v] = Append(@, <<"fp", f, 0>>)]

CallStep(s, f, v, b, l, o) ==
  LET p == Len(s.vl[v]) + 1
      w == [s EXCEPT !.vl[v] = Append(@, <<"roof", f, o>>)]
      x == IF l = 0 THEN w ELSE [w EXCEPT !.fl[l] = Append(@, <<"call", f, o, v, b, p>>)]
  IN [x EXCEPT !.dbg = IF @ = <<"off">> THEN @ ELSE <<"shows", f, o>>]

FailStep(s) == s       \* a failed call changes nothing

DbgStep(s, on) == [s EXCEPT !.dbg = IF on THEN <<"on">> ELSE <<"off">>]

InitState == [vl |-> [v \in 1..NV |-> <<>>], fl |-> [l \in 1..NL |-> <<>>], dbg |-> <<"off">>]
Blocks(s, v) == {b \in 1..Len(s.vl[v]) : s.vl[v][b][1] = "fp"}

S0 == [vl |-> vl, fl |-> fl, dbg |-> dbg]
Become(t, h) == /\ vl' = t.vl /\ fl' = t.fl /\ dbg' = t.dbg
                /\ hist' = Append(hist, h)

\* ---- the actions
Init == /\ vl = InitState.vl /\ fl = InitState.fl /\ dbg = InitState.dbg /\ hist = <<>>
More == Len(hist) < MaxOps

Place == \E f \in 1..NF, v \in 1..NV :
           Become(PlaceStep(S0, f, v), [op |-> "place", f |-> f, v |-> v])
Call == \E v \in 1..NV : \E b \in Blocks(S0, v) : \E l \in 0..NL, o \in 1..NO :
          LET f == vl[v][b][2]
          IN Become(CallStep(S0, f, v, b, l, o),
                    [op |-> "call", f |-> f, v |-> v, b |-> b, l |-> l, o |-> o])
Fail == \E v \in 1..NV : \E b \in Blocks(S0, v) : \E l \in 0..NL, k \in 1..NB :
          Become(FailStep(S0), [op |-> "fail", f |-> vl[v][b][2], v |-> v, b |-> b, l |-> l, k |-> k])
Dbg == \E on \in BOOLEAN :
          /\ on # (dbg # <<"off">>)
          /\ Become(DbgStep(S0, on), [op |-> "dbg", on |-> on])
Next == More /\ (Place \/ Call \/ Fail \/ Dbg)
Spec == Init /\ [][Next]_vars

\* ---- what the design guarantees
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly == [][/\ \A v \in 1..NV : Prefix(vl[v], vl'[v])
                 /\ \A l \in 1..NL : Prefix(fl[l], fl'[l])]_vars
OneListPerStep == [][\A v, w \in 1..NV : vl[v] # vl'[v] /\ vl[w] # vl'[w] => v = w]_vars
\* every face refers to blocks that are there, of the footprint it is a roof of
NoDangling ==
  \A l \in 1..NL : \A k \in 1..Len(fl[l]) :
    LET e == fl[l][k]
    IN /\ e[6] <= Len(vl[e[4]])
       /\ vl[e[4]][e[5]] = <<"fp", e[2], 0>>
       /\ vl[e[4]][e[6]] = <<"roof", e[2], e[3]>>
       /\ e[5] < e[6]
\* two calls in one vertex list never use the same block for their roofs
RoofsApart ==
  \A l, m \in 1..NL : \A k \in 1..Len(fl[l]) : \A n \in 1..Len(fl[m]) :
    (l # m \/ k # n) /\ fl[l][k][4] = fl[m][n][4] => fl[l][k][6] # fl[m][n][6]
=============================================================================
