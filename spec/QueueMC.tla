------------------------------ MODULE QueueMC ------------------------------
(* Behaviours of the queue: all of them for small constants (model checking), or
   random ones that are printed as histories (simulation).                     *)
EXTENDS Queue, Json
CONSTANTS Heights, MaxPut, MaxOps
VARIABLES q, n, hist, taken, last
vars == <<q, n, hist, taken, last>>

Init == q = EmptyQueue /\ n = 0 /\ hist = <<>> /\ taken = {} /\ last = -1000
Do(o, t, got) == /\ q' = t /\ n' = n + Count(o) /\ hist' = Append(hist, [op |-> o.op, h |-> o.h])
                 /\ taken' = taken \cup got
Op(name, hs, res) == [op |-> name, h |-> hs, res |-> res]
Put == \E h \in Heights : n < MaxPut /\ Do(Op("put", <<h>>, <<>>), PutAll(q, n, <<h>>), {}) /\ last' = -1000
PutSome == \E h \in Heights, k \in Heights : n + 2 <= MaxPut /\ Do(Op("all", <<h, k>>, <<>>), PutAll(q, n, <<h, k>>), {}) /\ last' = -1000
PutThree == \E h, k, m \in Heights : n + 3 <= MaxPut /\ Do(Op("all", <<h, k, m>>, <<>>), PutAll(q, n, <<h, k, m>>), {}) /\ last' = -1000
PutNone == Do(Op("none", <<>>, <<>>), q, {}) /\ UNCHANGED last
Get == \E e \in DOMAIN q : q[e] = Lowest(q) /\ Do(Op("get", <<>>, <<e>>), Without(q, {e}), {e}) /\ last' = q[e]
TakeGroup == DOMAIN q # {} /\ Do(Op("group", <<>>, <<>>), Without(q, Group(q)), Group(q)) /\ last' = Lowest(q)
Peek == DOMAIN q # {} /\ Do(Op("peek", <<>>, <<>>), q, {}) /\ UNCHANGED last
Next == Len(hist) < MaxOps /\ (Put \/ PutSome \/ PutThree \/ PutNone \/ Get \/ TakeGroup \/ Peek)
Spec == Init /\ [][Next]_vars

\* nothing is lost or invented
Conserved == taken \cap DOMAIN q = {} /\ taken \cup DOMAIN q = 1..n
\* without puts between, what comes out does not get lower; groups are more than one height apart
NotLower == DOMAIN q # {} => Lowest(q) >= last
\* after a group nothing within its range is left
Apart == [][TakeGroup => \A e \in DOMAIN q' : 3 * (q'[e] - last') >= 10]_vars
View == <<q, taken, last, Len(hist)>>
Done == Len(hist) = MaxOps => PrintT("H|" \o ToJson(hist))
H3 == {0, 3, 4}
H9 == {0, 1, 3, 4, 5, 8, 40}
=============================================================================
