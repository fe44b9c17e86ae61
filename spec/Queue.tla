-------------------------------- MODULE Queue --------------------------------
(* The queue of events.  State: the pending events, number -> height, heights in
   units of 3 / 10000.  A group is everything less than 1 / 1000 above the lowest
   event.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

EmptyQueue == <<>>
Lowest(q) == Min({q[e] : e \in DOMAIN q})
Group(q) == {e \in DOMAIN q : 3 * (q[e] - Lowest(q)) < 10}
Without(q, E) == [e \in DOMAIN q \ E |-> q[e]]
\* events put in a row get the numbers n + 1, n + 2, ..
PutAll(q, n, hs) == q @@ [e \in (n + 1)..(n + Len(hs)) |-> hs[e - n]]

\* may operation o, with what it returned, happen in state q, and the state after it
May(q, o) ==
  LET R == {o.res[i] : i \in 1..Len(o.res)}
  IN CASE o.op \in {"put", "all", "none"} -> o.res = <<>>
       [] o.op \in {"get", "peek"} -> Len(o.res) = 1 /\ R \subseteq DOMAIN q /\ q[o.res[1]] = Lowest(q)
       [] o.op = "group" -> /\ R = Group(q) /\ Len(o.res) = Cardinality(R)
                            /\ \A i \in 1..(Len(o.res) - 1) : q[o.res[i]] <= q[o.res[i + 1]]
After(q, n, o) ==
  CASE o.op \in {"put", "all"} -> PutAll(q, n, o.h)
    [] o.op \in {"get", "group"} -> Without(q, {o.res[i] : i \in 1..Len(o.res)})
    [] OTHER -> q
Count(o) == IF o.op \in {"put", "all"} THEN Len(o.h) ELSE 0

\* replays a history: the clauses that fail
RECURSIVE Replay(_, _, _, _)
Replay(ops, i, q, n) ==
  IF i > Len(ops) THEN {}
  ELSE LET o == ops[i]
       IN IF ~May(q, o) THEN {o.op}
          ELSE LET t == After(q, n, o)
               IN IF o.empty # (DOMAIN t = {}) THEN {"empty"} ELSE Replay(ops, i + 1, t, n + Count(o))
QueueFails(r) == IF ~r.ok THEN {"returns"} ELSE Replay(r.ops, 1, EmptyQueue, 0)
=============================================================================
