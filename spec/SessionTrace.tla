---------------------------- MODULE SessionTrace ----------------------------
(* Binds Session to the code.  A record is one history that was run on the real
   library, with, for every step and list, how many of its entries were kept in
   front (k of the n there were) and what follows them (t); vertices are
   interned: equal numbers = bitwise equal coordinates.  It also has the result
   every call has when it is the only call of a fresh process (solo).

   The trace is accepted iff every step extends every list by exactly the block
   that the specification's step appends to it.                              *)
EXTENDS Integers, Sequences, FiniteSets, Records

S == INSTANCE Session WITH NF <- 4, NV <- 2, NL <- 2, NO <- 3, NB <- 4, MaxOps <- 99,
       vl <- <<>>, fl <- <<>>, dbg <- <<>>, hist <- <<>>

\* ---- concretization of the blocks of a state
Block(r, b) == CASE b[1] = "fp" -> r.fps[b[2]]
                 [] b[1] = "roof" -> r.solo[b[2]][b[3]].verts
                 [] b[1] = "junk" -> b[2]
\* only the length matters, so junk is kept as its length
BlockLen(r, b) == IF b[1] = "junk" THEN b[2] ELSE Len(Block(r, b))
StartOf(r, s, v, b) ==      \* 0-based position of block b in list v
  FoldLeft(LAMBDA a, k : a + BlockLen(r, s.vl[v][k]), 0, [k \in 1..(b - 1) |-> k])
FacesOf(r, s, e) ==
  LET n == Len(r.fps[e[2]])
      x == StartOf(r, s, e[4], e[5])
      y == StartOf(r, s, e[4], e[6])
      sol == r.solo[e[2]][e[3]].faces
  IN [k \in 1..Len(sol) |->
        [i \in 1..Len(sol[k]) |-> IF sol[k][i] < n THEN sol[k][i] + x ELSE sol[k][i] - n + y]]

(* The order of the faces, and where a face with two walls on one line starts,
   may depend on the positions in the list; at the same positions the result is
   identical.                                                                *)
Turn(f) == IF f = <<>> THEN f ELSE
           LET m == CHOOSE i \in 1..Len(f) : \A j \in 1..Len(f) : f[i] <= f[j]
           IN [i \in 1..Len(f) |-> f[((m + i - 2) % Len(f)) + 1]]
Bag(fs) == {Turn(fs[k]) : k \in 1..Len(fs)}
SameFaces(r, s, e, fs) ==
  LET want == FacesOf(r, s, e)
  IN IF StartOf(r, s, e[4], e[5]) = 0 /\ StartOf(r, s, e[4], e[6]) = Len(r.fps[e[2]])
     THEN fs = want
     ELSE Len(fs) = Len(want) /\ Bag(fs) = Bag(want)

Dbg(r, d) == IF d[1] = "shows" THEN r.solo[d[2]][d[3]].dbg ELSE 0

\* ---- one step
Nxt(s, h) == CASE h.op = "place" -> S!PlaceStep(s, h.f, h.v)
               [] h.op = "call" -> S!CallStep(s, h.f, h.v, h.b, h.l, h.o)
               [] h.op = "fail" -> S!FailStep(s)
               [] h.op = "dbg" -> S!DbgStep(s, h.on)
Added(a, b) == SubSeq(b, Len(a) + 1, Len(b))       \* the blocks of b beyond a
\* list v (or l) grew from the blocks a to the blocks b
VGrew(r, a, b, d) == /\ d.k = d.n
                     /\ LET x == Added(a, b) IN d.t = IF x = <<>> THEN <<>> ELSE Block(r, x[1])
FGrew(r, t, a, b, d) == /\ d.k = d.n
                        /\ LET x == Added(a, b) IN IF x = <<>> THEN d.t = <<>> ELSE SameFaces(r, t, x[1], d.t)

StepFails(r, s, t, h, o) ==      \* s, t: specification's states; o: observed
  LET vok == \A v \in 1..2 : VGrew(r, s.vl[v], t.vl[v], o.vl[v])
      fok == \A l \in 1..2 : FGrew(r, t, s.fl[l], t.fl[l], o.fl[l])
      e == <<"call", h.f, h.o, h.v, h.b, Len(t.vl[h.v])>>
  IN IF h.op = "call" /\ ~o.ok THEN {"returns"}
     ELSE (IF vok THEN {} ELSE {"vertex-list"})
          \cup (IF fok THEN {} ELSE {"face-list"})
          \cup (IF h.op # "call" THEN {} ELSE
                  (IF h.l # 0 \/ SameFaces(r, t, e, o.ret) THEN {} ELSE {"result"})
                  \cup (IF o.same THEN {} ELSE {"same-list"}))
          \cup (IF t.dbg[1] = "off" THEN IF o.dbgset THEN {"debug-key"} ELSE {}
                ELSE IF t.dbg[1] = "on" THEN {}
                ELSE IF o.dbg = Dbg(r, t.dbg) THEN {} ELSE {"debug-skeleton"})

(* a failed call promises nothing beyond what was there before: take over
   whatever it appended                                                      *)
AfterFail(r, s, o) ==
  [vl |-> [v \in 1..2 |-> IF o.vl[v].t = <<>> THEN s.vl[v] ELSE Append(s.vl[v], <<"junk", Len(o.vl[v].t)>>)],
   fl |-> s.fl,
   dbg |-> IF o.dbgset THEN <<"on">> ELSE s.dbg]
FailFails(o) ==
  (IF \A v \in 1..2 : o.vl[v].k = o.vl[v].n THEN {} ELSE {"vertex-list"})
  \cup (IF \A l \in 1..2 : o.fl[l].k = o.fl[l].n THEN {} ELSE {"face-list"})

RECURSIVE Run(_, _, _)
Run(r, s, i) ==
  IF i > Len(r.steps) THEN {}
  ELSE LET h == r.ops[i]
           o == r.steps[i]
           t == Nxt(s, h)
           f == IF h.op = "fail" THEN FailFails(o) ELSE StepFails(r, s, t, h, o)
       IN IF f # {} THEN f
          ELSE Run(r, IF h.op = "fail" THEN AfterFail(r, t, o) ELSE t, i + 1)

Start == [vl |-> <<<<>>, <<>>>>, fl |-> <<<<>>, <<>>>>, dbg |-> <<"off">>]
Mode == IOEnv.MODE
Lists == {"vertex-list", "face-list", "same-list", "returns"}
Debugs == {"debug-key", "debug-skeleton", "returns"}
Fails(r) == LET f == IF r.ok THEN Run(r, Start, 1) ELSE {"returns"}
            IN CASE Mode = "lists" -> f \cap Lists
                 [] Mode = "debug" -> f \cap Debugs
                 [] OTHER -> f
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
