----------------------------- MODULE PrimTrace -----------------------------
(* Judges recorded results of the geometric primitives.  A record holds many
   cases of one kind.                                                        *)
EXTENDS Primitives, Records

Meet(c) == (IF (c[7] # <<>>) = MeetExists(c[1], c[2], c[3], c[4], c[5], c[6]) THEN {} ELSE {"exists"})
           \cup (IF c[7] # <<>> /\ MeetExists(c[1], c[2], c[3], c[4], c[5], c[6]) /\ ~MeetAt(c[3], c[4], c[5], c[6], c[7], c[9], IF c[9] = 1 THEN 0 ELSE 2)
                 THEN {"point"} ELSE {})
           \cup (IF c[8] = 1 THEN {} ELSE {"arguments"})
Segs(c) == (IF Generic(c[1], c[2], c[3], c[4]) /\ (c[5] = 1) # Crossing(c[1], c[2], c[3], c[4]) THEN {"segments"} ELSE {})
           \cup (IF (c[6] = 1) # LeftTurn(c[1], c[2], c[3]) THEN {"left-turn"} ELSE {})
Edges(c) == (IF DistIs(c[1], c[2], c[3], c[4], 64) THEN {} ELSE {"distance"})
            \cup (IF UnitOf(Mi(c[2], c[1]), c[5], 4096) THEN {} ELSE {"direction"})
            \cup (IF c[6] = 16 * Dt(Mi(c[2], c[1]), Mi(c[2], c[1])) THEN {} ELSE {"length"})
            \cup (IF c[7] = 1 THEN {} ELSE {"indexed"})
            \cup (IF c[8] = c[1] \o c[2] THEN {} ELSE {"ends"})
Circles(c) == LET ps == c[1] n == Len(ps)
              IN IF CircleIs(ps[1], ps[n \div 2 + 1], ps[n], c[2], c[3], 64) THEN {} ELSE {"circle"}
Crossings(c) == (IF c[2] = CrossCount(c[1]) THEN {} ELSE {"count"}) \cup (IF c[3] = 1 THEN {} ELSE {"arguments"})

Fails(r) == IF ~r.ok THEN {"returns"}
            ELSE LET f(c) == CASE r.kind = "meet" -> Meet(c) [] r.kind = "segs" -> Segs(c) [] r.kind = "edges" -> Edges(c)
                               [] r.kind = "circles" -> Circles(c) [] r.kind = "crossings" -> Crossings(c)
                 IN UNION {f(r.cases[k]) : k \in 1..Len(r.cases)}
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
