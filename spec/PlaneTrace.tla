----------------------------- MODULE PlaneTrace -----------------------------
(* Judges recorded embeddings and faces of planar graphs (many per record).
   A case: points, edges, number n of outline vertices, the embeddings in both
   directions, the faces; vertices are numbered from 1.                       *)
EXTENDS PlaneGraph, Records

Case(c) ==
  LET P == c.pts
      E == {{c.edges[k][1], c.edges[k][2]} : k \in 1..Len(c.edges)}
  IN (IF c.nodes = Cardinality(UNION E) /\ EmbeddingOK(P, E, c.emb, FALSE) THEN {} ELSE {"embedding"})
     \cup (IF EmbeddingOK(P, E, c.flip, TRUE) THEN {} ELSE {"embedding-reversed"})
     \cup TraceFails(P, E, c.n, c.faces)
Fails(r) == IF ~r.ok THEN {"returns"} ELSE UNION {Case(r.cases[k]) : k \in 1..Len(r.cases)}
Judge(r) == Say(r.id, Fails(r))
Spec == RecInit /\ [][Step(Judge)]_RecVars
=============================================================================
