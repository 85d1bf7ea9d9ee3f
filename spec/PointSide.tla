------------------------------ MODULE PointSide -------------------------------
(* Point location: a ray is shot from the query point towards the centroid of   *)
(* each face in turn; the nearest hit decides unless it is ambiguous (two faces *)
(* at the same distance), then the next target is tried.  The environment picks *)
(* for every target an arrangement of hits that is possible for a point of the  *)
(* given true side: crossing a single face changes the side, a hit on a shared  *)
(* edge or vertex (several faces at one distance) may or may not; a ray within  *)
(* a face's plane meets that face in a segment, which never decides.  Scratch   *)
(* lists survive between queries, so histories of queries are explored.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Targets, MaxStops, MaxQueries

Sides == {"in", "out", "on"}
Flip(s) == IF s = "in" THEN "out" ELSE "in"

(* a stop on the ray: "single" (one face, seen from side `from`), "multi" (k faces at this distance), "segment" *)
Stops == [k : {"single", "multi", "segment"}, turn : BOOLEAN]
Rays == UNION {[1..n -> Stops] : n \in 0..MaxStops}

SideBefore(s, ray, i) ==
  LET f[j \in 0..MaxStops] == IF j = 0 THEN s
        ELSE IF j > Len(ray) THEN f[j-1]
        ELSE IF ray[j].k = "single" \/ (ray[j].k = "multi" /\ ray[j].turn) THEN Flip(f[j-1]) ELSE f[j-1]
  IN f[i-1]

(* what the code collects: point hits with distance and the side the hit face shows to the query point.  *)
(* A face hit at a `multi` stop can show either side.                                                    *)
HitsOf(s, ray, faces) ==
  LET idx == {i \in 1..Len(ray) : ray[i].k # "segment"} IN
  {[d |-> i, n |-> 1, shows |-> SideBefore(s, ray, i)] : i \in {j \in idx : ray[j].k = "single"}} \cup
  UNION {{[d |-> i, n |-> 2, shows |-> x] : x \in faces} : i \in {j \in idx : ray[j].k = "multi"}}

Possible(s, ray) == \* a target face is always met, as a point or within its plane
  Len(ray) > 0

VARIABLES truth, tgt, scratch, answer, queries
vars == <<truth, tgt, scratch, answer, queries>>

Init == truth \in Sides /\ tgt = 1 /\ scratch = {} /\ answer = "none" /\ queries = 1

Min(S) == CHOOSE h \in S : \A g \in S : h.d <= g.d
Try ==
  /\ answer = "none" /\ tgt <= Targets
  /\ IF truth = "on" THEN /\ answer' = "on" /\ scratch' \in {{}, {[d |-> 1, n |-> 1, shows |-> "in"]}}   \* distance zero
                          /\ UNCHANGED <<tgt, truth, queries>>
     ELSE \E ray \in Rays, faces \in {{"in"}, {"out"}, {"in", "out"}} :
          /\ Possible(truth, ray)
          /\ LET hits == HitsOf(truth, ray, faces) IN
             /\ scratch' = hits                      \* cleared, then filled
             /\ IF hits = {} THEN answer' = "throw" /\ UNCHANGED tgt
                ELSE IF \E g, h \in hits : g.d = h.d /\ g.d = Min(hits).d /\ (g # h \/ g.n > 1)
                     THEN tgt' = tgt + 1 /\ UNCHANGED answer
                ELSE answer' = Min(hits).shows /\ UNCHANGED tgt
          /\ UNCHANGED <<truth, queries>>
Fail == answer = "none" /\ tgt > Targets /\ answer' = "throw" /\ UNCHANGED <<truth, tgt, scratch, queries>>
Again == /\ answer # "none" /\ queries < MaxQueries
         /\ queries' = queries + 1 /\ truth' \in Sides /\ tgt' = 1 /\ answer' = "none" /\ UNCHANGED scratch
Next == Try \/ Fail \/ Again
Spec == Init /\ [][Next]_vars

Correct == answer \in {"none", "throw", truth}
=============================================================================
