----------------------------- MODULE LocalClassify ----------------------------
(* A design of the classification around an edge, for every consistent fan of   *)
(* up to MaxSlots slots, every start of the radial order and every order of     *)
(* coinciding faces: coinciding faces are marked first; two neighbours of equal *)
(* direction that coincide with nothing must belong to different meshes and     *)
(* settle each other; the rest follows by walking around.  At an unbalanced     *)
(* fan (border) the gap outside the region is no neighbourhood.                 *)
EXTENDS Fan, TLC, Json, SequencesExt
CONSTANTS MaxSlots, SkipGap, Generate
VARIABLES fan, around
Singles == {{[m |-> m, o |-> o]} : m \in 1..2, o \in {"+", "-"}}
Slots == Singles \cup {{[m |-> 1, o |-> a], [m |-> 2, o |-> b]} : a, b \in {"+", "-"}}
Init == fan = <<>> /\ around \in BOOLEAN
\* faces of one mesh alternate along the fan
CanFollow(s) == \A f \in s : LET S == Of(fan, f.m) IN IF S = {} THEN TRUE ELSE Dir(fan, Max(S), f.m) # f.o
Next == Len(fan) < MaxSlots /\ \E s \in Slots : CanFollow(s) /\ fan' = Append(fan, s) /\ UNCHANGED around
Spec == Init /\ [][Next]_<<fan, around>>

\* the faces in radial order from slot r: records of slot, mesh and direction; first: slots whose faces are listed with mesh 1 first
SlotSeq(k, first) == LET q == SetToSeq(fan[k]) IN
  [i \in DOMAIN q |-> LET f == IF Len(q) = 1 THEN q[1] ELSE CHOOSE g \in fan[k] : g.m = (IF first THEN i ELSE 3 - i) IN [k |-> k, m |-> f.m, o |-> f.o]]
RECURSIVE Flat(_, _, _)
Flat(r, n, Fst) == IF n = 0 THEN <<>> ELSE SlotSeq(r, r \in Fst) \o Flat((r % Len(fan)) + 1, n - 1, Fst)
Nxt(q, i) == (i % Len(q)) + 1
RECURSIVE Pairs(_, _, _, _)
\* tags after looking at the neighbours i, i+1, ..; last: the face settled last
Pairs(q, i, tags, last) ==
  IF i > Len(q) THEN [tags |-> tags, last |-> last, ok |-> TRUE]
  ELSE LET j == Nxt(q, i)
           free == tags[i] \notin {"COP", "OPP"} /\ tags[j] \notin {"COP", "OPP"}
           gap == SkipGap /\ ~Balanced(fan) /\ q[j].k <= q[i].k
           t == IF q[i].o = "+" THEN <<"INT", "EXT">> ELSE <<"EXT", "INT">>
       IN IF free /\ ~gap /\ q[i].o = q[j].o THEN
            (IF tags[i] \in {"?", t[1]} /\ tags[j] \in {"?", t[2]}
             THEN Pairs(q, i + 1, [tags EXCEPT ![i] = t[1], ![j] = t[2]], j)
             ELSE [tags |-> tags, last |-> j, ok |-> FALSE])
          ELSE Pairs(q, i + 1, tags, last)
RECURSIVE Walk(_, _, _, _, _)
Walk(q, i, left, tag, tags) ==
  IF left = 0 THEN [tags |-> tags, ok |-> TRUE]
  ELSE LET j == Nxt(q, i)
           t == IF q[i].o = q[j].o THEN (IF tag = "EXT" THEN "INT" ELSE "EXT") ELSE tag
       IN IF tags[j] \in {"EXT", "INT"} /\ tags[j] # t THEN [tags |-> tags, ok |-> FALSE]
          ELSE Walk(q, j, left - 1, t, IF tags[j] = "?" THEN [tags EXCEPT ![j] = t] ELSE tags)
Coincide(q) == [i \in DOMAIN q |-> IF Cardinality(fan[q[i].k]) = 1 THEN "?"
                                   ELSE IF Cardinality({f.o : f \in fan[q[i].k]}) = 1 THEN "COP" ELSE "OPP"]
Result(q) ==
  LET p == Pairs(q, 1, Coincide(q), 0) IN
  IF p.last = 0 \/ ~p.ok THEN p
  ELSE LET w == Walk(q, p.last, Len(q), p.tags[p.last], p.tags) IN
       [tags |-> IF w.ok THEN w.tags ELSE p.tags, last |-> p.last, ok |-> p.ok]
Orders == {Flat(r, Len(fan), Fst) : r \in DOMAIN fan, Fst \in SUBSET {k \in DOMAIN fan : Cardinality(fan[k]) = 2}}
Good == Len(fan) > 0 /\ Consistent(fan, around)
\* what is decided is right, whatever the order
Sound == Good => \A q \in Orders : LET R == Result(q) IN R.ok /\ \A i \in DOMAIN q : R.tags[i] \in {"?", Truth(fan, around, q[i].k, q[i].m)}
\* everything is decided as soon as two neighbours of equal direction coincide with nothing
Complete == Good /\ (around \/ Balanced(fan)) => \A q \in Orders : LET R == Result(q) IN HasPair(fan) => \A i \in DOMAIN q : R.tags[i] # "?"
\* even where the meshes are unbalanced, such neighbours themselves are decided
PairsDecided == Good => \A q \in Orders : LET R == Result(q) IN \A i \in DOMAIN q : InPair(fan, q[i].k) => R.tags[i] # "?"
\* without coinciding faces that is exactly the case in which directions alone determine every position; otherwise they determine none
Needed == Good /\ around /\ (\A k \in DOMAIN fan : Cardinality(fan[k]) = 1) =>
            \A x \in Faces(fan) : Deducible(fan, around, x[1], x[2]) <=> HasPair(fan)
\* the order in which the faces are looked at makes no difference
TagOf(q, R, x) == R.tags[CHOOSE i \in DOMAIN q : q[i].k = x[1] /\ q[i].m = x[2]]
Deterministic == Good => LET Rs == {<<q, Result(q)>> : q \in Orders} IN \A x \in Faces(fan) : Cardinality({TagOf(r[1], r[2], x) : r \in Rs}) = 1
\* a balanced fan at the border is like one that goes around
BorderLikeAround == Good /\ ~around /\ Balanced(fan) => \A x \in Faces(fan) : Truth(fan, FALSE, x[1], x[2]) = Truth(fan, TRUE, x[1], x[2])
\* membership in both meshes as one goes around, from the truth of the faces, is the same picture for both meshes
Mutual == Good /\ around => \A x \in Faces(fan) : Truth(fan, around, x[1], x[2]) = "COP" <=> \E y \in Faces(fan) : y[1] = x[1] /\ y[2] # x[2] /\ Dir(fan, y[1], y[2]) = Dir(fan, x[1], x[2])
Gen == Generate /\ Good => PrintT("FAN " \o ToJson([around |-> around, fan |-> [k \in DOMAIN fan |-> LET q == SetToSeq(fan[k]) IN [i \in DOMAIN q |-> [m |-> q[i].m, o |-> q[i].o, t |-> Truth(fan, around, k, q[i].m)]]]]))
=============================================================================
