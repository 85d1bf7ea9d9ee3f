--------------------------------- MODULE Fan ----------------------------------
(* The faces of two meshes around one edge p -> q.  A fan is a sequence of      *)
(* slots in counterclockwise order (seen against q - p); a slot is a set of one *)
(* face, or of two coinciding faces of different meshes; a face has its mesh m  *)
(* and direction o: "+" if it runs p, q, r.  The side after a "+" face (further *)
(* counterclockwise) is outside its mesh, the side after a "-" face inside.     *)
(* A fan either goes around completely or, at the border of the region that the *)
(* meshes are clipped to, only from its first slot to its last one.             *)
EXTENDS Integers, Sequences, FiniteSets
Opp(o) == IF o = "+" THEN "-" ELSE "+"
Of(fan, m) == {k \in DOMAIN fan : \E f \in fan[k] : f.m = m}
Dir(fan, k, m) == (CHOOSE f \in fan[k] : f.m = m).o
\* the next / previous slot after k in S, cyclically among 1..n
After(S, k, n) == CHOOSE j \in S : \A i \in S : (j - k - 1) % n <= (i - k - 1) % n
Before(S, k, n) == CHOOSE j \in S : \A i \in S : (k - j - 1) % n <= (k - i - 1) % n
\* each mesh's faces alternate: around the edge, or along the fan at the border
Alternates(fan, m, around) ==
  LET S == Of(fan, m)  n == Len(fan) IN
  /\ S # {}
  /\ \A k \in S : LET j == After(S, k, n) IN
       IF around THEN Dir(fan, j, m) # Dir(fan, k, m)
       ELSE j <= k \/ Dir(fan, j, m) # Dir(fan, k, m)
Consistent(fan, around) == \A m \in 1..2 : Alternates(fan, m, around)
Balanced(fan) == \A m \in 1..2 : Cardinality({k \in Of(fan, m) : Dir(fan, k, m) = "+"}) = Cardinality({k \in Of(fan, m) : Dir(fan, k, m) = "-"})

\* where the face of mesh m in slot k lies relative to the other mesh
Truth(fan, around, k, m) ==
  LET n == Len(fan)  x == 3 - m  S == Of(fan, x) IN
  IF k \in S THEN (IF Dir(fan, k, m) = Dir(fan, k, x) THEN "COP" ELSE "OPP")
  ELSE IF around \/ \E j \in S : j < k
       THEN (IF Dir(fan, Before(S, k, n), x) = "+" THEN "EXT" ELSE "INT")
       ELSE (IF Dir(fan, After(S, k, n), x) = "+" THEN "INT" ELSE "EXT")
Faces(fan) == UNION {{<<k, f.m>> : f \in fan[k]} : k \in DOMAIN fan}

\* slot k and the next one have faces of equal direction that coincide with nothing
PairAt(fan, k) == LET j == (k % Len(fan)) + 1 IN
  k # j /\ Cardinality(fan[k]) = 1 /\ Cardinality(fan[j]) = 1 /\ {f.o : f \in fan[k]} = {f.o : f \in fan[j]}
HasPair(fan) == \E k \in DOMAIN fan : PairAt(fan, k)
\* the face in slot k belongs to such a pair (the gap at a border is none, where the meshes are unbalanced)
InPair(fan, k) == LET n == Len(fan)  prev == IF k = 1 THEN n ELSE k - 1  gap == ~Balanced(fan) IN
  (PairAt(fan, k) /\ (k < n \/ ~gap)) \/ (PairAt(fan, prev) /\ (prev < n \/ ~gap))
\* what a classifier that does not look at the meshes of the faces could know: the same for all ways to distribute the faces over the meshes
Relabel(fan, B) == [k \in DOMAIN fan |-> IF k \in B THEN {[m |-> 3 - f.m, o |-> f.o] : f \in fan[k]} ELSE fan[k]]
TagAt(fan, around, k, o) == LET f == CHOOSE g \in fan[k] : g.o = o IN Truth(fan, around, k, f.m)
Deducible(fan, around, k, m) ==
  LET o == Dir(fan, k, m) IN
  \A B \in SUBSET DOMAIN fan : LET g == Relabel(fan, B) IN
    Consistent(g, around) => TagAt(g, around, k, o) = Truth(fan, around, k, m)
=============================================================================
