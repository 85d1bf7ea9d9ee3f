------------------------------ MODULE DefectsMC -------------------------------
(* The definitions of Defects against other ways to say the same, for every     *)
(* collection of up to MaxF faces over NV vertices (repeated vertices, repeated *)
(* and opposite faces included).                                                *)
EXTENDS Defects, TLC
CONSTANTS NV, MaxF, Star           \* Star: only faces at vertex 0
VARIABLES F
Faces3 == {f \in [1..3 -> 0..(NV - 1)] : IF Star THEN f[1] = 0 /\ f[2] # f[3] /\ f[2] # 0 /\ f[3] # 0 /\ f[2] < f[3] ELSE f[1] <= f[2] /\ (f[1] = f[2] => f[2] <= f[3])}
Init == F = <<>>
Next == Len(F) < MaxF /\ \E f \in Faces3 : F' = Append(F, f)
Spec == Init /\ [][Next]_F

\* a fan or cycle by an order of the faces in which neighbours share a spoke and nothing else does
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
Spokes(v, i, j) == Side(F, v, i) \cap Side(F, v, j)
InOrder(v, q, cyc) ==
  LET n == Len(q) IN
  \A i, j \in 1..n : i < j => LET next == j = i + 1 \/ (cyc /\ i = 1 /\ j = n) IN Cardinality(Spokes(v, q[i], q[j])) = (IF next THEN 1 ELSE 0)
\* a path's middle faces use both spokes, one for each neighbour
Straight(v, q, cyc) ==
  LET n == Len(q) IN
  \A i \in 1..n : LET p == IF i = 1 THEN (IF cyc THEN n ELSE 0) ELSE i - 1
                      s == IF i = n THEN (IF cyc THEN 1 ELSE 0) ELSE i + 1
                  IN p # 0 /\ s # 0 => Spokes(v, q[p], q[i]) # Spokes(v, q[i], q[s])
FanByOrder(v) ==
  LET L == Link(F, v)  n == Cardinality(L) IN
  \E q \in Perms(L) : (InOrder(v, q, FALSE) /\ Straight(v, q, FALSE)) \/ (n >= 3 /\ InOrder(v, q, TRUE) /\ Straight(v, q, TRUE))
FanAgrees == \A v \in 0..(NV - 1) : Link(F, v) # {} => (OneFan(F, v) <=> FanByOrder(v))
\* every edge is fine (used once each way) or in exactly one of the three lists
EdgesAgree ==
  \A e \in Edges(F) :
    LET n == (IF e \in BoundaryEdges(F) THEN 1 ELSE 0) + (IF e \in InconsistentEdges(F) THEN 1 ELSE 0) + (IF e \in NonManifoldEdges(F) THEN 1 ELSE 0)
    IN IF EdgeUse(F, e) = {1} THEN n = 0 ELSE n = 1
\* in a collection without such edges every vertex has as many faces as neighbours, and the faces' directions cancel
Balanced ==
  BoundaryEdges(F) \cup InconsistentEdges(F) \cup NonManifoldEdges(F) = {} =>
    \A v \in 0..(NV - 1) : Cardinality(Ends(F, v)) = Cardinality(Link(F, v))
\* an edge used by more than two faces makes its ends non-manifold
EdgeMakesVertex == \A e \in NonManifoldEdges(F) : e \subseteq NonManifoldVertices(NV, F)
Partition == TrivialFaces(F) \cap Solid(F) = {} /\ TrivialFaces(F) \cup Solid(F) = DOMAIN F
=============================================================================
