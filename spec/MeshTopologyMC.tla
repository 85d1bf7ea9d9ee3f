--------------------------- MODULE MeshTopologyMC -----------------------------
(* The index against the definition for every list of up to MaxF faces over NV  *)
(* vertices.  Tail = FALSE leaves out the offsets after the last used vertex    *)
(* (negative control: isolated vertices at the end have no run).                *)
EXTENDS MeshTopology, TLC
CONSTANTS NV, MaxF, Tail_
VARIABLES F
Vx == 0..(NV - 1)
Init == F = <<>>
Next == Len(F) < MaxF /\ \E a, b, d \in Vx : F' = Append(F, <<a, b, d>>)
Spec == Init /\ [][Next]_F
ToSet_(q) == {q[i] : i \in DOMAIN q}
EveryRun == \A v \in Vx : HasRun(F, NV, v, Tail_) /\ ToSet_(Run(F, NV, v, Tail_)) = AroundVertex(F, v)
EveryEdge == \A a, b \in Vx : ToSet_(IndexEdge(F, NV, a, b, Tail_)) = AroundEdge(F, a, b)
\* a face without repeated vertices appears once around each of its edges
OnceEach == \A a, b \in Vx : a # b =>
  LET q == IndexEdge(F, NV, a, b, Tail_) IN \A i \in DOMAIN F : Cardinality(Vs(F[i])) = 3 => Cardinality({x \in DOMAIN q : q[x] = i}) <= 1
Symmetric == \A i, j \in DOMAIN F : (j \in AroundFaceMust(F, i, {})) => (i \in AroundFaceMay(F, j, {}))
=============================================================================
