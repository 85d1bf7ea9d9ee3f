-------------------------- MODULE MeshTopologyTrace ---------------------------
(* Validates recorded adjacency queries against MeshTopology.                   *)
EXTENDS MeshTopology, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
Up(q) == {q[i] + 1 : i \in DOMAIN q}
Border == {{E.bs[i][1], E.bs[i][2]} : i \in DOMAIN E.bs}
Answers ==
  /\ Len(E.edges) = Len(E.qe) /\ Len(E.faces) = Len(E.qf)
  /\ \A i \in DOMAIN E.qe : LET A == Up(E.edges[i]) IN
       /\ A = AroundEdge(E.fs, E.qe[i][1], E.qe[i][2])
       /\ (\A j \in A : Cardinality(Vs(E.fs[j])) = 3) => Cardinality(A) = Len(E.edges[i])
  /\ \A i \in DOMAIN E.qf : LET f == E.qf[i] + 1  A == Up(E.faces[i]) \ {f} IN
       AroundFaceMust(E.fs, f, Border) \subseteq A /\ A \subseteq AroundFaceMay(E.fs, f, Border)
TWorld == Is("world")
TTopo == Is("topo") /\ E.exc = "" /\ Answers = TRUE
TEnd == Is("end")
Init == l = 1
Next == TWorld \/ TTopo \/ TEnd
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
