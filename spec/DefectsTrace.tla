---------------------------- MODULE DefectsTrace ------------------------------
(* Validates recorded defect reports.  The report is about the collection after *)
(* vertices with equal coordinates have become one.                             *)
EXTENDS Defects, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
Set(q) == {q[i] : i \in DOMAIN q}
Once(q) == Cardinality(Set(q)) = Len(q)
Up(q) == {q[i] + 1 : i \in DOMAIN q}                  \* face numbers from one
EdgeSet(q) == {{q[i][1], q[i][2]} : i \in DOMAIN q}
EdgesOnce(q) == Cardinality(EdgeSet(q)) = Len(q)
Merged ==
  /\ Once(E.mv) /\ Set(E.mv) = Set(E.pts) /\ Len(E.mf) = Len(E.fs)
  /\ \A i \in DOMAIN E.fs : \A k \in 1..3 : E.mf[i][k] + 1 \in DOMAIN E.mv /\ E.mv[E.mf[i][k] + 1] = E.pts[E.fs[i][k] + 1]
Report ==
  LET n == Len(E.mv)  F == E.mf  V == E.mv IN
  /\ Once(E.iso) /\ Set(E.iso) = IsolatedVertices(n, F)
  /\ EdgesOnce(E.bnd) /\ EdgeSet(E.bnd) = BoundaryEdges(F)
  /\ EdgesOnce(E.inc) /\ EdgeSet(E.inc) = InconsistentEdges(F)
  /\ EdgesOnce(E.nme) /\ EdgeSet(E.nme) = NonManifoldEdges(F)
  /\ Once(E.nmv) /\ Set(E.nmv) = NonManifoldVertices(n, F)
  /\ Once(E.tri) /\ Up(E.tri) = TrivialFaces(F)
  /\ Once(E.deg) /\ Up(E.deg) = CollinearFaces(V, F)
  /\ Once(E.ovl)
  /\ LET B == BadPairs(V, F) IN
     /\ \A i \in Up(E.ovl) : \E p \in B : i = p[1] \/ i = p[2]
     /\ \A p \in B : p[1] \in Up(E.ovl) \/ p[2] \in Up(E.ovl)
     \* what a valid mesh is, said by the generator independently of the definitions above
     /\ E.valid = 1 => B = {} /\ E.iso = <<>> /\ E.inc = <<>> /\ E.nme = <<>> /\ E.nmv = <<>> /\ E.tri = <<>> /\ E.deg = <<>> /\ (E.closed = 1 => E.bnd = <<>>)
TWorld == Is("world")
TDefects == Is("defects") /\ E.exc = "" /\ (Merged /\ Report) = TRUE
TEnd == Is("end")
Init == l = 1
Next == TWorld \/ TDefects \/ TEnd
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
