----------------------------- MODULE TriTriTrace ------------------------------
(* Validates recorded triangle-triangle intersections against TriTri.  Points   *)
(* have ids: a point constructed for several pairs must keep one id, and one id *)
(* must stand for one point.                                                    *)
EXTENDS TriTri, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, pts                \* pts: set of <<id, x, y, z, w>>
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
Set(q) == {q[i] : i \in DOMAIN q}
Corner(i) == <<Set(E.c[i].f), Set(E.c[i].g)>>
Known(S) == \A a, b \in S : (a[1] = b[1]) <=> (SubSeq(a, 2, 5) = SubSeq(b, 2, 5))
New == {<<E.c[i].id>> \o E.c[i].x : i \in DOMAIN E.c}
Right ==
  /\ {Corner(i) : i \in DOMAIN E.c} = Corners(E.t, E.u)
  /\ Cardinality({Corner(i) : i \in DOMAIN E.c}) = Len(E.c)
  /\ Cyclic([i \in DOMAIN E.c |-> Corner(i)])
  /\ \A i \in DOMAIN E.c : LET p == E.c[i].x  x == SubSeq(p, 1, 3) IN
       /\ p[4] > 0 /\ OnFeature(x, p[4], E.t, Corner(i)[1]) /\ OnFeature(x, p[4], E.u, Corner(i)[2])
  /\ \A a \in New, b \in New \cup pts : (a[1] = b[1]) <=> (SubSeq(a, 2, 5) = SubSeq(b, 2, 5))
TWorld == Is("world") /\ pts' = {<<E.pts[i][1], E.pts[i][2], E.pts[i][3], E.pts[i][4], 1>> : i \in DOMAIN E.pts} /\ Known(pts') = TRUE
TTri == Is("tri") /\ E.exc = "" /\ Right = TRUE /\ pts' = pts \cup New
TEnd == Is("end") /\ UNCHANGED pts
Init == l = 1 /\ pts = {}
Next == TWorld \/ TTri \/ TEnd
Spec == Init /\ [][Next]_<<l, pts>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
