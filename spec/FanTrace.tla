------------------------------- MODULE FanTrace -------------------------------
(* Validates recorded classifications of the faces around one edge: positions   *)
(* are decided from the integer coordinates of the faces.                       *)
EXTENDS Fan, Vec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l
EV == Trace[l]
Is(k) == l <= Len(Trace) /\ EV.ev = k /\ l' = l + 1
P(v) == EV.pts[v + 1]
Verts(i) == {EV.fs[i][1], EV.fs[i][2], EV.fs[i][3]}
FanFacesOf == {i \in DOMAIN EV.fs : EV.p \in Verts(i) /\ EV.q \in Verts(i)}
R(i) == CHOOSE v \in Verts(i) : v # EV.p /\ v # EV.q
Way(i) == IF \E k \in 1..3 : EV.fs[i][k] = EV.p /\ EV.fs[i][(k % 3) + 1] = EV.q THEN "+" ELSE "-"
EE == Sub(P(EV.q), P(EV.p))
\* counterclockwise angles around the edge
D(x, y) == Sgn(Dot(EE, Cross(x, y)))
SameSide(x, y) == Dot(x, y) * Dot(EE, EE) - Dot(x, EE) * Dot(y, EE) > 0
SameDir(x, y) == D(x, y) = 0 /\ SameSide(x, y)
Half(ref, x) == IF D(ref, x) > 0 \/ SameDir(ref, x) THEN 0 ELSE 1
Less(ref, x, y) == Half(ref, x) < Half(ref, y) \/ (Half(ref, x) = Half(ref, y) /\ D(x, y) > 0)
Rank(rs, x, first, a) == 1 + Cardinality({b \in rs : b # a /\ (b = first \/ (a # first /\ Less(x[first], x[b], x[a])))})
Borders == {{EV.bs[i][1], EV.bs[i][2]} : i \in DOMAIN EV.bs}
Touch(i, j) == LET c == Verts(i) \cap Verts(j) IN i # j /\ Cardinality(c) = 2 /\ c \notin Borders
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {j \in DOMAIN EV.fs : \E i \in S : Touch(i, j)} IN IF T = S THEN S ELSE Reach(T)
Judge ==
  LET faces == TLCEval(FanFacesOf)
      r == TLCEval([i \in faces |-> R(i)])
      o == TLCEval([i \in faces |-> Way(i)])
      rs == {r[i] : i \in faces}
      x == TLCEval([v \in rs |-> Sub(P(v), P(EV.p))])
      \* at the border the faces span at most half a turn, from the given one on
      first == TLCEval(IF EV.around THEN CHOOSE a \in rs : TRUE ELSE EV.start)
      \* two faces in one plane at the border: the code cannot see on which side of them the region lies
      flat == ~EV.around /\ Cardinality(rs) = 2 /\ \A a, b \in rs : D(x[a], x[b]) = 0
      rank == TLCEval([a \in rs |-> Rank(rs, x, first, a)])
      fan == TLCEval([k \in 1..Cardinality(rs) |-> {[m |-> EV.mesh[i], o |-> o[i]] : i \in {j \in faces : rank[r[j]] = k}}])
      truth == TLCEval([i \in faces |-> Truth(fan, EV.around, rank[r[i]], EV.mesh[i])])
      all == TLCEval(HasPair(fan) /\ (EV.around \/ Balanced(fan)))
      reach == TLCEval([i \in faces |-> Reach({i})]) IN
  /\ faces # {} /\ \A v \in rs : Cross(EE, x[v]) # Zero
  /\ (EV.around \/ (first \in rs /\ \A b \in rs : b = first \/ D(x[first], x[b]) > 0 \/ (D(x[first], x[b]) = 0 /\ ~SameSide(x[first], x[b]))))
  \* every mesh has at most one face in a direction, equal directions mean the same third vertex
  /\ \A a, b \in rs : a = b \/ ~SameDir(x[a], x[b])
  /\ \A i, j \in faces : i = j \/ r[i] # r[j] \/ EV.mesh[i] # EV.mesh[j]
  /\ Consistent(fan, EV.around)
  /\ \A i \in faces :
       /\ EV.tags[i] = truth[i] \/ (EV.tags[i] = "U" /\ ~all /\ ~(InPair(fan, rank[r[i]]) /\ ~flat) /\ truth[i] \notin {"COP", "OPP"} /\ EV.pre[i] = "U")
       /\ \A j \in reach[i] \ {i} : IF EV.tags[i] = "U" THEN EV.tags[j] = EV.pre[j] ELSE EV.tags[j] = EV.tags[i]
  /\ \A j \in DOMAIN EV.fs \ UNION {reach[i] : i \in faces} : EV.tags[j] = EV.pre[j]
TWorld == Is("world")
TFan == Is("fan") /\ EV.exc = "" /\ EV.warn = 0 /\ Len(EV.tags) = Len(EV.fs) /\ Judge = TRUE
TEnd == Is("end")
Init == l = 1
Next == TWorld \/ TFan \/ TEnd
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
