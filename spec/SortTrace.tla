------------------------------ MODULE SortTrace -------------------------------
(* Validates recorded calls of the parallel sort.  Element i of the input has   *)
(* the key inp[i]; the output is described by keys and the identities of the    *)
(* elements that are now there.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
SortedPermutation(e) ==
  /\ e.exc = "" /\ e.intact = 1
  /\ Len(e.inp) = e.n /\ Len(e.out) = e.n /\ Len(e.ids) = e.n
  /\ {e.ids[i] : i \in 1..e.n} = 1..e.n
  /\ \A i \in 1..e.n : e.out[i] = e.inp[e.ids[i]]
  /\ \A i \in 1..e.n - 1 : e.out[i] <= e.out[i + 1]
Next == Is("world") \/ Is("end") \/ (Is("sort") /\ SortedPermutation(E) = TRUE)
Spec == l = 1 /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
