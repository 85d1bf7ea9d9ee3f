----------------------------- MODULE ContextTrace -----------------------------
(* Validates recorded histories of option scopes: after every step every live   *)
(* thread reports the values in force for it.                                   *)
EXTENDS ContextOps, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, alive, scopes, hw
vars == <<l, alive, scopes, hw>>
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
Th == 1..4
\* what every thread sees; e.see: records of thread and values
Seen == /\ {E.see[i].t : i \in DOMAIN E.see} = alive' /\ Len(E.see) = Cardinality(alive')
        /\ \A i \in DOMAIN E.see : \A o \in Types : E.see[i][o] = InForce(scopes'[E.see[i].t], o, hw')
TWorld == Is("world") /\ hw' = E.hw /\ alive' = {1} /\ scopes' = [t \in Th |-> <<>>]
TStart == Is("start") /\ E.t \notin alive /\ alive' = alive \cup {E.t} /\ UNCHANGED <<scopes, hw>> /\ Seen = TRUE
TExit == Is("exit") /\ E.t \in alive /\ alive' = alive \ {E.t} /\ scopes' = [scopes EXCEPT ![E.t] = <<>>] /\ UNCHANGED hw /\ Seen = TRUE
TPush == Is("push") /\ scopes' = [scopes EXCEPT ![E.t] = Append(@, [o |-> E.o, v |-> E.v])] /\ UNCHANGED <<alive, hw>> /\ Seen = TRUE
TPop == Is("pop") /\ scopes[E.t] # <<>> /\ scopes' = [scopes EXCEPT ![E.t] = Drop(@, 1)] /\ UNCHANGED <<alive, hw>> /\ Seen = TRUE
TThrow == Is("throw") /\ E.n <= Len(scopes[E.t]) /\ scopes' = [scopes EXCEPT ![E.t] = Drop(@, E.n)] /\ UNCHANGED <<alive, hw>> /\ Seen = TRUE
\* a parallel loop of k items: at most as many threads as configured and items; its threads see defaults or what they set
LoopOk ==
  LET n == InForce(scopes[E.t], "T", hw)
      mine == InForce(scopes[E.t], "T", hw) IN
  /\ E.threads >= 1 /\ E.threads <= n /\ E.threads <= E.k
  /\ IF E.kind = "throw" THEN E.items <= E.k /\ E.caught ELSE E.items = E.k /\ ~E.caught
  /\ \A i \in DOMAIN E.other : E.other[i] = Default("T", hw)
  /\ \A i \in DOMAIN E.own : E.own[i] = mine
  /\ \A i \in DOMAIN E.set : E.set[i] = Clamp(E.v, hw)
TPar == Is("par") /\ UNCHANGED <<alive, scopes, hw>> /\ LoopOk = TRUE /\ Seen = TRUE
TEnd == Is("end") /\ UNCHANGED <<alive, scopes, hw>>
Init == l = 1 /\ alive = {} /\ scopes = <<>> /\ hw = 1
Next == TWorld \/ TStart \/ TExit \/ TPush \/ TPop \/ TThrow \/ TPar \/ TEnd
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
