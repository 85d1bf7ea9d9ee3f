-------------------------------- MODULE Context -------------------------------
(* A design of scoped options: one current value per thread and type, and in    *)
(* every scope the value that was current when it began.  Shared and NoUnwind   *)
(* are negative controls: one current value for all threads; no restoring when  *)
(* a scope ends by an exception; Outer: the scope keeps the value of the        *)
(* outermost scope.                                                             *)
EXTENDS ContextOps, TLC, Json
CONSTANTS Threads, HW, TValues, MaxDepth, MaxSteps, Shared, NoUnwind, Outer, Generate
VARIABLES alive, scopes, cur, prog
vars == <<alive, scopes, cur, prog>>
Values(o) == IF o = "T" THEN TValues ELSE IF o = "W" THEN {0, 1} ELSE 0..2
Fresh == [o \in Types |-> Default(o, HW)]
Init == alive = [t \in Threads |-> t = 1] /\ scopes = [t \in Threads |-> <<>>] /\ cur = [t \in Threads |-> Fresh] /\ prog = <<>>
Log(r) == (~Generate \/ Len(prog) < MaxSteps) /\ prog' = IF Generate THEN Append(prog, r) ELSE prog
Slot(t) == IF Shared THEN 1 ELSE t
Start(t) == ~alive[t] /\ Log([c |-> "start", t |-> t]) /\ alive' = [alive EXCEPT ![t] = TRUE] /\ cur' = (IF Shared THEN cur ELSE [cur EXCEPT ![t] = Fresh]) /\ UNCHANGED scopes
Exit(t) == t # 1 /\ alive[t] /\ scopes[t] = <<>> /\ Log([c |-> "exit", t |-> t]) /\ alive' = [alive EXCEPT ![t] = FALSE] /\ UNCHANGED <<scopes, cur>>
Push(t, o, v) ==
  /\ alive[t] /\ Len(scopes[t]) < MaxDepth /\ Log([c |-> "push", t |-> t, o |-> o, v |-> v])
  /\ LET old == IF Outer /\ \E i \in DOMAIN scopes[t] : scopes[t][i].o = o THEN scopes[t][CHOOSE i \in DOMAIN scopes[t] : scopes[t][i].o = o].bak ELSE cur[Slot(t)][o] IN
     scopes' = [scopes EXCEPT ![t] = Append(@, [o |-> o, v |-> v, bak |-> old])]
  /\ cur' = [cur EXCEPT ![Slot(t)][o] = Effective(o, v, HW)] /\ UNCHANGED alive
RECURSIVE Unwind(_, _, _)
Unwind(c, s, n) == IF n = 0 THEN c ELSE Unwind([c EXCEPT ![s[Len(s)].o] = s[Len(s)].bak], Drop(s, 1), n - 1)
Leave(t, n, restore) ==
  /\ scopes' = [scopes EXCEPT ![t] = Drop(@, n)]
  /\ cur' = (IF restore THEN [cur EXCEPT ![Slot(t)] = Unwind(@, scopes[t], n)] ELSE cur) /\ UNCHANGED alive
Pop(t) == alive[t] /\ scopes[t] # <<>> /\ Log([c |-> "pop", t |-> t]) /\ Leave(t, 1, TRUE)
Throw(t, n) == alive[t] /\ n <= Len(scopes[t]) /\ Log([c |-> "throw", t |-> t, n |-> n]) /\ Leave(t, n, ~NoUnwind)
\* a parallel loop of k items: its threads begin with the defaults, and may set options of their own
Par(t, k, v, kind) == alive[t] /\ Log([c |-> "par", t |-> t, k |-> k, v |-> v, kind |-> kind]) /\ UNCHANGED <<alive, scopes, cur>>
Next == \E t \in Threads :
  \/ Start(t) \/ Exit(t) \/ Pop(t)
  \/ \E o \in Types : \E v \in Values(o) : Push(t, o, v)
  \/ \E n \in 1..MaxDepth : Throw(t, n)
  \/ Generate /\ \E k \in {1, 3, 40}, v \in {1, 2}, kind \in {"plain", "scope", "throw"} : Par(t, k, v, kind)
Spec == Init /\ [][Next]_vars
Right == \A t \in Threads : alive[t] => \A o \in Types : cur[Slot(t)][o] = InForce(scopes[t], o, HW)
Emit == Generate /\ Len(prog) = MaxSteps => PrintT("PROG " \o ToJson([prog |-> prog]))
=============================================================================
