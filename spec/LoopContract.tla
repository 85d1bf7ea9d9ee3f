----------------------------- MODULE LoopContract -----------------------------
(* What a caller of the parallel loop may observe, as a state machine: c is the *)
(* observed state of one call, each operator pair gives the condition under     *)
(* which an observation is allowed and the state after it.  `own` are the       *)
(* elements that a state object has seen.                                       *)
EXTENDS Integers, Sequences, FiniteSets

Idle == [on |-> FALSE]
CallOK(c) == ~c.on
Call(n, t, st) == [on |-> TRUE, n |-> n, t |-> t, st |-> st, begun |-> {}, active |-> {}, own |-> [s \in {} |-> <<>>],
                   posted |-> {}, inpost |-> 0, thrown |-> {}, dead |-> {}]
Own(c, s) == IF s \in DOMAIN c.own THEN c.own[s] ELSE <<>>
PutOwn(c, s, q) == [x \in DOMAIN c.own \cup {s} |-> IF x = s THEN q ELSE c.own[x]]

\* element i begins with state s (0 when the loop has none), whose recorded work is `seen`
BeginOK(c, i, s, seen) ==
  /\ c.on /\ i \in 1..c.n /\ i \notin c.begun
  /\ Cardinality(c.active) < c.t
  /\ c.st => /\ s # 0 /\ s \notin {a[2] : a \in c.active} /\ s \notin c.posted /\ s \notin c.dead
             /\ seen = Own(c, s)
             /\ (s \in DOMAIN c.own \/ Cardinality(DOMAIN c.own) < c.t)
Begin(c, i, s) == [c EXCEPT !.begun = c.begun \cup {i}, !.active = c.active \cup {<<i, s>>},
                            !.own = IF c.st THEN PutOwn(c, s, Append(Own(c, s), i)) ELSE c.own]
EndOK(c, i, s) == c.on /\ <<i, s>> \in c.active
End(c, i, s) == [c EXCEPT !.active = c.active \ {<<i, s>>}]
ThrowOK(c, i, s) == EndOK(c, i, s)
Throw(c, i, s) == [c EXCEPT !.active = c.active \ {<<i, s>>}, !.thrown = c.thrown \cup {i}, !.dead = c.dead \cup {s}]
PostOK(c, s, seen) ==
  /\ c.on /\ c.st /\ c.n > 0 /\ c.inpost = 0 /\ s # 0
  /\ s \notin c.posted /\ s \notin c.dead /\ s \notin {a[2] : a \in c.active}
  /\ seen = Own(c, s)
  /\ (s \in DOMAIN c.own \/ Cardinality(DOMAIN c.own) < c.t)
Post(c, s) == [c EXCEPT !.inpost = s, !.posted = c.posted \cup {s}, !.own = PutOwn(c, s, Own(c, s))]
PostEndOK(c, s) == c.on /\ c.inpost = s
PostEnd(c, s) == [c EXCEPT !.inpost = 0]
\* merging the state s throws; its exception is known as 100
PostThrow(c, s) == [c EXCEPT !.inpost = 0, !.thrown = c.thrown \cup {100}]
\* the call returns: normally (e = 0) or with the exception of element e
ReturnOK(c, e) ==
  /\ c.on /\ c.active = {} /\ c.inpost = 0
  /\ IF c.thrown = {} THEN /\ e = 0 /\ c.begun = 1..c.n
                           /\ (c.st => DOMAIN c.own = c.posted)
                           /\ (c.st /\ c.n > 0 => c.posted # {})
     ELSE e \in c.thrown
=============================================================================
