------------------------------ MODULE SoupTrace -------------------------------
(* Validates recorded histories of face collections against SoupOps.            *)
EXTENDS SoupOps, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, objs
vars == <<l, objs>>
E == Trace[l]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == [x \in {} |-> 0]
Get(o) == objs[o]
Snap(i) == [v |-> E.all[i][2], f |-> E.all[i][3], d |-> E.all[i][4]]
\* every object's observed content is its value; `free` are objects whose content is unspecified (moved from)
SnapOK(m, free) ==
  IF "all" \notin DOMAIN E THEN TRUE ELSE
  /\ {E.all[i][1] : i \in DOMAIN E.all} = DOMAIN m
  /\ \A i \in DOMAIN E.all : E.all[i][1] \in free \/ Snap(i) = m[E.all[i][1]]
Observed(o) == LET i == CHOOSE i \in DOMAIN E.all : E.all[i][1] = o IN Snap(i)

Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
Op(c) == Is("op") /\ E.c = c /\ E.exc = ""
To(m) == SnapOK(m, {}) = TRUE /\ objs' = m

TWorld == Is("world") /\ objs' = None
TMk == Op("mk") /\ To(Put(objs, E.o, [v |-> E.v, f |-> E.f, d |-> E.d]))
TNew == Op("drop") /\ To(Put(objs, E.o, Empty))
TAddV == Op("addv") /\ E.r = Len(Get(E.o).v) /\ To(Put(objs, E.o, AddV(Get(E.o), E.p)))
TAddF == Op("addf") /\ E.r = Len(Get(E.o).f) /\ To(Put(objs, E.o, [v |-> Get(E.o).v, f |-> Append(Get(E.o).f, E.t), d |-> Append(Get(E.o).d, E.x)]))
TSetD == Op("setd") /\ To(Put(objs, E.o, SetD(Get(E.o), E.i + 1, E.x)))
TCopy == (Op("copy") \/ Op("assign")) /\ To(Put(objs, E.o, Get(E.s)))
TSwap == Op("swap") /\ To([Put(objs, E.o, Get(E.s)) EXCEPT ![E.s] = Get(E.o)])
\* the source of a move is left with some content, which the record shows
TMove == /\ (Op("mctor") \/ Op("massign"))
         /\ LET m == Put(objs, E.o, Get(E.s)) IN
            SnapOK(m, {E.s}) = TRUE /\ objs' = [m EXCEPT ![E.s] = Observed(E.s)]
Answers ==
  \/ E.ev = "box" /\ BoxAnswer(Get(E.o), E.l, E.h, E.q)
  \/ E.ev = "ray" /\ RayAnswer(Get(E.o), E.p, E.d, E.q)
  \/ E.ev = "val" /\ Get(E.o) = [v |-> E.v, f |-> E.f, d |-> E.d]
  \/ E.ev = "bb" /\ E.l = [k \in 1..3 |-> CHOOSE m \in {p[k] : p \in {Get(E.o).v[i] : i \in DOMAIN Get(E.o).v}} : \A i \in DOMAIN Get(E.o).v : m <= Get(E.o).v[i][k]]
                 /\ E.h = [k \in 1..3 |-> CHOOSE m \in {p[k] : p \in {Get(E.o).v[i] : i \in DOMAIN Get(E.o).v}} : \A i \in DOMAIN Get(E.o).v : m >= Get(E.o).v[i][k]]
  \* candidate pairs of faces of two collections: all pairs with overlapping boxes, except those already known to coincide on both sides
  \/ /\ E.ev = "pairs"
     /\ Cardinality({E.q[i] : i \in DOMAIN E.q}) = Len(E.q)
     /\ LET A == Get(E.o) B == Get(E.s)
            Known(m, i) == \E k \in DOMAIN m : m[k] + 1 = i
        IN {<<E.q[i][1] + 1, E.q[i][2] + 1>> : i \in DOMAIN E.q} =
           {p \in (1..Len(A.f)) \X (1..Len(B.f)) :
              Overlap(Lo(A, p[1]), Hi(A, p[1]), Lo(B, p[2]), Hi(B, p[2])) /\ ~(Known(E.ka, p[1]) /\ Known(E.kb, p[2]))}
TAnswer == l <= Len(Trace) /\ l' = l + 1 /\ E.ev \in {"box", "ray", "val", "bb", "pairs"} /\ E.exc = "" /\ Answers = TRUE /\ UNCHANGED objs
TThreads == Is("threads") /\ UNCHANGED objs
TEnd == Is("end") /\ UNCHANGED objs

Init == l = 1 /\ objs = None
Next == TWorld \/ TMk \/ TNew \/ TAddV \/ TAddF \/ TSetD \/ TCopy \/ TSwap \/ TMove \/ TAnswer \/ TThreads \/ TEnd
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
