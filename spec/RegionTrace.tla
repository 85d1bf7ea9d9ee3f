------------------------------ MODULE RegionTrace ------------------------------
(* Validates a recorded execution of the library against RegionOps: registers  *)
(* hold abstract regions, every logged call must be a step of the model and    *)
(* its logged observation must agree with the model's successor state.         *)
EXTENDS RegionOps, TLC, Json, IOUtils, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
CONSTANT FacetSet
Judge(f) == f \in FacetSet

VARIABLES l, w, regs, blds, par
vars == <<l, w, regs, blds, par>>

E == Trace[l]
W == Trace[w]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoRegs == [x \in {} |-> 0]
Exact == W.exact = 1

PrimVal(k) ==
  LET p == W.prims[k]
      mem == [i \in 1..Len(W.ps) |-> InPrim(p, W.ps[i])]
      germ == [i \in 1..Len(W.qb) |->
                LET b == InPrim(p, W.qb[i])
                    a == InPrim(p, W.qa[i])
                IN [b |-> b, a |-> a, id |-> IF b # a THEN p.ids[i] ELSE 0]]
  IN [kind |-> "B", mem |-> mem, germ |-> germ]

B2I(x) == IF x THEN 1 ELSE 0

KindOK(v, k) ==
  /\ k \in {"E", "F", "B"}
  /\ IF v.kind # "?" THEN k = v.kind
     ELSE (k = "E" => ~v.mem[1]) /\ (k = "F" => v.mem[1])

\* one face there, on the right side; a sample on a triangulation edge has two.
CovOK(g, c) ==
  IF ~HasB(g) THEN c = <<>>
  ELSE LET s == IF g.b THEN 1 ELSE -1 IN
       /\ Len(c) >= 1
       /\ \A i \in DOMAIN c : c[i][2] = s \/ c[i][2] = 2 * s
       /\ (Len(c) = 1 => c[1][2] = s) /\ (Len(c) > 1 => \A i \in DOMAIN c : c[i][2] = 2 * s)

IdOK(g, c) == HasB(g) => \E i \in DOMAIN c : c[i][1] = g.id

Obs(v, e) ==
  /\ e.exc = ""
  /\ e.consistent = 1
  /\ Judge("kind") => KindOK(v, e.kind)
  /\ Judge("mem") => IF e.kind = "B"
                     THEN /\ Len(e.mem) = Len(v.mem)
                          /\ \A i \in DOMAIN v.mem : e.mem[i] = B2I(v.mem[i])
                     ELSE \A i \in DOMAIN v.mem : v.mem[i] = (e.kind = "F")
  /\ Judge("bnd") => IF e.kind = "B"
                     THEN /\ Len(e.cov) = Len(v.germ)
                          /\ \A i \in DOMAIN v.germ : CovOK(v.germ[i], e.cov[i])
                     ELSE \A i \in DOMAIN v.germ : ~HasB(v.germ[i])
  /\ Judge("id") => (e.kind = "B" => /\ e.bad[7] = 0
                                     /\ \A i \in DOMAIN v.germ : IdOK(v.germ[i], e.cov[i]))
  /\ Judge("valid") => \A i \in 1..6 : e.bad[i] = 0

Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1

TWorld == Is("world") /\ w' = l /\ regs' = NoRegs /\ blds' = NoRegs /\ par' = NoRegs
TThreads == Is("threads") /\ UNCHANGED <<w, regs, blds, par>>
TPrim == /\ Is("prim")
         /\ LET v == PrimVal(E.k) IN Obs(v, E) = TRUE /\ regs' = Put(regs, E.r, v)
         /\ UNCHANGED <<w, blds, par>>
TSpecial == /\ Is("special")
            /\ LET v == Special(E.k, Len(W.ps), Len(W.qb)) IN Obs(v, E) = TRUE /\ regs' = Put(regs, E.r, v)
            /\ UNCHANGED <<w, blds, par>>
(* Partial intersections.  A world may consist of parts placed apart from each  *)
(* other; in every part, operand 1 and 2 meet in a way whose outcome is known:   *)
(*  cross: two rectangles crossing along a line, where they occupy the intervals *)
(*         [a,b] and [c,d]; a rectangle is separated iff it lies within the other*)
(*  box:   a box with cross-section [0,m]x[0,n] and a rectangle [p,q]x[r,s] in   *)
(*         the plane of the section; the box's surface is separated iff its      *)
(*         whole section lies within the rectangle; the rectangle always is      *)
(*  tube:  a square cut completely by one wall of a tube, the opposite wall of   *)
(*         the tube cuts it along [a,b] out of [0,n]; the tube always separates  *)
(* `first` tells which operand the rectangle/box/square named first is.          *)
Meets(t) ==
  CASE t.f = "cross" -> t.a < t.d /\ t.c < t.b
    [] t.f = "box" -> /\ t.p < t.m /\ 0 < t.q /\ t.r < t.n /\ 0 < t.s
                      /\ ~(0 < t.p /\ t.q < t.m /\ 0 < t.r /\ t.s < t.n)
    [] t.f = "tube" -> TRUE
PartialA(t) == Meets(t) /\
  CASE t.f = "cross" -> ~(t.c <= t.a /\ t.b <= t.d)
    [] t.f = "box" -> ~(t.p <= 0 /\ t.m <= t.q /\ t.r <= 0 /\ t.n <= t.s)
    [] t.f = "tube" -> ~(t.a <= 0 /\ t.n <= t.b)
PartialB(t) == t.f = "cross" /\ Meets(t) /\ ~(t.a <= t.c /\ t.d <= t.b)
Flag(op) == \E i \in DOMAIN W.parts : LET t == W.parts[i] IN IF t.first = op THEN PartialA(t) ELSE PartialB(t)
ExpWarn(x, y) ==
  IF "parts" \notin DOMAIN W THEN 0
  ELSE (IF Flag(x) THEN 1 ELSE 0) + (IF Flag(y) THEN 2 ELSE 0)

TBuild == /\ Is("build")
          /\ E.x \in DOMAIN regs /\ E.y \in DOMAIN regs
          /\ E.exc = ""
          /\ Judge("warn") => E.warn = ExpWarn(E.x, E.y)
          /\ Judge("same") => E.same = 1
          /\ blds' = Put(blds, E.b, <<regs[E.x], regs[E.y]>>)
          /\ UNCHANGED <<w, regs, par>>
TApply == /\ Is("apply")
          /\ E.b \in DOMAIN blds
          /\ LET v == BoolOp(E.op, E.pref = 1, blds[E.b][1], blds[E.b][2], Exact)
             IN Obs(v, E) = TRUE /\ regs' = Put(regs, E.r, v)
          /\ UNCHANGED <<w, blds, par>>
(* concurrent jobs: all read the registers as they were when the group began   *)
TPjob == /\ Is("pjob")
         /\ LET v == BoolOp(E.op, E.pref = 1, regs[E.x], regs[E.y], Exact)
            IN Obs(v, E) = TRUE /\ par' = Put(par, E.r, v)
         /\ Judge("warn") => E.warn = 0
         /\ UNCHANGED <<w, regs, blds>>
TPend == /\ Is("pend")
         /\ regs' = [x \in DOMAIN regs \cup DOMAIN par |-> IF x \in DOMAIN par THEN par[x] ELSE regs[x]]
         /\ par' = NoRegs /\ UNCHANGED <<w, blds>>
TCopy == /\ l <= Len(Trace) /\ E.ev \in {"copy", "assign", "reload"} /\ l' = l + 1
         /\ Obs(regs[E.s], E) = TRUE /\ regs' = Put(regs, E.r, regs[E.s])
         /\ UNCHANGED <<w, blds, par>>
TMove == /\ Is("move")
         /\ Obs(regs[E.s], E) = TRUE
         /\ regs' = [x \in (DOMAIN regs \ {E.s}) \cup {E.r} |-> IF x = E.r THEN regs[E.s] ELSE regs[x]]
         /\ UNCHANGED <<w, blds, par>>
(* point location: 1 inside, 0 outside, 2 boundary *)
SideOK(v, e) ==
  /\ e.exc = ""
  /\ \A i \in DOMAIN v.mem : e.sp[i] = B2I(v.mem[i])
  /\ \A i \in DOMAIN v.germ : e.sq[i] = IF HasB(v.germ[i]) THEN 2 ELSE B2I(v.germ[i].b)
TSide == /\ Is("side")
         /\ (Judge("side") => SideOK(regs[E.r], E)) = TRUE
         /\ UNCHANGED <<w, regs, blds, par>>
TEnd == Is("end") /\ UNCHANGED <<w, regs, blds, par>>

Init == l = 1 /\ w = 1 /\ regs = NoRegs /\ blds = NoRegs /\ par = NoRegs
Next == TWorld \/ TThreads \/ TPrim \/ TSpecial \/ TBuild \/ TApply \/ TPjob \/ TPend \/ TCopy \/ TMove \/ TSide \/ TEnd
Spec == Init /\ [][Next]_vars

TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
