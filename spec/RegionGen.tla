------------------------------ MODULE RegionGen -------------------------------
(* Generates histories of calls on the region interface: TLC's random           *)
(* simulation walks this machine, each behaviour is replayed into the library.  *)
(* Registers 1 and 2 hold the operands of the world; a history mixes operators, *)
(* special operands, value operations, (de)serialisation, concurrent groups,    *)
(* thread-count changes and point location.                                     *)
EXTENDS RegionOps, TLC, Json, Randomization

CONSTANTS Modes,        \* call kinds this configuration uses (a sequence; repetitions are weights)
          Depth, NRegs

AllModes == <<"build", "build", "build", "apply", "apply", "apply", "apply", "apply", "special", "copy", "reload",
              "move", "threads", "side", "par", "newthread">>
ExprModes == <<"build", "build", "apply", "apply", "apply", "apply", "special">>
ValueModes == <<"build", "apply", "copy", "copy", "reload", "move", "side", "special">>
ThreadModes == <<"build", "apply", "apply", "threads", "par", "newthread">>

VARIABLES prog, have, last, mode
vars == <<prog, have, last, mode>>

Regs == 1..NRegs
Init == prog = <<>> /\ have = {1, 2} /\ last = <<1, 2>> /\ mode = 0
Go == mode # 0 /\ Len(prog) < Depth
M == Modes[mode]
Choose == mode = 0 /\ Len(prog) < Depth /\ mode' \in DOMAIN Modes /\ UNCHANGED <<prog, have, last>>
Do(c, h, p) == prog' = Append(prog, c) /\ have' = h /\ last' = p /\ mode' = 0

Build(x, y) == Do([c |-> "build", b |-> 1, x |-> x, y |-> y], have, <<x, y>>)
\* builder 1 holds the operands `last` (as they were when it was built)
Apply(r, op, p) == Do([c |-> "apply", r |-> r, b |-> 1, op |-> op, pref |-> p], have \cup {r}, last)
MkSpecial(r, k) == Do([c |-> "special", r |-> r, k |-> k], have \cup {r}, last)
Copy(c, r, s) == Do([c |-> c, r |-> r, s |-> s], have \cup {r}, last)
Move(r, s) == Do([c |-> "move", r |-> r, s |-> s], (have \ {s}) \cup {r}, last)
Threads(n) == Do([c |-> "threads", n |-> n], have, last)
Side(r) == Do([c |-> "side", r |-> r], have, last)
Par(js, t) == Do([c |-> "par", t |-> t, jobs |-> js], have \cup {js[i].r : i \in DOMAIN js}, last)
Fresh == Do([c |-> "newthread"], have, last)

Scratch == 3..NRegs
Job(r) == [r |-> r, x |-> RandomElement(have), y |-> RandomElement(have), op |-> RandomElement(Ops), pref |-> RandomElement({0, 1})]
Built == \E i \in DOMAIN prog : prog[i].c = "build"

Step ==
  /\ Go
  /\ \/ M = "build" /\ \E x, y \in have : Build(x, y)
     \/ M = "apply" /\ Built /\ \E r \in Scratch, op \in Ops, p \in {0, 1} : Apply(r, op, p)
     \/ M = "apply" /\ ~Built /\ Build(1, 2)
     \/ M = "special" /\ \E r \in Scratch, k \in {"E", "F"} : MkSpecial(r, k)
     \/ M = "copy" /\ \E r \in Scratch, s \in have, c \in {"copy", "assign"} : Copy(c, r, s)
     \/ M = "reload" /\ \E r \in Scratch, s \in have : Copy("reload", r, s)
     \/ M = "move" /\ \E r \in Scratch : IF (have \cap Scratch) \ {r} = {} THEN Copy("copy", r, 1)
                                         ELSE \E s \in (have \cap Scratch) \ {r} : Move(r, s)
     \/ M = "threads" /\ \E n \in {1, 2, 3, 8} : Threads(n)
     \/ M = "side" /\ \E r \in have : Side(r)
     \/ M = "par" /\ \E n \in {2, 3}, t \in {1, 2, 4} : Par([i \in 1..n |-> Job(2 + i)], t)
     \/ M = "newthread" /\ Fresh
Finish == Len(prog) = Depth /\ mode = 0 /\ mode' = 99 /\ UNCHANGED <<prog, have, last>>
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
\* printed once per behaviour, when the history is complete
Emit == (mode = 99) => PrintT("PROGRAM " \o ToJson(prog))
=============================================================================
