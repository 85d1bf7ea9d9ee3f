---------------------------------- MODULE Cli ---------------------------------
(* The tool as a machine: it parses all command lines of up to MaxToks tokens,  *)
(* reads its inputs, computes and writes one output after the other, and stops  *)
(* with a message at the first fault.  Whatever faults there are, it ends as    *)
(* CliOps says.  Keep: a fault while writing is not noticed (negative control). *)
(* Early: outputs are opened before the inputs are read (negative control).     *)
EXTENDS CliOps, TLC
CONSTANTS Cmds, MaxToks, Names, Keep, Early
VARIABLES cmd, toks, pc, val, todo, w
vars == <<cmd, toks, pc, val, todo, w>>
All(c) == Range(Operands(c)) \cup Options(c)
Tokens(c) == {[k |-> "pos", o |-> "", v |-> v] : v \in Names} \cup {[k |-> "named", o |-> o, v |-> v] : o \in All(c) \cup {"bogus"}, v \in Names} \cup {[k |-> "bare", o |-> o, v |-> ""] : o \in All(c)}
Outs == {"int", "uni", "dif", "sym", "out"}
\* file contents: 0 none, 1 old, 2.. what the library writes
Content == [o \in Outs |-> CASE o = "int" -> 2 [] o = "uni" -> 3 [] o = "dif" -> 4 [] o = "sym" -> 5 [] OTHER -> 6]
W0 == [readable |-> [v \in Names |-> TRUE], writable |-> [v \in Names |-> TRUE], built |-> TRUE, made |-> [o \in Outs |-> TRUE], content |-> Content,
       before |-> [f \in Names |-> 1], after |-> [f \in Names |-> 1], status |-> 0, message |-> FALSE]
Init == cmd \in Cmds /\ toks = <<>> /\ pc = "args" /\ val = [o \in All(cmd) |-> ""] /\ todo = {} /\ w = W0
\* the state of the world that a well-formed request meets
Worlds == {x \in [readable: [Names -> BOOLEAN], writable: [Names -> BOOLEAN], built: BOOLEAN, made: [Outs -> BOOLEAN], e: {0, 1}] :
             /\ \A o \in Outs : ~x.made[o] => o \in Options(cmd)
             /\ x.built \/ cmd = "boolean"}
Arg == pc = "args" /\ Len(toks) < MaxToks /\ (IF Len(toks) = 0 THEN TRUE ELSE toks[Len(toks)].k # "bare") /\ \E t \in Tokens(cmd) : toks' = Append(toks, t) /\ UNCHANGED <<cmd, pc, val, todo, w>>
Fail == pc' = "done" /\ w' = [w EXCEPT !.status = 1, !.message = TRUE]
Parse ==
  /\ pc = "args" /\ UNCHANGED <<cmd, toks>>
  /\ IF WellFormed(cmd, toks)
     THEN /\ val' = [o \in All(cmd) |-> Value(cmd, toks, o)] /\ pc' = "read" /\ todo' = {o \in Outputs(cmd) : val'[o] # ""}
          /\ \E x \in Worlds :
               LET old == [f \in Names |-> IF x.readable[f] THEN 1 ELSE x.e] IN
               /\ \A o \in Outs : ~x.made[o] => o \in todo'
               /\ w' = [W0 EXCEPT !.readable = x.readable, !.writable = x.writable, !.built = x.built, !.made = x.made, !.before = old,
                                 !.after = IF Early THEN [f \in Names |-> IF \E o \in todo' : val'[o] = f /\ x.writable[f] THEN 0 ELSE old[f]] ELSE old]
     ELSE Fail /\ UNCHANGED <<val, todo>>
Read == pc = "read" /\ UNCHANGED <<cmd, toks, val, todo>> /\ IF \A o \in Inputs(cmd) : w.readable[val[o]] THEN pc' = "build" /\ UNCHANGED w ELSE Fail
Build == pc = "build" /\ UNCHANGED <<cmd, toks, val, todo>> /\ IF w.built THEN pc' = "write" /\ UNCHANGED w ELSE Fail
Write(o) == pc = "write" /\ o \in todo /\ UNCHANGED <<cmd, toks, val>> /\ todo' = todo \ {o} /\
  (IF w.made[o] /\ w.writable[val[o]] THEN UNCHANGED pc /\ w' = [w EXCEPT !.after[val[o]] = Content[o]] ELSE IF Keep /\ w.made[o] THEN UNCHANGED <<pc, w>> ELSE Fail)
Done == pc = "write" /\ todo = {} /\ pc' = "done" /\ UNCHANGED <<cmd, toks, val, todo, w>>
Next == Arg \/ Parse \/ Read \/ Build \/ (\E o \in Outs : Write(o)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Parse \/ Read \/ Build \/ (\E o \in Outs : Write(o)) \/ Done)
EndsRight == pc = "done" => IF WellFormed(cmd, toks) THEN Outcome(cmd, [o \in All(cmd) |-> Value(cmd, toks, o)], w) ELSE Refused(w)
Ends == <>(pc = "done")
\* nothing that was given is ignored, and names and positions mean the same
NothingIgnored == WellFormed(cmd, toks) => Cardinality({o \in All(cmd) : Value(cmd, toks, o) # ""}) = Len(toks)
AsNamed == WellFormed(cmd, toks) => LET n == [i \in DOMAIN toks |-> [k |-> "named", o |-> Target(cmd, toks, i), v |-> toks[i].v]] IN
             WellFormed(cmd, n) /\ \A o \in All(cmd) : Value(cmd, n, o) = Value(cmd, toks, o)
NotBoth == ~(WellFormed(cmd, toks) /\ Unclear(cmd, toks))
=============================================================================
