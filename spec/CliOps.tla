-------------------------------- MODULE CliOps --------------------------------
(* What the command line tool must do.  A command line is a sequence of tokens:  *)
(* [k: "pos", v], [k: "named", o, v] (--o v), [k: "eq", o, v] (--o=v), [k:       *)
(* "bare", o] (--o at the end).  A command has operands, required and given by   *)
(* position or name, and options, given by name only.                            *)
EXTENDS Integers, Sequences, FiniteSets
Operands(cmd) == CASE cmd = "boolean" -> <<"first", "second">> [] cmd = "convert" -> <<"in", "out">> [] cmd = "defects" -> <<"in">> [] OTHER -> <<>>
Options(cmd) == IF cmd = "boolean" THEN {"int", "uni", "dif", "sym"} ELSE {}
Commands == {"boolean", "convert", "defects"}
Outputs(cmd) == CASE cmd = "boolean" -> Options(cmd) [] cmd = "convert" -> {"out"} [] OTHER -> {}
Inputs(cmd) == CASE cmd = "boolean" -> {"first", "second"} [] cmd \in {"convert", "defects"} -> {"in"} [] OTHER -> {}
Range(s) == {s[i] : i \in DOMAIN s}
IsName(t) == t.k \in {"named", "eq", "bare"}
Pos(toks, i) == Cardinality({j \in 1..i : toks[j].k = "pos"})
\* the option that token i sets, "" if none
Target(cmd, toks, i) ==
  IF IsName(toks[i]) THEN (IF toks[i].o \in Range(Operands(cmd)) \cup Options(cmd) THEN toks[i].o ELSE "")
  ELSE LET n == Pos(toks, i) IN IF n <= Len(Operands(cmd)) THEN Operands(cmd)[n] ELSE ""
Setters(cmd, toks, o) == {i \in DOMAIN toks : Target(cmd, toks, i) = o}
WellFormed(cmd, toks) ==
  /\ \A i \in DOMAIN toks : toks[i].k # "bare" /\ toks[i].v # "" /\ Target(cmd, toks, i) # ""
  /\ \A o \in Range(Operands(cmd)) : Cardinality(Setters(cmd, toks, o)) = 1
  /\ \A o \in Options(cmd) : Cardinality(Setters(cmd, toks, o)) <= 1
Value(cmd, toks, o) == LET S == Setters(cmd, toks, o) IN IF S = {} THEN "" ELSE toks[CHOOSE i \in S : TRUE].v
\* an operand is named although positions before it are taken by other values: whether the values move on is not documented
NamedOperands(cmd, toks) == {toks[i].o : i \in {j \in DOMAIN toks : IsName(toks[j])}} \cap Range(Operands(cmd))
Moved(cmd, toks) ==
  /\ \A i \in DOMAIN toks : toks[i].k # "bare" /\ toks[i].v # "" /\ (IsName(toks[i]) => toks[i].o \in Range(Operands(cmd)) \cup Options(cmd))
  /\ \A o \in NamedOperands(cmd, toks) \cup Options(cmd) : Cardinality({i \in DOMAIN toks : IsName(toks[i]) /\ toks[i].o = o}) <= 1
  /\ Pos(toks, Len(toks)) + Cardinality(NamedOperands(cmd, toks)) = Len(Operands(cmd))
Unclear(cmd, toks) == Moved(cmd, toks) /\ ~WellFormed(cmd, toks)

\* The outcome.  val: option -> value ("" if not given); w: the world: readable(v); built: whether the library can combine the
\* inputs; made(o): whether the library has a result for output o; writable(v); content(o, v): what the library writes for it;
\* before, after: file -> content (0 if there is none)
Given(cmd, val) == {o \in Outputs(cmd) : val[o] # ""}
Ready(cmd, val, w) == (\A o \in Inputs(cmd) : w.readable[val[o]]) /\ w.built
Succeeds(cmd, val, w) == Ready(cmd, val, w) /\ \A o \in Given(cmd, val) : w.made[o] /\ w.writable[val[o]]
For(cmd, val, f) == {o \in Given(cmd, val) : val[o] = f}
FilesOk(cmd, val, w, good) ==
  \A f \in DOMAIN w.before :
    IF For(cmd, val, f) = {} \/ ~Ready(cmd, val, w) THEN w.after[f] = w.before[f]
    ELSE w.after[f] \in {w.content[o] : o \in {p \in For(cmd, val, f) : w.made[p] /\ w.writable[f]}} \cup (IF good THEN {} ELSE {w.before[f]})
Outcome(cmd, val, w) ==
  LET good == Succeeds(cmd, val, w) IN
  /\ (w.status = 0) <=> good
  /\ ~good => w.status \in 1..125 /\ w.message
  /\ FilesOk(cmd, val, w, good)
\* a request that cannot be understood changes nothing
Refused(w) == w.status \in 1..125 /\ w.message /\ w.after = w.before
=============================================================================
