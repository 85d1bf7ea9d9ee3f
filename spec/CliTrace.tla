------------------------------- MODULE CliTrace -------------------------------
(* Validates recorded runs of the command line tool.                            *)
EXTENDS CliOps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
All(c) == Range(Operands(c)) \cup Options(c)
Vals == [o \in All(E.cmd) |-> Value(E.cmd, E.toks, o)]
\* warnings say which mesh; a success without warnings is silent
Warned == E.w.status = 0 => (E.warn1 = E.lib1 /\ E.warn2 = E.lib2 /\ (E.w.message <=> E.lib1 \/ E.lib2))
Reports == (E.cmd = "defects" /\ E.w.status = 0) => (Range(E.lines) = Range(E.counts) /\ Len(E.lines) = Len(E.counts))
Ran ==
  IF E.cmd \notin Commands THEN Refused(E.w)
  ELSE IF WellFormed(E.cmd, E.toks) THEN Outcome(E.cmd, Vals, E.w) /\ Warned /\ Reports
  ELSE IF Unclear(E.cmd, E.toks) THEN Refused(E.w) \/ (Outcome(E.cmd, E.moved, E.w) /\ Warned /\ Reports)
  ELSE Refused(E.w)
TWorld == Is("world")
TRun == Is("run") /\ Ran = TRUE
TEnd == Is("end")
Init == l = 1
Next == TWorld \/ TRun \/ TEnd
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
