------------------------------ MODULE LoopTrace -------------------------------
(* Validates recorded calls of the parallel loop against LoopContract.          *)
EXTENDS LoopContract, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, c
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
\* an observation: allowed, and the state after it
Obs(good, c2) == good = TRUE /\ c' = c2
TWorld == Is("world") /\ c' = Idle
TCall == Is("call") /\ Obs(CallOK(c), Call(E.n, E.t, E.st = 1))
TBegin == Is("b") /\ Obs(E.init = 77 /\ BeginOK(c, E.i, E.s, E.own), Begin(c, E.i, E.s))
TEnd1 == Is("e") /\ Obs(EndOK(c, E.i, E.s), End(c, E.i, E.s))
TThrow == Is("x") /\ Obs(ThrowOK(c, E.i, E.s), Throw(c, E.i, E.s))
TPost == Is("p") /\ Obs(E.init = 77 /\ PostOK(c, E.s, E.own), Post(c, E.s))
TPostEnd == Is("q") /\ Obs(PostEndOK(c, E.s), PostEnd(c, E.s))
TPostThrow == Is("y") /\ Obs(PostEndOK(c, E.s), PostThrow(c, E.s))
TReturn == Is("r") /\ Obs(ReturnOK(c, E.exc), Idle)
\* summary of a free-running call: how often each element was seen, the merged records of the workers, what was caught
SumOK(H, M, T) ==
  IF T = {} THEN /\ H \subseteq {1} /\ E.exc = 0 /\ Len(E.hits) = E.n
                 /\ (E.st = 1 => Len(E.merged) = E.n /\ M = 1..E.n)
  ELSE /\ H \subseteq {0, 1} /\ E.exc \in T /\ (E.exc # 100 => E.hits[E.exc] = 1)
       /\ Cardinality(M) = Len(E.merged) /\ \A i \in M : E.hits[i] = 1
Set(q) == {q[i] : i \in DOMAIN q}
TSum == Is("sum") /\ SumOK(Set(E.hits), Set(E.merged), Set(E.thr)) = TRUE /\ UNCHANGED c
\* the same of a long range, as counts: elements never run, run once; merged records, distinct ones; most bodies at a time; overlapping merges
BulkOK ==
  /\ E.conc <= E.t /\ E.over = 0 /\ E.mlen = E.mdist /\ E.sub = 1 /\ E.zero + E.one = E.n
  /\ IF Set(E.thr) = {} THEN E.exc = 0 /\ E.zero = 0 /\ (E.st = 1 => E.mlen = E.n)
     ELSE E.exc \in Set(E.thr) /\ E.hit = 1
TBulk == Is("bulk") /\ BulkOK = TRUE /\ UNCHANGED c
TEnd == Is("end") /\ ~c.on /\ UNCHANGED c
Init == l = 1 /\ c = Idle
Next == TWorld \/ TCall \/ TBegin \/ TEnd1 \/ TThrow \/ TPost \/ TPostEnd \/ TPostThrow \/ TReturn \/ TSum \/ TBulk \/ TEnd
Spec == Init /\ [][Next]_<<l, c>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
