------------------------------- MODULE IoTrace -------------------------------
(* Validates recorded reads and writes of regions and text meshes.              *)
EXTENDS KigumiFile, TLC, Json, IOUtils
T == INSTANCE TextMesh
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
E == Trace[l]
Is(k) == l <= Len(Trace) /\ E.ev = k /\ l' = l + 1
\* writing a region: the bytes are those of the format, they load back into any destination, and writing again reproduces them
KWrite == /\ E.exc = "" /\ E.ok = 1 /\ E.rok = 1 /\ E.ok2 = 1 /\ E.again = 1 /\ E.stale = 0
          /\ E.bytes = Encode(E.region)
          /\ E.back = E.region
\* reading bytes: outcome and destination; `region` is what the bytes encode if a conforming writer made them
KRead == LET d == Decode(E.bytes, E.w) IN
  /\ E.exc = ""
  /\ (E.ok = 0 => E.got = E.before)
  /\ IF "region" \in DOMAIN E THEN Encode(E.region) = E.bytes /\ E.ok = 1 /\ E.got = E.region
     ELSE IF ~d.ok THEN E.ok = 0
     ELSE IF d.odd THEN TRUE
     ELSE E.ok = 1 /\ E.got.kind = d.kind /\ Len(E.got.v) = d.nv /\ E.got.f = d.f /\ E.got.d = d.d
\* faults after 0, 1, 2, ... bytes (see IoFault!WriteOutcome, ReadOutcome); a stream that throws right at the end of a text is a failing one
Fault == /\ E.exc = "" /\ Len(E.ok) >= E.len
         /\ \A k \in DOMAIN E.ok : (E.ok[k] = 1) = (k - 1 >= E.len)
         /\ ("same" \in DOMAIN E => \A k \in DOMAIN E.same : E.same[k] = 1)
TRead == LET d == T!Read(E.fmt, E.lines) IN
  /\ E.exc = ""
  /\ (E.ok = 0 => E.got = E.before)
  /\ (E.well = 1 => d.r = "ok")
  /\ (d.r = "ok" => E.ok = 1) /\ (d.r = "bad" => E.ok = 0)
  /\ (d.r = "ok" => E.got.v = d.v /\ E.got.f = d.f)
TWrite == LET d == T!Read(E.fmt, E.lines) IN
  /\ E.exc = "" /\ E.ok = 1 /\ E.rok = 1 /\ d.r = "ok"
  /\ d.f = E.f /\ E.back.f = E.f
  /\ Len(d.v) = Len(E.v) /\ Len(E.back.v) = Len(E.v)
  /\ \A i \in DOMAIN E.v : \A k \in 1..3 : d.v[i][k] \in {E.v[i][k][j] : j \in DOMAIN E.v[i][k]} /\ E.back.v[i][k] = d.v[i][k]
Path == E.exc = "" /\ E.refused = 1 /\ E.same = 1
Next == \/ Is("world") \/ Is("end")
        \/ Is("kwrite") /\ KWrite = TRUE
        \/ Is("kread") /\ KRead = TRUE
        \/ Is("fault") /\ Fault = TRUE
        \/ Is("tread") /\ TRead = TRUE
        \/ Is("twrite") /\ TWrite = TRUE
        \/ Is("path") /\ Path = TRUE
Spec == l = 1 /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) /\ Trace[Len(Trace)].ev = "end" THEN PrintT(<<"TRACE-ACCEPTED", d>>)
  ELSE PrintT(<<"TRACE-REJECTED", d + 1>>) /\ FALSE
=============================================================================
