------------------------------- MODULE IoFault -------------------------------
(* Writing through a buffered stream onto a device that accepts A bytes, and     *)
(* reading a file of N bytes from a device that ends or fails after A bytes.      *)
(* The destination of a read holds "old" until the read has succeeded.           *)
EXTENDS Integers, TLC
CONSTANTS MaxN, MaxBuf,
          FlushBeforeResult,   \* FALSE: the result is taken before buffered data reaches the device (negative control)
          CheckAtEnd,          \* FALSE: the reader does not look at the stream after its last item (negative control)
          Commit               \* FALSE: the reader assigns to the destination as it goes (negative control)
VARIABLES op, N, A, buf,       \* job, bytes, device limit, buffer size
          sent, inbuf, dev, fail, res, dest
vars == <<op, N, A, buf, sent, inbuf, dev, fail, res, dest>>
Init == /\ op \in {"write", "read"} /\ N \in 0..MaxN /\ A \in 0..MaxN + 1 /\ buf \in 0..MaxBuf
        /\ sent = 0 /\ inbuf = 0 /\ dev = 0 /\ fail = FALSE /\ res = "none" /\ dest = "old"
Same == UNCHANGED <<op, N, A, buf>>
\* the device takes what it can; the rest is lost and the stream is bad
Drain(n) == IF dev + n <= A THEN dev' = dev + n /\ inbuf' = 0 /\ UNCHANGED fail
            ELSE dev' = A /\ inbuf' = 0 /\ fail' = TRUE
Put == /\ op = "write" /\ res = "none" /\ sent < N /\ sent' = sent + 1
       /\ IF fail THEN UNCHANGED <<inbuf, dev, fail>>
          ELSE IF inbuf < buf THEN inbuf' = inbuf + 1 /\ UNCHANGED <<dev, fail>>
          ELSE Drain(inbuf + 1)
       /\ UNCHANGED <<res, dest>> /\ Same
Flush == /\ op = "write" /\ res = "none" /\ sent = N /\ inbuf > 0 /\ ~fail /\ Drain(inbuf) /\ UNCHANGED <<sent, res, dest>> /\ Same
Result == /\ op = "write" /\ res = "none" /\ sent = N /\ (FlushBeforeResult => inbuf = 0 \/ fail)
          /\ res' = (IF fail THEN "failure" ELSE "success") /\ UNCHANGED <<sent, inbuf, dev, fail, dest>> /\ Same
Close == /\ op = "write" /\ res # "none" /\ inbuf > 0 /\ ~fail /\ Drain(inbuf) /\ UNCHANGED <<sent, res, dest>> /\ Same
Get == /\ op = "read" /\ res = "none" /\ sent < N
       /\ IF dev < A /\ ~fail THEN dev' = dev + 1 /\ UNCHANGED fail ELSE fail' = TRUE /\ UNCHANGED dev
       /\ sent' = sent + 1 /\ dest' = (IF Commit THEN dest ELSE "partial") /\ UNCHANGED <<inbuf, res>> /\ Same
Return == /\ op = "read" /\ res = "none" /\ sent = N
          /\ IF fail /\ CheckAtEnd THEN res' = "failure" /\ UNCHANGED dest ELSE res' = "success" /\ dest' = "new"
          /\ UNCHANGED <<sent, inbuf, dev, fail>> /\ Same
Next == Put \/ Flush \/ Result \/ Close \/ Get \/ Return
Spec == Init /\ [][Next]_vars
WriteHonest == res = "success" /\ op = "write" /\ ~ENABLED Close => dev = N
ReadHonest == res = "success" /\ op = "read" => A >= N
Intact == res = "failure" /\ op = "read" => dest = "old"
\* the outcomes by which the implementation is judged, for a fault after `a` of `n` bytes
WriteOutcome(n, a) == a >= n
ReadOutcome(n, a) == a >= n
Agree == res # "none" /\ ~ENABLED Close => (res = "success") = (IF op = "write" THEN WriteOutcome(N, A) ELSE ReadOutcome(N, A))
=============================================================================
