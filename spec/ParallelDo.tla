------------------------------ MODULE ParallelDo ------------------------------
(* The loop's protocol: workers take indices from a shared counter, a mutex     *)
(* guards the merge of their states and the first exception, a flag stops the   *)
(* others.  Every observation it makes must be allowed by LoopContract.         *)
EXTENDS LoopContract, TLC

CONSTANTS MaxN, MaxT,
          AtomicNext,    \* FALSE: the counter is read and written separately (negative control)
          LockPost       \* FALSE: merging without the mutex (negative control)

VARIABLES n, t, thr,     \* elements, configured workers, elements whose body throws (100: the first merge throws)
          next, failed, lock, eptr,
          pc, idx, c, ok
vars == <<n, t, thr, next, failed, lock, eptr, pc, idx, c, ok>>
Min(a, b) == IF a < b THEN a ELSE b
W == 1..Min(t, n)

Init ==
  /\ n \in 0..MaxN /\ t \in 1..MaxT /\ thr \in SUBSET (1..n \cup {100})
  /\ next = 1 /\ failed = FALSE /\ lock = 0 /\ eptr = 0
  /\ pc = [w \in 1..MaxT |-> IF w \in W THEN "take" ELSE "off"]
  /\ idx = [w \in 1..MaxT |-> 0]
  /\ c = Call(n, t, TRUE) /\ ok = TRUE
Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Obs(good, c2) == ok' = (ok /\ good) /\ c' = c2
Quiet == UNCHANGED <<c, ok>>

Take(w) == /\ pc[w] = "take"
           /\ idx' = [idx EXCEPT ![w] = next]
           /\ IF AtomicNext THEN next' = next + 1 /\ Go(w, IF next > n THEN "lock" ELSE "begin")
              ELSE next' = next /\ Go(w, "store")
           /\ Quiet /\ UNCHANGED <<n, t, thr, failed, lock, eptr>>
Store(w) == /\ pc[w] = "store" /\ next' = idx[w] + 1 /\ Go(w, IF idx[w] > n THEN "lock" ELSE "begin")
            /\ Quiet /\ UNCHANGED <<n, t, thr, failed, lock, eptr, idx>>
BeginB(w) == /\ pc[w] = "begin" /\ Go(w, "end") /\ Obs(BeginOK(c, idx[w], w, Own(c, w)), Begin(c, idx[w], w))
             /\ UNCHANGED <<n, t, thr, next, failed, lock, eptr, idx>>
EndB(w) == /\ pc[w] = "end"
           /\ IF idx[w] \in thr THEN Go(w, "catch") /\ Obs(ThrowOK(c, idx[w], w), Throw(c, idx[w], w))
              ELSE Go(w, "check") /\ Obs(EndOK(c, idx[w], w), End(c, idx[w], w))
           /\ UNCHANGED <<n, t, thr, next, failed, lock, eptr, idx>>
Check(w) == /\ pc[w] = "check" /\ Go(w, IF failed THEN "off" ELSE "take")
            /\ Quiet /\ UNCHANGED <<n, t, thr, next, failed, lock, eptr, idx>>
Lock(w) == /\ pc[w] \in {"lock", "catch"} /\ (lock = 0 \/ (pc[w] = "lock" /\ ~LockPost))
           /\ lock' = IF pc[w] = "lock" /\ ~LockPost THEN lock ELSE w
           /\ Go(w, IF pc[w] = "lock" THEN "post" ELSE "keep")
           /\ Quiet /\ UNCHANGED <<n, t, thr, next, failed, eptr, idx>>
PostB(w) == /\ pc[w] = "post" /\ Go(w, "unlock") /\ Obs(PostOK(c, w, Own(c, w)), Post(c, w))
            /\ UNCHANGED <<n, t, thr, next, failed, lock, eptr, idx>>
PostE(w) == /\ pc[w] = "unlock"
            /\ LET bad == 100 \in thr /\ Cardinality(c.posted) = 1 IN
               IF bad THEN Go(w, "catch") /\ Obs(PostEndOK(c, w), PostThrow(c, w)) /\ idx' = [idx EXCEPT ![w] = 100]
               ELSE Go(w, "off") /\ Obs(PostEndOK(c, w), PostEnd(c, w)) /\ idx' = idx
            /\ lock' = IF lock = w THEN 0 ELSE lock
            /\ UNCHANGED <<n, t, thr, next, failed, eptr>>
Keep(w) == /\ pc[w] = "keep" /\ Go(w, "off") /\ lock' = 0
           /\ IF eptr = 0 THEN eptr' = idx[w] /\ failed' = TRUE ELSE UNCHANGED <<eptr, failed>>
           /\ Quiet /\ UNCHANGED <<n, t, thr, next, idx>>
Return == /\ c.on /\ \A w \in W : pc[w] = "off"
          /\ Obs(ReturnOK(c, eptr), Idle)
          /\ UNCHANGED <<n, t, thr, next, failed, lock, eptr, pc, idx>>
Stop == ~c.on /\ UNCHANGED vars
Next == Return \/ Stop \/ \E w \in W : Take(w) \/ Store(w) \/ BeginB(w) \/ EndB(w) \/ Check(w) \/ Lock(w) \/ PostB(w) \/ PostE(w) \/ Keep(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Allowed == ok
Returns == <>(~c.on)
=============================================================================
