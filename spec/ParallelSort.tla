----------------------------- MODULE ParallelSort -----------------------------
(* Partition-wise sorting followed by rounds of pairwise merges, separated by a *)
(* barrier all threads take part in.  Sorting or merging a range is two steps   *)
(* (begin, finish) so that overlapping work by two threads is visible.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxP, PartLen, V,
          Barrier,       \* FALSE: no barrier between rounds (negative control)
          Clamp          \* FALSE: partners beyond the last partition are not cut off (negative control)

VARIABLES p, a, orig,                \* partitions, the range, its original content
          pc, dist, work, arrived, round
vars == <<p, a, orig, pc, dist, work, arrived, round>>
Min(x, y) == IF x < y THEN x ELSE y
T == 1..p
N == Len(a)
At(k) == (k - 1) * PartLen + 1       \* first index of partition k; partition p + 1 is the end
End(k) == IF k > p THEN N + 1 ELSE At(k)
Empty == <<0, 0>>
Init == /\ p \in 1..MaxP
        /\ \E extra \in 0..1 : a \in [1..(p * PartLen + extra) -> 0..V]
        /\ orig = a
        /\ pc = [t \in 1..MaxP |-> IF t <= p THEN "sort" ELSE "off"]
        /\ dist = [t \in 1..MaxP |-> 1] /\ work = [t \in 1..MaxP |-> Empty]
        /\ arrived = {} /\ round = 0
\* stable sort of positions f..l
RECURSIVE Ins(_, _)
Ins(q, x) == IF q = <<>> \/ q[Len(q)] <= x THEN Append(q, x) ELSE Append(Ins(SubSeq(q, 1, Len(q) - 1), x), q[Len(q)])
RECURSIVE SortSeq_(_)
SortSeq_(q) == IF q = <<>> THEN <<>> ELSE Ins(SortSeq_(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
Put(f, l, q) == [i \in 1..N |-> IF i >= f /\ i <= l THEN q[i - f + 1] ELSE a[i]]
\* a merge of two runs: what it produces if they are not sorted is not specified, so it leaves them as they are
Sorted(q) == \A i \in 1..Len(q) - 1 : q[i] <= q[i + 1]
RECURSIVE Merge(_, _)
Merge(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x
               ELSE IF y[1] < x[1] THEN <<y[1]>> \o Merge(x, Tail(y)) ELSE <<x[1]>> \o Merge(Tail(x), y)
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
BeginSort(t) == pc[t] = "sort" /\ Go(t, "sorting") /\ work' = [work EXCEPT ![t] = <<At(t), End(t + 1) - 1>>]
                /\ UNCHANGED <<p, a, orig, dist, arrived, round>>
EndSort(t) == /\ pc[t] = "sorting" /\ LET f == At(t) l == End(t + 1) - 1 IN a' = Put(f, l, SortSeq_(SubSeq(a, f, l)))
              /\ work' = [work EXCEPT ![t] = Empty] /\ Go(t, "loop") /\ UNCHANGED <<p, orig, dist, arrived, round>>
Loop(t) == /\ pc[t] = "loop" /\ Go(t, IF dist[t] < p THEN (IF Barrier THEN "arrive" ELSE "try") ELSE "off")
           /\ UNCHANGED <<p, a, orig, dist, work, arrived, round>>
Arrive(t) == /\ pc[t] = "arrive"
             /\ IF arrived \cup {t} = T THEN /\ arrived' = {} /\ round' = round + 1
                                             /\ pc' = [u \in 1..MaxP |-> IF u \in arrived \cup {t} THEN "try" ELSE pc[u]]
                ELSE arrived' = arrived \cup {t} /\ Go(t, "wait") /\ UNCHANGED round
             /\ UNCHANGED <<p, a, orig, dist, work>>
Mid(t) == IF Clamp THEN Min(t + dist[t], p + 1) ELSE t + dist[t]
Last(t) == IF Clamp THEN Min(t + 2 * dist[t], p + 1) ELSE t + 2 * dist[t]
Try(t) == /\ pc[t] = "try"
          /\ IF (t - 1) % (2 * dist[t]) = 0
             THEN Go(t, "merging") /\ work' = [work EXCEPT ![t] = <<At(t), (IF Clamp THEN End(Last(t)) ELSE At(Last(t))) - 1>>]
             ELSE Go(t, "next") /\ UNCHANGED work
          /\ UNCHANGED <<p, a, orig, dist, arrived, round>>
DoMerge(t) == /\ pc[t] = "merging"
              /\ LET f == At(t)  m == End(Mid(t))  l == End(Last(t))
                     x == SubSeq(a, f, m - 1)  y == SubSeq(a, m, l - 1)
                 IN a' = IF Sorted(x) /\ Sorted(y) THEN Put(f, l - 1, Merge(x, y)) ELSE a
              /\ work' = [work EXCEPT ![t] = Empty] /\ Go(t, "next") /\ UNCHANGED <<p, orig, dist, arrived, round>>
Advance(t) == /\ pc[t] = "next" /\ dist' = [dist EXCEPT ![t] = 2 * @] /\ Go(t, "loop")
              /\ UNCHANGED <<p, a, orig, work, arrived, round>>
Done == \A t \in T : pc[t] = "off"
Next == (Done /\ UNCHANGED vars) \/ \E t \in T : BeginSort(t) \/ EndSort(t) \/ Loop(t) \/ Arrive(t) \/ Try(t) \/ DoMerge(t) \/ Advance(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Disjoint == \A t, u \in T : t # u /\ work[t] # Empty /\ work[u] # Empty => work[t][2] < work[u][1] \/ work[u][2] < work[t][1]
InRange == \A t \in T : work[t] # Empty => work[t][1] >= 1 /\ work[t][2] <= N
Result == Done => Sorted(a) /\ \A x \in 0..V : Count(a, x) = Count(orig, x)
Finishes == <>Done
=============================================================================
