------------------------------- MODULE AabbTree -------------------------------
(* Construction (with forked sub-constructions) and traversal of the spatial    *)
(* index, on one-dimensional boxes.  The index keeps no leaf counts: traversal  *)
(* has to re-derive the shape of the tree from the number of leaves, so both    *)
(* must agree on it, and concurrent constructions must fill disjoint nodes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN, V, Depth,        \* leaves, coordinates 0..V, fork depth limit
          Shift                  \* 0; a wrong offset of the right child (negative control)

Boxes == {<<a, b>> \in (0..V) \X (0..V) : a <= b}
Key(b) == b[1] * (V + 1) + b[2]
Sorted(q) == \A i \in 1..Len(q) - 1 : Key(q[i]) <= Key(q[i + 1])

VARIABLES box,                   \* leaf -> box
          at,                    \* position -> leaf (the array that is partitioned in place)
          node,                  \* node index -> node or NoNode
          tasks, writes
vars == <<box, at, node, tasks, writes>>
NoNode == [k |-> "none"]
N == Len(box)
Centre(i) == box[i][1] + box[i][2]
Hull(S) == <<CHOOSE m \in {box[i][1] : i \in S} : \A j \in S : m <= box[j][1],
             CHOOSE m \in {box[i][2] : i \in S} : \A j \in S : m >= box[j][2]>>
Overlap(b, q) == b[1] <= q[2] /\ q[1] <= b[2]

Init ==
  /\ box \in UNION {{q \in [1..n -> Boxes] : Sorted(q)} : n \in 0..MaxN}
  /\ at = [i \in 1..Len(box) |-> i]
  /\ node = [i \in 0..Len(box) |-> NoNode]
  /\ tasks = IF Len(box) >= 2 THEN {[n |-> 0, f |-> 1, l |-> Len(box), d |-> 0]} ELSE {}
  /\ writes = [i \in 0..Len(box) |-> 0]

\* sequential depth-first execution below the fork limit, any interleaving above it
Runnable(t) == \A u \in tasks : u = t \/ u.d < Depth + 1 \/ t.d < Depth + 1 \/ t.n <= u.n
Range(f, l) == {at[i] : i \in f..l}
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Seqs(S \ {m})
Rearrange(f, A, B) ==           \* the leaves A first, then B
  LET q == Seqs(A) \o Seqs(B) IN [i \in DOMAIN at |-> IF i >= f /\ i < f + Len(q) THEN q[i - f + 1] ELSE at[i]]

Write(k, v) == /\ node' = [node EXCEPT ![k] = v] /\ writes' = [writes EXCEPT ![k] = @ + 1]

Build(t) ==
  LET R == Range(t.f, t.l)
      n == t.l - t.f + 1
      h == Hull(R)
  IN /\ UNCHANGED box
     /\ CASE n = 2 -> /\ Write(t.n, [k |-> "LL", h |-> h, a |-> at[t.f], b |-> at[t.f + 1]])
                      /\ tasks' = tasks \ {t} /\ UNCHANGED at
          [] n = 3 -> \E s \in R :
                        /\ \A o \in R : Centre(s) <= Centre(o)
                        /\ at' = Rearrange(t.f, {s}, R \ {s})
                        /\ Write(t.n, [k |-> "LN", h |-> h, a |-> s, b |-> t.n + 1])
                        /\ tasks' = (tasks \ {t}) \cup {[n |-> t.n + 1, f |-> t.f + 1, l |-> t.l, d |-> t.d + 1]}
          [] OTHER -> LET hn == n \div 2 IN
                      \E A \in SUBSET R :
                        /\ Cardinality(A) = hn
                        /\ \A a \in A, b \in R \ A : Centre(a) <= Centre(b)
                        /\ at' = Rearrange(t.f, A, R \ A)
                        /\ Write(t.n, [k |-> "NN", h |-> h, a |-> t.n + 1, b |-> t.n + hn + Shift])
                        /\ tasks' = (tasks \ {t}) \cup
                             {[n |-> t.n + 1, f |-> t.f, l |-> t.f + hn - 1, d |-> t.d + 1],
                              [n |-> t.n + hn + Shift, f |-> t.f + hn, l |-> t.l, d |-> t.d + 1]}
Next == \E t \in tasks : Runnable(t) /\ Build(t)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ traversal
RECURSIVE Visit(_, _, _)
Hit(i, q) == IF Overlap(box[i], q) THEN <<i>> ELSE <<>>
Visit(k, n, q) ==
  CASE n = 2 -> Hit(node[k].a, q) \o Hit(node[k].b, q)
    [] n = 3 -> Hit(node[k].a, q) \o (IF Overlap(node[node[k].b].h, q) THEN Visit(node[k].b, 2, q) ELSE <<>>)
    [] OTHER -> (IF Overlap(node[node[k].a].h, q) THEN Visit(node[k].a, n \div 2, q) ELSE <<>>)
                \o (IF Overlap(node[node[k].b].h, q) THEN Visit(node[k].b, n - n \div 2, q) ELSE <<>>)
Query(q) == CASE N = 0 -> <<>> [] N = 1 -> Hit(1, q) [] OTHER -> Visit(0, N, q)
Kind(n) == IF n = 2 THEN "LL" ELSE IF n = 3 THEN "LN" ELSE "NN"
RECURSIVE ShapeOK(_, _)
ShapeOK(k, n) ==
  /\ k \in 0..N - 2 /\ node[k].k = Kind(n)
  /\ n = 3 => ShapeOK(node[k].b, 2)
  /\ n >= 4 => ShapeOK(node[k].a, n \div 2) /\ ShapeOK(node[k].b, n - n \div 2)

Done == tasks = {}
WrittenOnce == \A k \in DOMAIN writes : writes[k] <= 1
InBounds == \A t \in tasks : t.n <= N - 2 /\ t.l <= N
Complete == Done /\ N >= 2 => (\A k \in 0..N - 2 : writes[k] = 1) /\ ShapeOK(0, N)
ReportsHits == Done /\ (N >= 2 => ShapeOK(0, N)) =>
  \A q \in Boxes : LET r == Query(q) IN
    /\ {r[i] : i \in DOMAIN r} = {i \in 1..N : Overlap(box[i], q)}
    /\ \A i, j \in DOMAIN r : i # j => r[i] # r[j]
=============================================================================
