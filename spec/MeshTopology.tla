---------------------------- MODULE MeshTopology ------------------------------
(* Adjacency in a list of faces (triples of vertex numbers from zero), and the  *)
(* index that answers such queries: for every vertex a sorted run of the faces  *)
(* at it, runs found through offsets; an edge's faces by merging two runs.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Vs(f) == {f[1], f[2], f[3]}
Nx(k) == (k % 3) + 1
\* ------------------------------------------------------------- definition
AroundVertex(F, v) == {i \in DOMAIN F : v \in Vs(F[i])}
AroundEdge(F, a, b) == {i \in DOMAIN F : a \in Vs(F[i]) /\ b \in Vs(F[i])}
Sides(f) == {{f[k], f[Nx(k)]} : k \in 1..3}
Shared(F, i, es) == {j \in DOMAIN F : j # i /\ \E e \in es : e \subseteq Vs(F[j])}
\* over the proper sides that are no borders; a repeated vertex is no side, but its faces may be reported as well
AroundFaceMust(F, i, B) == Shared(F, i, {e \in Sides(F[i]) : Cardinality(e) = 2} \ B)
AroundFaceMay(F, i, B) == Shared(F, i, Sides(F[i]) \ B)
\* ------------------------------------------------------------- index
\* (vertex, face) pairs in order; equal pairs of degenerate faces stay
RECURSIVE Runs(_, _, _)
Pairs(F) == [x \in 1..(3 * Len(F)) |-> <<F[((x - 1) \div 3) + 1][((x - 1) % 3) + 1], ((x - 1) \div 3) + 1>>]
Ordered(F) == SortSeq(Pairs(F), LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
\* offsets: number of pairs before each vertex, as the builder makes them: fill up to the next used vertex, then up to n + 1 entries
Runs(S, k, acc) == IF k > Len(S) THEN acc
                   ELSE Runs(S, k + 1, acc \o [x \in 1..(S[k][1] + 1 - Len(acc)) |-> k - 1])
Offsets(F, n, tail) ==
  LET S == Ordered(F)  a == Runs(S, 1, <<>>) IN
  IF tail THEN a \o [x \in 1..(n + 1 - Len(a)) |-> Len(S)] ELSE Append(a, Len(S))
Run(F, n, v, tail) == LET o == Offsets(F, n, tail)  S == Ordered(F) IN [x \in 1..(o[v + 2] - o[v + 1]) |-> S[o[v + 1] + x][2]]
HasRun(F, n, v, tail) == v + 2 <= Len(Offsets(F, n, tail))
RECURSIVE Merge(_, _)
Merge(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
               ELSE IF Head(p) < Head(q) THEN Merge(Tail(p), q)
               ELSE IF Head(q) < Head(p) THEN Merge(p, Tail(q))
               ELSE <<Head(p)>> \o Merge(Tail(p), Tail(q))
IndexEdge(F, n, a, b, tail) == Merge(Run(F, n, a, tail), Run(F, n, b, tail))
=============================================================================
