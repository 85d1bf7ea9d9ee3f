------------------------------- MODULE Defects --------------------------------
(* What is defective in a triangle collection, by definition.  A collection has *)
(* V (a sequence of points) and F (a sequence of triples of vertex numbers from *)
(* zero).  Faces with repeated vertices have no edges.                          *)
EXTENDS TriTri

Vs(f) == {f[1], f[2], f[3]}
Solid(F) == {i \in DOMAIN F : Cardinality(Vs(F[i])) = 3}
Nx(k) == (k % 3) + 1
\* how many faces go from a to b
Uses(F, a, b) == Cardinality({<<i, k>> \in Solid(F) \X (1..3) : F[i][k] = a /\ F[i][Nx(k)] = b})
Edges(F) == UNION {{{F[i][k], F[i][Nx(k)]} : k \in 1..3} : i \in Solid(F)}
EdgeUse(F, e) == LET a == CHOOSE x \in e : TRUE  b == CHOOSE x \in e : x # a IN {Uses(F, a, b), Uses(F, b, a)}
EdgeCount(F, e) == LET a == CHOOSE x \in e : TRUE  b == CHOOSE x \in e : x # a IN Uses(F, a, b) + Uses(F, b, a)
BoundaryEdges(F) == {e \in Edges(F) : EdgeCount(F, e) = 1}
InconsistentEdges(F) == {e \in Edges(F) : EdgeCount(F, e) = 2 /\ EdgeUse(F, e) = {0, 2}}
NonManifoldEdges(F) == {e \in Edges(F) : EdgeCount(F, e) > 2}

IsolatedVertices(n, F) == (0..(n - 1)) \ UNION {Vs(F[i]) : i \in DOMAIN F}

\* the faces around a vertex form one fan or one cycle of at least three faces: the sides opposite to the vertex form one path or cycle
Link(F, v) == {i \in Solid(F) : v \in Vs(F[i])}
Side(F, v, i) == Vs(F[i]) \ {v}
Ends(F, v) == UNION {Side(F, v, i) : i \in Link(F, v)}
RECURSIVE Grow(_, _)
Grow(S, Es) == LET T == S \cup UNION {e \in Es : e \cap S # {}} IN IF T = S THEN S ELSE Grow(T, Es)
OneFan(F, v) ==
  LET L == Link(F, v)  Es == {Side(F, v, i) : i \in L}  N == Ends(F, v) IN
  /\ Cardinality(Es) = Cardinality(L)
  /\ \A x \in N : Cardinality({e \in Es : x \in e}) <= 2
  /\ Grow({CHOOSE x \in N : TRUE}, Es) = N
NonManifoldVertices(n, F) == {v \in 0..(n - 1) : Link(F, v) # {} /\ ~OneFan(F, v)}

TrivialFaces(F) == DOMAIN F \ Solid(F)
Tri(V, f) == <<V[f[1] + 1], V[f[2] + 1], V[f[3] + 1]>>
CollinearFaces(V, F) == {i \in Solid(F) : ~NonDegenerate(Tri(V, F[i]))}

\* two faces that have more in common than a vertex or an edge of both
Lo3(T, k) == CHOOSE m \in {T[1][k], T[2][k], T[3][k]} : \A i \in 1..3 : m <= T[i][k]
Hi3(T, k) == CHOOSE m \in {T[1][k], T[2][k], T[3][k]} : \A i \in 1..3 : m >= T[i][k]
Near(T, U) == \A k \in 1..3 : Lo3(T, k) <= Hi3(U, k) /\ Lo3(U, k) <= Hi3(T, k)
Overlap(T, U) == LET C == Corners(T, U) IN Cardinality(C) >= 3 \/ \E c \in C : Cardinality(c[1]) # 1 \/ Cardinality(c[2]) # 1
BadPairs(V, F) ==
  LET G == Solid(F) \ CollinearFaces(V, F)
      T == [i \in G |-> Tri(V, F[i])]
  IN {p \in G \X G : p[1] < p[2] /\ Near(T[p[1]], T[p[2]]) /\ Overlap(T[p[1]], T[p[2]])}
=============================================================================
