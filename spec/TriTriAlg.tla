------------------------------- MODULE TriTriAlg ------------------------------
(* The symbolic algorithm: six edge-face tests with half-open conventions that  *)
(* are meant to find every corner exactly once.  Checked against the definition *)
(* for all pairs of triangles with corners in a small set of points.            *)
EXTENDS TriTri, TLC

CONSTANTS Pts, Cases            \* Cases: the exclusion rules in force ({1,2,3}; subsets are negative controls)
Cube == {<<x, y, z>> : x, y, z \in 0..1}
Plane == {<<x, y, 0>> : x, y \in 0..2}
Cross3 == {<<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<1,1,0>>, <<2,2,0>>, <<1,1,2>>, <<1,0,1>>, <<1,0,-1>>, <<0,1,-1>>}

\* planar orientation, consistent within a plane
Key(m) == CHOOSE k \in 1..3 : m[k] # 0
P2(n, a, b, c) == Sgn(Cross(Sub(b, a), Sub(c, a))[Key(n)])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
P1(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1
Skip(k) == k \in Cases
Put(left, F, G) == IF left THEN <<F, G>> ELSE <<G, F>>

\* results are sequences so that duplicates show
EdgeEdge1(left, T, i, U, p, q) ==
  LET ap == P1(T[i], U[p])  aq == P1(T[i], U[q]) IN
  IF ap * aq > 0 THEN <<>>
  ELSE IF ap * aq < 0 THEN <<Put(left, {i}, {p, q})>>
  ELSE IF ap = 0 /\ (left \/ ~Skip(3)) THEN <<Put(left, {i}, {p})>> ELSE <<>>
EdgeEdge2(left, n, T, i, j, U, p, q) ==
  LET abp == P2(n, T[i], T[j], U[p])  abq == P2(n, T[i], T[j], U[q])
      apq == P2(n, T[i], U[p], U[q])  bpq == P2(n, T[j], U[p], U[q])
      F == IF apq = 0 THEN {i} ELSE {i, j}
      G == IF abp = 0 THEN {p} ELSE {p, q}
  IN IF abp * abq > 0 \/ apq * bpq > 0 THEN <<>>
     ELSE IF abp = 0 /\ abq = 0 THEN EdgeEdge1(left, T, i, U, p, q)
     ELSE IF apq # 0 /\ bpq = 0 /\ Skip(1) THEN <<>>
     ELSE IF abp # 0 /\ abq = 0 /\ Skip(1) THEN <<>>
     ELSE IF Cardinality(F) = 2 /\ Cardinality(G) = 1 /\ Skip(2) THEN <<>>
     ELSE IF Cardinality(F) = Cardinality(G) /\ ~left /\ Skip(3) THEN <<>>
     ELSE <<Put(left, F, G)>>
EdgeFace2(left, T, i, j, U) ==
  LET n == Cross(Sub(U[2], U[1]), Sub(U[3], U[1]))
      In(x) == LET s == {P2(n, x, U[1], U[2]), P2(n, x, U[2], U[3]), P2(n, x, U[3], U[1])} IN s = {1} \/ s = {-1}
      own == IF In(T[i]) THEN <<Put(left, {i}, {1, 2, 3})>> ELSE <<>>
  IN IF In(T[i]) /\ In(T[j]) THEN own
     ELSE own \o EdgeEdge2(left, n, T, i, j, U, 1, 2) \o EdgeEdge2(left, n, T, i, j, U, 2, 3) \o EdgeEdge2(left, n, T, i, j, U, 3, 1)
EdgeFace(left, T, i, j, U) ==
  LET a == Orient(T[i], U[1], U[2], U[3])  b == Orient(T[j], U[1], U[2], U[3])
      pq == Orient(T[i], T[j], U[1], U[2])  qr == Orient(T[i], T[j], U[2], U[3])  rp == Orient(T[i], T[j], U[3], U[1])
      F == IF a = 0 THEN {i} ELSE {i, j}
      G == CASE pq = 0 /\ qr = 0 -> {2} [] qr = 0 /\ rp = 0 -> {3} [] rp = 0 /\ pq = 0 -> {1}
             [] pq = 0 -> {1, 2} [] qr = 0 -> {2, 3} [] rp = 0 -> {3, 1} [] OTHER -> {1, 2, 3}
  IN IF a * b > 0 THEN <<>>
     ELSE IF a = 0 /\ b = 0 THEN EdgeFace2(left, T, i, j, U)
     ELSE IF pq * qr < 0 \/ qr * rp < 0 \/ rp * pq < 0 THEN <<>>
     ELSE IF a # 0 /\ b = 0 /\ Skip(1) THEN <<>>
     ELSE IF Cardinality(F) = 2 /\ Cardinality(G) = 1 /\ Skip(2) THEN <<>>
     ELSE IF Cardinality(F) = Cardinality(G) /\ ~left /\ Skip(3) THEN <<>>
     ELSE <<Put(left, F, G)>>
Alg(T, U) == EdgeFace(TRUE, T, 1, 2, U) \o EdgeFace(TRUE, T, 2, 3, U) \o EdgeFace(TRUE, T, 3, 1, U)
          \o EdgeFace(FALSE, U, 1, 2, T) \o EdgeFace(FALSE, U, 2, 3, T) \o EdgeFace(FALSE, U, 3, 1, T)

VARIABLES t, u, ph
Tris == {T \in Pts \X Pts \X Pts : NonDegenerate(T)}
\* up to swapping corners, one representative of the left triangle is enough
Sorted(T) == Less(T[1], T[2]) /\ Less(T[2], T[3])
Init == t \in {T \in Tris : Sorted(T)} /\ u = t /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ u' \in Tris /\ t' = t
Complete == ph = 1 => LET q == Alg(t, u)  S == {q[i] : i \in DOMAIN q} IN S = Corners(t, u) /\ Cardinality(S) = Len(q)
AtMostSix == ph = 1 => Cardinality(Corners(t, u)) <= 6
Symmetric == ph = 1 => Corners(u, t) = {<<c[2], c[1]>> : c \in Corners(t, u)}
\* corners of a polygon can be ordered, and a walk that always steps to an unvisited neighbour closes
RECURSIVE Walks(_, _)
Walks(q, S) == IF S = {} THEN {q} ELSE UNION {Walks(Append(q, c), S \ {c}) : c \in {c \in S : Neighbours(q[Len(q)], c)}}
Orderable == LET S == Corners(t, u) IN
  ph = 1 /\ Cardinality(S) > 2 => \A c \in S : LET w == Walks(<<c>>, S \ {c}) IN w # {} /\ \A q \in w : Cyclic(q)
=============================================================================
