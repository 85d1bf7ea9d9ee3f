-------------------------------- MODULE TriTri --------------------------------
(* The intersection of two triangles, by definition: an extreme point of the    *)
(* common convex set is a point where the open features (vertices, edges,       *)
(* interior) of the two triangles that contain it have nothing else in common.  *)
(* A feature is the set of the corners it spans.                                *)
EXTENDS Vec

Features == (SUBSET (1..3)) \ {{}}
Idx(F, k) == CHOOSE i \in F : Cardinality({j \in F : j < i}) = k - 1

VV(x, y) == x = y
\* x strictly between u and v
VE(x, u, v) == Cross(Sub(u, x), Sub(v, x)) = Zero /\ Dot(Sub(u, x), Sub(v, x)) < 0
\* x strictly inside a, b, c
VF(x, a, b, c) ==
  LET n == Cross(Sub(b, a), Sub(c, a)) IN
  /\ Dot(n, Sub(x, a)) = 0
  /\ Dot(n, Cross(Sub(a, x), Sub(b, x))) > 0
  /\ Dot(n, Cross(Sub(b, x), Sub(c, x))) > 0
  /\ Dot(n, Cross(Sub(c, x), Sub(a, x))) > 0
\* two open segments cross in one point
EE(u, v, p, q) ==
  LET d == Sub(v, u)  e == Sub(q, p)  m == Cross(d, e) IN
  /\ m # Zero /\ Dot(m, Sub(p, u)) = 0
  /\ Sgn(Dot(m, Cross(d, Sub(p, u)))) * Sgn(Dot(m, Cross(d, Sub(q, u)))) < 0
  /\ Sgn(Dot(m, Cross(e, Sub(u, p)))) * Sgn(Dot(m, Cross(e, Sub(v, p)))) < 0
\* an open segment crosses the interior of a triangle in one point
EF(u, v, a, b, c) ==
  /\ Orient(a, b, c, u) * Orient(a, b, c, v) < 0
  /\ LET s == Orient(u, v, a, b) IN s # 0 /\ s = Orient(u, v, b, c) /\ s = Orient(u, v, c, a)

Single(T, F, U, G) ==
  LET t(k) == T[Idx(F, k)]  u(k) == U[Idx(G, k)]
      f == Cardinality(F)  g == Cardinality(G)
  IN CASE f = 1 /\ g = 1 -> VV(t(1), u(1))
       [] f = 1 /\ g = 2 -> VE(t(1), u(1), u(2))
       [] f = 2 /\ g = 1 -> VE(u(1), t(1), t(2))
       [] f = 1 /\ g = 3 -> VF(t(1), U[1], U[2], U[3])
       [] f = 3 /\ g = 1 -> VF(u(1), T[1], T[2], T[3])
       [] f = 2 /\ g = 2 -> EE(t(1), t(2), u(1), u(2))
       [] f = 2 /\ g = 3 -> EF(t(1), t(2), U[1], U[2], U[3])
       [] f = 3 /\ g = 2 -> EF(u(1), u(2), T[1], T[2], T[3])
       [] OTHER -> FALSE
Corners(T, U) == {c \in Features \X Features : Single(T, c[1], U, c[2])}

\* neighbouring corners of a polygon of more than two lie on a common edge of one of the triangles
OnEdge(F, G) == Cardinality(F \cup G) <= 2
Neighbours(c, d) == OnEdge(c[1], d[1]) \/ OnEdge(c[2], d[2])
Cyclic(q) == Len(q) > 2 => \A i \in 1..Len(q) : Neighbours(q[i], q[(i % Len(q)) + 1])

NonDegenerate(T) == Cross(Sub(T[2], T[1]), Sub(T[3], T[1])) # Zero

\* the point x/w (w > 0) lies on the open feature F of T
OnFeature(x, w, T, F) ==
  LET S == [i \in 1..3 |-> Scale(w, T[i])]
      s(k) == S[Idx(F, k)]
      d(k) == Sub(T[Idx(F, k)], T[Idx(F, 1)])
  IN CASE Cardinality(F) = 1 -> x = s(1)
       [] Cardinality(F) = 2 -> /\ Cross(Sub(x, s(1)), d(2)) = Zero
                                /\ Dot(Sub(x, s(1)), d(2)) > 0 /\ Dot(Sub(x, s(2)), d(2)) < 0
       [] OTHER -> LET n == Cross(Sub(T[2], T[1]), Sub(T[3], T[1])) IN
                   /\ Dot(n, Sub(x, S[1])) = 0
                   /\ \A i \in 1..3 : LET a == S[i]  e == Sub(T[(i % 3) + 1], T[i]) IN
                        \* the inner side of every edge; only the sign of one non-zero component of n is needed
                        LET k == CHOOSE k \in 1..3 : n[k] # 0 IN Sgn(Cross(e, Sub(x, a))[k]) = Sgn(n[k])
=============================================================================
