------------------------------- MODULE SoupOps --------------------------------
(* A face collection as a value, and the geometry of its queries in integers.   *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [v |-> <<>>, f |-> <<>>, d |-> <<>>]
AddV(c, p) == [c EXCEPT !.v = Append(c.v, p)]
AddF(c, t) == [c EXCEPT !.f = Append(c.f, t), !.d = Append(c.d, 0)]
SetD(c, i, x) == [c EXCEPT !.d[i] = x]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Corner(c, i, j) == c.v[c.f[i][j] + 1]           \* faces name vertices from zero
Lo(c, i) == [k \in 1..3 |-> Min2(Corner(c, i, 1)[k], Min2(Corner(c, i, 2)[k], Corner(c, i, 3)[k]))]
Hi(c, i) == [k \in 1..3 |-> Max2(Corner(c, i, 1)[k], Max2(Corner(c, i, 2)[k], Corner(c, i, 3)[k]))]
Overlap(l1, h1, l2, h2) == \A k \in 1..3 : l1[k] <= h2[k] /\ l2[k] <= h1[k]
BoxHits(c, l, h) == {i \in 1..Len(c.f) : Overlap(Lo(c, i), Hi(c, i), l, h)}

\* ------------------------------------------------------------- rays p + t d, t >= 0
RayBox(l, h, p, d) ==
  LET Dir == {k \in 1..3 : d[k] # 0}
      LN == [k \in Dir |-> IF d[k] > 0 THEN l[k] - p[k] ELSE p[k] - h[k]]
      UN == [k \in Dir |-> IF d[k] > 0 THEN h[k] - p[k] ELSE p[k] - l[k]]
      M == [k \in Dir |-> IF d[k] > 0 THEN d[k] ELSE -d[k]]
  IN /\ \A k \in (1..3) \ Dir : l[k] <= p[k] /\ p[k] <= h[k]
     /\ \A k \in Dir : UN[k] >= 0
     /\ \A i, j \in Dir : LN[i] * M[j] <= UN[j] * M[i]

Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* in a plane, dropping axis m
C2(a, b, m) == Cross(a, b)[m]
InTri2(a, b, c, p, m) ==
  LET s == {Sgn(C2(Sub(b, a), Sub(p, a), m)), Sgn(C2(Sub(c, b), Sub(p, b), m)), Sgn(C2(Sub(a, c), Sub(p, c), m))}
  IN ~({1, -1} \subseteq s)
RaySeg2(u, v, p, d, m) ==
  LET cu == C2(d, Sub(u, p), m)
      cv == C2(d, Sub(v, p), m)
      e == Sub(v, u)
  IN IF cu = 0 /\ cv = 0 THEN Dot(Sub(u, p), d) >= 0 \/ Dot(Sub(v, p), d) >= 0
     ELSE Sgn(cu) * Sgn(cv) <= 0 /\ Sgn(C2(Sub(u, p), e, m)) * Sgn(C2(d, e, m)) >= 0
RayTri(a, b, c, p, d) ==
  LET n == Cross(Sub(b, a), Sub(c, a))
      dn == Dot(d, n)
      an == Dot(Sub(a, p), n)
      pa == Sub(a, p)  pb == Sub(b, p)  pc == Sub(c, p)
  IN IF n = <<0, 0, 0>> THEN FALSE              \* degenerate faces: no demand
     ELSE IF dn # 0 THEN
       /\ Sgn(an) * Sgn(dn) >= 0
       /\ ~({1, -1} \subseteq {Sgn(Dot(d, Cross(pa, pb))), Sgn(Dot(d, Cross(pb, pc))), Sgn(Dot(d, Cross(pc, pa)))})
     ELSE /\ an = 0
          /\ LET m == CHOOSE m \in 1..3 : n[m] # 0 IN
             InTri2(a, b, c, p, m) \/ RaySeg2(a, b, p, d, m) \/ RaySeg2(b, c, p, d, m) \/ RaySeg2(c, a, p, d, m)
RayMust(c, p, d) == {i \in 1..Len(c.f) : RayTri(Corner(c, i, 1), Corner(c, i, 2), Corner(c, i, 3), p, d)}
RayMay(c, p, d) == {i \in 1..Len(c.f) : RayBox(Lo(c, i), Hi(c, i), p, d)}

\* answers are sequences of face indices (from zero): complete, sound, no repetition
AsSet(q) == {q[i] + 1 : i \in DOMAIN q}
Once(q) == Cardinality(AsSet(q)) = Len(q)
BoxAnswer(c, l, h, q) == Once(q) /\ AsSet(q) = BoxHits(c, l, h)
RayAnswer(c, p, d, q) == Once(q) /\ RayMust(c, p, d) \subseteq AsSet(q) /\ AsSet(q) \subseteq RayMay(c, p, d)
=============================================================================
