--------------------------------- MODULE Vec ----------------------------------
(* Exact integer vectors. *)
EXTENDS Integers, Sequences, FiniteSets
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Scale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Zero == <<0, 0, 0>>
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* sign of the volume of a, b, c, d
Orient(a, b, c, d) == Sgn(Dot(Cross(Sub(b, a), Sub(c, a)), Sub(d, a)))
=============================================================================
