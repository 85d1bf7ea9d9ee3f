----------------------------- MODULE KigumiFile ------------------------------
(* The binary region format.  Bytes are 0..255.  A coordinate is a record        *)
(*   s: sign (1 = negative), n, d: numerator and denominator as big-endian       *)
(*   magnitudes without leading zeros (zero is <<0>>), b: the big-endian IEEE    *)
(*   bytes of the value if a double represents it, <<>> otherwise.               *)
(* A region is [kind, v: vertices (3 coordinates), f: faces (3 indices from 0),  *)
(* d: per-face data as the bytes the data type is written with].                 *)
EXTENDS Integers, Sequences, FiniteSets

Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
           ELSE LET h == Len(q) \div 2 IN Flat(SubSeq(q, 1, h)) \o Flat(SubSeq(q, h + 1, Len(q)))
\* little-endian 32-bit of a non-negative number
I32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Rational(c) == <<c.s>> \o I32(Len(c.n)) \o c.n \o I32(Len(c.d)) \o c.d
\* a point is written as doubles exactly when all three coordinates are doubles
EncPoint(p) == IF \A k \in 1..3 : p[k].b # <<>> THEN <<0>> \o Flat([k \in 1..3 |-> Reverse(p[k].b)])
               ELSE <<1>> \o Flat([k \in 1..3 |-> Rational(p[k])])
EncFace(r, i) == I32(r.f[i][1]) \o I32(r.f[i][2]) \o I32(r.f[i][3]) \o r.d[i]
Encode(r) == <<r.kind>> \o I32(Len(r.v)) \o I32(Len(r.f))
             \o Flat([i \in DOMAIN r.v |-> EncPoint(r.v[i])]) \o Flat([i \in DOMAIN r.f |-> EncFace(r, i)])

(* Reading as a machine that consumes bytes: st = [pos, ok, odd]; every step     *)
(* says where the next item starts, or that the input is refused.  `odd` inputs  *)
(* are those no conforming writer produces but whose treatment is not promised.  *)
Fail(st) == [st EXCEPT !.ok = FALSE]
Can(B, st, n) == st.ok /\ st.pos + n - 1 <= Len(B)
\* a 32-bit count; -1 if negative, -2 if larger than anything that fits the input
Count(B, p) == IF B[p + 3] >= 128 THEN -1 ELSE IF B[p + 3] > 0 THEN -2 ELSE B[p] + 256 * B[p + 1] + 65536 * B[p + 2]
IsZero(q) == \A i \in DOMAIN q : q[i] = 0
TakeNum(B, st) ==   \* length-prefixed magnitude
  IF ~Can(B, st, 4) THEN Fail(st) ELSE
  LET n == Count(B, st.pos) IN
  IF n < 0 \/ ~Can(B, st, 4 + n) THEN Fail(st)
  ELSE [st EXCEPT !.pos = @ + 4 + n, !.num = SubSeq(B, st.pos + 4, st.pos + 3 + n), !.odd = @ \/ n = 0 \/ (n > 1 /\ B[st.pos + 4] = 0)]
TakeRational(B, st) ==
  IF ~Can(B, st, 1) THEN Fail(st) ELSE
  LET a == TakeNum(B, [st EXCEPT !.pos = @ + 1, !.odd = @ \/ B[st.pos] > 1]) IN
  IF ~a.ok THEN a ELSE LET z == IsZero(a.num) b == TakeNum(B, a) IN
  IF ~b.ok THEN b ELSE IF IsZero(b.num) THEN Fail(b) ELSE [b EXCEPT !.odd = @ \/ (z /\ B[st.pos] # 0)]
TakePoint(B, st) ==
  IF ~Can(B, st, 1) THEN Fail(st)
  ELSE IF B[st.pos] = 0 THEN
    IF ~Can(B, st, 25) THEN Fail(st)
    ELSE \* infinities and NaNs are not coordinates
         [st EXCEPT !.pos = @ + 25, !.odd = @ \/ \E k \in 0..2 : LET p == st.pos + 8 * k IN B[p + 8] % 128 = 127 /\ B[p + 7] >= 240]
  ELSE TakeRational(B, TakeRational(B, TakeRational(B, [st EXCEPT !.pos = @ + 1, !.odd = @ \/ B[st.pos] > 1])))
TakeFace(B, st, nv, w) ==
  IF ~Can(B, st, 12 + w) THEN Fail(st) ELSE
  LET I == <<Count(B, st.pos), Count(B, st.pos + 4), Count(B, st.pos + 8)>> IN
  IF \E k \in 1..3 : I[k] < 0 \/ I[k] >= nv THEN Fail(st)
  ELSE [st EXCEPT !.pos = @ + 12 + w, !.f = Append(@, I), !.d = Append(@, SubSeq(B, st.pos + 12, st.pos + 11 + w))]
RECURSIVE Points(_, _, _), Faces(_, _, _, _, _)
Points(B, st, n) == IF n = 0 \/ ~st.ok THEN st ELSE Points(B, TakePoint(B, st), n - 1)
Faces(B, st, n, nv, w) == IF n = 0 \/ ~st.ok THEN st ELSE Faces(B, TakeFace(B, st, nv, w), n - 1, nv, w)
\* w: bytes of face data
Decode(B, w) ==
  LET st == [pos |-> 1, ok |-> TRUE, odd |-> FALSE, num |-> <<>>, f |-> <<>>, d |-> <<>>, kind |-> 0, nv |-> 0] IN
  IF ~Can(B, st, 9) THEN Fail(st) ELSE
  LET nv == Count(B, 2)  nf == Count(B, 6) IN
  IF B[1] > 2 \/ nv < 0 \/ nf < 0 \/ nv > Len(B) \/ nf > Len(B) THEN Fail(st)
  ELSE LET r == Faces(B, Points(B, [st EXCEPT !.pos = 10, !.kind = B[1], !.nv = nv], nv), nf, nv, w) IN
       IF B[1] = 2 /\ nf = 0 THEN Fail(r)       \* a boundary without faces
       ELSE [r EXCEPT !.odd = @ \/ (B[1] # 2 /\ (nv > 0 \/ nf > 0))]
=============================================================================
