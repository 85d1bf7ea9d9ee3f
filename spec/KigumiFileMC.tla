--------------------------- MODULE KigumiFileMC -----------------------------
(* The format itself: what is encoded is decoded completely and without being   *)
(* odd, no proper prefix is accepted, different regions have different files.   *)
EXTENDS KigumiFile, TLC
VARIABLES r, B, k
Half == [s |-> 0, n |-> <<1>>, d |-> <<2>>, b |-> <<63, 224, 0, 0, 0, 0, 0, 0>>]
Zero == [s |-> 0, n |-> <<0>>, d |-> <<1>>, b |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]
Third == [s |-> 1, n |-> <<1>>, d |-> <<3>>, b |-> <<>>]
Big == [s |-> 0, n |-> <<1, 0, 0, 0, 0, 0, 0, 0, 1>>, d |-> <<1>>, b |-> <<>>]
Coords == {Half, Zero, Third, Big}
Pts == [1..3 -> Coords]
Some == {<<Half, Zero, Half>>, <<Third, Zero, Half>>, <<Big, Third, Zero>>, <<Zero, Zero, Third>>}
Regions == {[kind |-> q, v |-> <<>>, f |-> <<>>, d |-> <<>>] : q \in 0..1}
  \cup {[kind |-> 2, v |-> <<p, q>>, f |-> <<<<0, 1, 0>>>>, d |-> <<w>>] : p \in Pts, q \in Some, w \in {<<1, 2>>, <<0, 0>>}}
  \cup {[kind |-> 2, v |-> <<p>>, f |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, d |-> <<<<7, 0>>, <<255, 1>>>>] : p \in Pts}
Init == r \in Regions /\ B = Encode(r) /\ k = Len(B)
Cut == k > 0 /\ k' = k - 1 /\ UNCHANGED <<r, B>>
Spec == Init /\ [][Cut]_<<r, B, k>>
W == 2
RoundTrip == k = Len(B) => LET x == Decode(B, W) IN x.ok /\ ~x.odd /\ x.pos = Len(B) + 1 /\ x.f = r.f /\ x.d = r.d /\ x.kind = r.kind
Truncated == k < Len(B) => ~Decode(SubSeq(B, 1, k), W).ok
=============================================================================
