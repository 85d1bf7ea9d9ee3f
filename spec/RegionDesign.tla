----------------------------- MODULE RegionDesign -----------------------------
(* The algorithm of the library on an abstract space: a finite connected graph *)
(* whose nodes are the cells of an arrangement and whose edges are the places  *)
(* where a boundary may run ("germs").  A region is what the code stores: a    *)
(* kind and, per germ, at most one oriented face with a data id.  Each step    *)
(* mixes two registers (tagging every face EXTERIOR / INTERIOR / COPLANAR /    *)
(* OPPOSITE), extracts faces by the README's face output table and decides     *)
(* the special results.  Checked: the result is always the valid boundary of   *)
(* the set that RegionOps assigns to the operator - for every sequence of      *)
(* operations, so every result can be operated on again.                       *)
EXTENDS RegionOps, Integers
CONSTANTS Cells, Links          \* Links: set of <<c, d>> (below, above)

Ring3 == {<<1, 2>>, <<2, 3>>, <<3, 1>>}
Path3 == {<<1, 2>>, <<3, 2>>}
Graph4 == {<<1, 2>>, <<3, 2>>, <<3, 4>>, <<4, 1>>}

VARIABLES reg, mem             \* reg[i]: stored region, mem[i]: the set it denotes (ghost)
vars == <<reg, mem>>
R == {1, 2}

None == [dir |-> 0, id |-> 0]  \* dir 1: inside below, -1: inside above
FaceOf(S, g, i) == IF (g[1] \in S) = (g[2] \in S) THEN None
                   ELSE [dir |-> IF g[1] \in S THEN 1 ELSE -1, id |-> i]
RegionOf(S, i) == [kind |-> IF S = {} THEN "E" ELSE IF S = Cells THEN "F" ELSE "B",
                   face |-> [g \in Links |-> FaceOf(S, g, i)]]

(* ---- the mixer: what classification yields for valid operands ---- *)
\* membership of the cell next to a germ, as seen from the faces only (the code has no other knowledge)
TagAt(x, Sy, y, g) ==
  IF y.face[g].dir # 0 THEN (IF x.face[g].dir = y.face[g].dir THEN "COP" ELSE "OPP")
  ELSE IF g[1] \in Sy THEN "INT" ELSE "EXT"
SpecialTags(x, y) == IF x.kind = "E" \/ y.kind = "F" THEN <<"INT", "EXT">> ELSE <<"EXT", "INT">>
Sp(x) == x.kind # "B"
Tags(x, y, Sx, Sy) ==
  IF Sp(x) \/ Sp(y)
  THEN [g \in Links |-> [l |-> IF x.face[g].dir = 0 THEN "-" ELSE SpecialTags(x, y)[1],
                         r |-> IF y.face[g].dir = 0 THEN "-" ELSE SpecialTags(x, y)[2]]]
  ELSE [g \in Links |-> [l |-> IF x.face[g].dir = 0 THEN "-" ELSE TagAt(x, Sy, y, g),
                         r |-> IF y.face[g].dir = 0 THEN "-" ELSE TagAt(y, Sx, x, g)]]

(* ---- README "Face output table": what each operand's face becomes ---- *)
\* columns Ext, Int, Cop, Opp; entries for A and B: 1 keep, -1 keep inverted, 0 drop
Col == [EXT |-> 1, INT |-> 2, COP |-> 3, OPP |-> 4]
TabA == [V |-> <<0,0,0,0>>,   A |-> <<1,0,1,0>>,   B |-> <<0,1,0,1>>,  C |-> <<-1,0,0,-1>>,
         D |-> <<0,-1,-1,0>>, E |-> <<-1,1,0,0>>,  F |-> <<-1,-1,-1,-1>>, G |-> <<0,0,-1,1>>,
         H |-> <<0,0,1,-1>>,  I |-> <<1,1,1,1>>,   J |-> <<1,-1,0,0>>, K |-> <<0,1,1,0>>,
         L |-> <<1,0,0,1>>,   M |-> <<0,-1,0,-1>>, X |-> <<-1,0,-1,0>>, O |-> <<0,0,0,0>>]
TabB == [V |-> <<0,0,0,0>>,   A |-> <<1,0,1,0>>,   B |-> <<-1,0,0,-1>>, C |-> <<0,1,0,1>>,
         D |-> <<0,-1,-1,0>>, E |-> <<-1,1,0,0>>,  F |-> <<0,0,-1,1>>, G |-> <<-1,-1,-1,-1>>,
         H |-> <<1,1,1,1>>,   I |-> <<0,0,1,-1>>,  J |-> <<1,-1,0,0>>, K |-> <<0,1,1,0>>,
         L |-> <<0,-1,0,-1>>, M |-> <<1,0,0,1>>,   X |-> <<-1,0,-1,0>>, O |-> <<0,0,0,0>>]

Out(x, tag, tab, op, preferred) ==
  IF tag = "-" THEN None
  ELSE IF tag \in {"COP", "OPP"} /\ ~preferred THEN None
  ELSE LET s == tab[op][Col[tag]] IN
       IF s = 0 THEN None ELSE [dir |-> s * x.dir, id |-> x.id]

Extract(x, y, t, op, pref) ==
  [g \in Links |-> {Out(x.face[g], t[g].l, TabA, op, pref), Out(y.face[g], t[g].r, TabB, op, ~pref)} \ {None}]

Decide(x, y, t, op) ==
  IF x.kind = "E" \/ y.kind = "E" THEN (IF Truth(op, x.kind # "E", y.kind # "E") THEN "F" ELSE "E")
  ELSE IF x.kind = "F" \/ y.kind = "F" THEN (IF Truth(op, x.kind = "F", y.kind = "F") THEN "F" ELSE "E")
  ELSE IF op \in {"V", "A", "B", "C", "D"} THEN "F"
  ELSE IF op \in {"K", "L", "M", "X", "O"} THEN "E"
  ELSE LET seen == ({t[g].l : g \in Links} \cup {t[g].r : g \in Links}) \ {"-"} IN
       IF op \in {"E", "J"} /\ seen \subseteq {"COP"} THEN (IF Truth(op, FALSE, FALSE) THEN "F" ELSE "E")
       ELSE IF op \in {"E", "J"} /\ seen \subseteq {"OPP"} THEN (IF Truth(op, FALSE, TRUE) THEN "F" ELSE "E")
       ELSE "ERROR"

Algo(x, y, Sx, Sy, op, pref) ==
  LET t == Tags(x, y, Sx, Sy)
      out == Extract(x, y, t, op, pref)
  IN [multi |-> \E g \in Links : \E p, q \in out[g] : p # q,
      kind |-> IF \E g \in Links : out[g] # {} THEN "B" ELSE Decide(x, y, t, op),
      face |-> [g \in Links |-> IF out[g] = {} THEN None ELSE CHOOSE f \in out[g] : TRUE]]

SetOp(op, Sx, Sy) == {c \in Cells : Truth(op, c \in Sx, c \in Sy)}

Germ(x, S, g) == [b |-> g[1] \in S, a |-> g[2] \in S, id |-> x.face[g].id]

\* the algorithm's result refines the specification's result
Refines(x, y, Sx, Sy, op, pref) ==
  LET a == Algo(x, y, Sx, Sy, op, pref)
      S == SetOp(op, Sx, Sy)
  IN /\ ~a.multi
     /\ a.kind = (IF S = {} THEN "E" ELSE IF S = Cells THEN "F" ELSE "B")
     /\ \A g \in Links :
          LET s == GermOp(op, pref, Germ(x, Sx, g), Germ(y, Sy, g)) IN
          /\ a.face[g].dir = (IF s.b = s.a THEN 0 ELSE IF s.b THEN 1 ELSE -1)
          /\ a.face[g].id = s.id

Init == \E S1, S2 \in SUBSET Cells : mem = <<S1, S2>> /\ reg = <<RegionOf(S1, 1), RegionOf(S2, 2)>>
Apply(op, pref, i, j, k) ==
  LET a == Algo(reg[i], reg[j], mem[i], mem[j], op, pref) IN
  /\ reg' = [reg EXCEPT ![k] = [kind |-> a.kind, face |-> a.face]]
  /\ mem' = [mem EXCEPT ![k] = SetOp(op, mem[i], mem[j])]
Next == \E op \in Ops, pref \in BOOLEAN, i, j, k \in R : Apply(op, pref, i, j, k)
Spec == Init /\ [][Next]_vars

AllRefine == \A op \in Ops, pref \in BOOLEAN, i, j \in R : Refines(reg[i], reg[j], mem[i], mem[j], op, pref)
ValidBoundary == \A i \in R : \A g \in Links : reg[i].face[g].dir = FaceOf(mem[i], g, 0).dir
Symmetric(op) == \A a, b \in BOOLEAN : Truth(op, a, b) = Truth(op, b, a)
\* algebra: operands can be exchanged together with the operator and the preference
Mirror == [V |-> "V", A |-> "A", B |-> "C", C |-> "B", D |-> "D", E |-> "E", F |-> "G", G |-> "F",
           H |-> "I", I |-> "H", J |-> "J", K |-> "K", L |-> "M", M |-> "L", X |-> "X", O |-> "O"]
Exchange == \A op \in Ops, pref \in BOOLEAN :
  LET p == Algo(reg[1], reg[2], mem[1], mem[2], op, pref)
      q == Algo(reg[2], reg[1], mem[2], mem[1], Mirror[op], ~pref)
  IN p.kind = q.kind /\ p.face = q.face
=============================================================================
