------------------------------ MODULE RegionOps ------------------------------
(* Abstract values of regions and the meaning of the sixteen regularised       *)
(* Boolean operators on them.                                                  *)
(*                                                                             *)
(* A region is observed through a finite set of sample points (indices 1..NP)  *)
(* that lie on no boundary, and a finite set of boundary samples ("germs",     *)
(* indices 1..NQ): points on some primitive's face together with a direction.  *)
(* A germ records membership immediately below (against the direction) and     *)
(* above (along it) and, if the two differ, the data id of the face there.     *)
EXTENDS Naturals, Sequences, FiniteSets

OpNames == <<"V","A","B","C","D","E","F","G","H","I","J","K","L","M","X","O">>
Ops == {OpNames[i] : i \in 1..16}

(* README "Table of Boolean operators": set notation. *)
Truth(op, a, b) ==
  CASE op = "V" -> TRUE
    [] op = "A" -> a \/ b
    [] op = "B" -> ~(b /\ ~a)
    [] op = "C" -> ~(a /\ ~b)
    [] op = "D" -> ~(a /\ b)
    [] op = "E" -> a <=> b
    [] op = "F" -> ~a
    [] op = "G" -> ~b
    [] op = "H" -> b
    [] op = "I" -> a
    [] op = "J" -> ~(a <=> b)
    [] op = "K" -> a /\ b
    [] op = "L" -> a /\ ~b
    [] op = "M" -> b /\ ~a
    [] op = "X" -> ~(a \/ b)
    [] op = "O" -> FALSE

HasB(g) == g.b # g.a

(* Provenance of a result face at a germ: where both operands have boundary,   *)
(* the preferred operand's face; otherwise the operand that has boundary.      *)
GermOp(op, pref, x, y) ==
  LET nb == Truth(op, x.b, y.b)
      na == Truth(op, x.a, y.a)
      id == IF nb = na THEN 0
            ELSE IF HasB(x) /\ HasB(y) THEN (IF pref THEN x.id ELSE y.id)
            ELSE IF HasB(x) THEN x.id ELSE y.id
  IN [b |-> nb, a |-> na, id |-> id]

(* kind: "E" empty, "F" full, "B" boundary-defined, "?" not determined by the  *)
(* samples (only in worlds whose samples do not meet every cell).              *)
KindOf(mem, germ, exact, known) ==
  IF known # "?" THEN known
  ELSE IF \E i \in DOMAIN germ : HasB(germ[i]) THEN "B"
  ELSE IF \E i, j \in DOMAIN mem : mem[i] # mem[j] THEN "B"
  ELSE IF ~exact THEN "?"
  ELSE IF mem[1] THEN "F" ELSE "E"

(* Kinds that follow without looking at the geometry. *)
KnownKind(op, kx, ky) ==
  LET sp(k) == k \in {"E", "F"}
      tv(k) == k = "F"
      const(f) == IF f[TRUE] = f[FALSE] THEN (IF f[TRUE] THEN "F" ELSE "E") ELSE "v"
  IN IF sp(kx) /\ sp(ky) THEN (IF Truth(op, tv(kx), tv(ky)) THEN "F" ELSE "E")
     ELSE IF op = "V" THEN "F"
     ELSE IF op = "O" THEN "E"
     ELSE IF sp(kx) THEN
       LET f == [v \in BOOLEAN |-> Truth(op, tv(kx), v)] IN
       IF const(f) # "v" THEN const(f) ELSE (IF ky = "?" THEN "?" ELSE "B")
     ELSE IF sp(ky) THEN
       LET f == [v \in BOOLEAN |-> Truth(op, v, tv(ky))] IN
       IF const(f) # "v" THEN const(f) ELSE (IF kx = "?" THEN "?" ELSE "B")
     ELSE IF op \in {"F", "I"} /\ kx = "B" THEN "B"
     ELSE IF op \in {"G", "H"} /\ ky = "B" THEN "B"
     ELSE "?"

BoolOp(op, pref, x, y, exact) ==
  LET mem == [i \in DOMAIN x.mem |-> Truth(op, x.mem[i], y.mem[i])]
      germ == [i \in DOMAIN x.germ |-> GermOp(op, pref, x.germ[i], y.germ[i])]
  IN [kind |-> KindOf(mem, germ, exact, KnownKind(op, x.kind, y.kind)), mem |-> mem, germ |-> germ]

Special(k, np, nq) ==
  [kind |-> k,
   mem |-> [i \in 1..np |-> k = "F"],
   germ |-> [i \in 1..nq |-> [b |-> k = "F", a |-> k = "F", id |-> 0]]]

(* A primitive is a disjunction of conjunctions of atom literals (an atom is   *)
(* an oriented plane), possibly complemented.                                  *)
InPrim(p, signs) ==
  (\E c \in DOMAIN p.dnf : \A t \in DOMAIN p.dnf[c] : signs[p.dnf[c][t][1]] = p.dnf[c][t][2]) # (p.inv = 1)
=============================================================================
