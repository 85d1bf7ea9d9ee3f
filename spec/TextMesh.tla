------------------------------ MODULE TextMesh -------------------------------
(* Reading OBJ, OFF and PLY as state machines over the lines of a document.  A   *)
(* line is a sequence of tokens; a token has t (its text), x (the IEEE bits of   *)
(* the number it spells: "" if it spells none, "?" if it is a spelling whose     *)
(* treatment is not promised) and i (the index it spells: -1000000 if none,      *)
(* -1000001 if unclear; for OBJ, the part before the first slash).               *)
(* Each machine's state has r: "on" (reading), "bad" (refused) or "any" (input   *)
(* whose treatment is not promised), v: coordinates, f: faces (from 0).          *)
EXTENDS Integers, Sequences, FiniteSets

None == -1000000
Unclear == -1000001
Start == [r |-> "on", ph |-> "start", v |-> <<>>, f |-> <<>>, nv |-> 0, nf |-> 0, el |-> <<>>, e |-> 0]
Bad(st) == [st EXCEPT !.r = "bad"]
Any(st) == [st EXCEPT !.r = "any"]
Blank(L) == L = <<>>
Hash(k) == k.h = 1                       \* the token starts with '#'
Comment(L) == L # <<>> /\ Hash(L[1])
\* three coordinates from the given tokens
Coords(st, T, then(_, _)) ==
  IF \E k \in 1..3 : T[k].x = "" THEN Bad(st)
  ELSE IF \E k \in 1..3 : T[k].x = "?" THEN Any(st)
  ELSE then(st, <<T[1].x, T[2].x, T[3].x>>)
AddV(st, p) == [st EXCEPT !.v = Append(@, p)]
Fan(q) == [i \in 1..Len(q) - 2 |-> <<q[1], q[i + 1], q[i + 2]>>]
\* a polygon with fewer than three corners conveys no face; whether it is refused is not promised
AddPoly(st, q) == IF Len(q) < 3 THEN Any(st) ELSE [st EXCEPT !.f = @ \o Fan(q)]

(***** OBJ *****)
RECURSIVE UpToHash(_)
UpToHash(T) == IF T = <<>> \/ Hash(T[1]) THEN <<>> ELSE <<T[1]>> \o UpToHash(Tail(T))
Obj(st, L) ==
  IF Blank(L) \/ Comment(L) THEN st
  ELSE IF L[1].t = "v" THEN IF Len(L) < 4 THEN Bad(st) ELSE Coords(st, SubSeq(L, 2, 4), AddV)
  ELSE IF L[1].t = "f" THEN
    LET T == UpToHash(Tail(L))
        At(i) == IF i > 0 THEN i - 1 ELSE Len(st.v) + i
    IN IF \E k \in DOMAIN T : T[k].i = None \/ T[k].i = 0 THEN Bad(st)
       ELSE IF \E k \in DOMAIN T : T[k].i = Unclear THEN Any(st)
       ELSE AddPoly(st, [k \in DOMAIN T |-> At(T[k].i)])
  ELSE IF L[1].odd = 1 THEN Any(st) ELSE st     \* other statements carry no geometry
ObjEnd(st) == st

(***** OFF *****)
OffNext(st) == IF st.nv > 0 THEN [st EXCEPT !.ph = "vertices"] ELSE IF st.nf > 0 THEN [st EXCEPT !.ph = "faces"] ELSE [st EXCEPT !.ph = "end"]
Signatures == {"OFF", "COFF", "NOFF", "CNOFF", "STOFF", "STCOFF", "STNOFF", "STCNOFF"}
OffPoly(st, L) ==
  IF L[1].i = None THEN Bad(st) ELSE IF L[1].i < 0 THEN Any(st)
  ELSE IF Len(L) < 1 + L[1].i THEN (IF \E k \in DOMAIN L : L[k].i = Unclear THEN Any(st) ELSE Bad(st))
  ELSE LET T == SubSeq(L, 2, 1 + L[1].i) IN
       IF \E k \in DOMAIN T : T[k].i = None THEN Bad(st) ELSE IF \E k \in DOMAIN T : T[k].i < -1000 THEN Any(st)
       ELSE AddPoly(st, [k \in DOMAIN T |-> T[k].i])
Off(st, L) ==
  IF Blank(L) \/ Comment(L) THEN st
  ELSE IF st.ph = "start" THEN
    IF L[1].t \notin Signatures THEN (IF L[1].odd = 1 THEN Any(st) ELSE Bad(st))
    ELSE IF Len(L) = 1 \/ Hash(L[2]) THEN [st EXCEPT !.ph = "numbers"]
    ELSE IF L[2].t = "BINARY" THEN Bad(st) ELSE Any(st)
  ELSE IF st.ph = "numbers" THEN
    IF Len(L) < 2 \/ (\E k \in 1..2 : L[k].i = None) THEN Bad(st)
    ELSE IF \E k \in 1..2 : L[k].i < -1000 THEN Any(st)
    ELSE IF \E k \in 1..2 : L[k].i < 0 THEN Bad(st)
    ELSE OffNext([st EXCEPT !.nv = L[1].i, !.nf = L[2].i])
  ELSE IF st.ph = "vertices" THEN IF Len(L) < 3 THEN Bad(st)
    ELSE LET s == Coords(st, SubSeq(L, 1, 3), AddV) IN OffNext([s EXCEPT !.nv = @ - 1])
  ELSE IF st.ph = "faces" THEN OffNext([OffPoly(st, L) EXCEPT !.nf = @ - 1])
  ELSE Bad(st)       \* more elements than declared
OffEnd(st) == IF st.r = "on" /\ st.ph # "end" THEN Bad(st) ELSE st

(***** PLY *****)
Element(name, n) == [name |-> name, n |-> n, p |-> <<>>]
Prop(name, list) == [name |-> name, list |-> list]
Find(q, P(_)) == IF \E i \in DOMAIN q : P(q[i]) THEN CHOOSE i \in DOMAIN q : P(q[i]) /\ \A j \in 1..i - 1 : ~P(q[j]) ELSE 0
VertexE(st) == Find(st.el, LAMBDA e : e.name = "vertex")
FaceE(st) == Find(st.el, LAMBDA e : e.name = "face")
PropOf(e, names, list) == Find(e.p, LAMBDA p : p.name \in names /\ p.list = list)
IndexNames == {"vertex_index", "vertex_indices"}
\* after the header: which of the elements are needed, and is the layout one that is understood without doubt
PlyBody(st) ==
  IF VertexE(st) = 0 \/ FaceE(st) = 0 THEN Bad(st)
  ELSE LET V == st.el[VertexE(st)]  F == st.el[FaceE(st)] IN
  IF (\E a \in {"x", "y", "z"} : PropOf(V, {a}, FALSE) = 0) \/ PropOf(F, IndexNames, TRUE) = 0 THEN Bad(st)
  ELSE IF (\E i, j \in DOMAIN st.el : i # j /\ st.el[i].name = st.el[j].name) \/ (\E i \in DOMAIN st.el : st.el[i].p = <<>> /\ st.el[i].n > 0)
          \/ (\E i \in DOMAIN st.el : \E a, b \in DOMAIN st.el[i].p : a # b /\ (st.el[i].p[a].name = st.el[i].p[b].name \/ {st.el[i].p[a].name, st.el[i].p[b].name} = IndexNames))
       THEN Any(st)
  ELSE [st EXCEPT !.ph = "body", !.e = 1]
RECURSIVE Skip(_)
Skip(st) == IF st.e <= Len(st.el) /\ st.el[st.e].n = 0 THEN Skip([st EXCEPT !.e = @ + 1]) ELSE st
\* where the values of property k start in the line: position, 0 if the line ends before, -1 if unclear
RECURSIVE Begin(_, _, _)
Begin(P, L, k) ==
  IF k = 1 THEN 1 ELSE
  LET b == Begin(P, L, k - 1) IN
  IF b <= 0 THEN b ELSE IF b > Len(L) THEN 0
  ELSE IF ~P[k - 1].list THEN b + 1
  ELSE IF L[b].i = None THEN 0 ELSE IF L[b].i < 0 THEN -1 ELSE IF L[b].i > Len(L) THEN 0 ELSE b + 1 + L[b].i
\* tokens such as 1.5 or 1+2 in place of an integer may be taken for more than one
Murky(L) == \E k \in DOMAIN L : L[k].i = Unclear
PlyVertex(st, P, L) ==
  LET e == Begin(P, L, Len(P) + 1) IN
  IF e = 0 \/ e > Len(L) + 1 THEN Bad(st) ELSE IF e < 0 \/ e # Len(L) + 1 THEN Any(st)
  ELSE LET X == Begin(P, L, PropOf([p |-> P], {"x"}, FALSE))  Y == Begin(P, L, PropOf([p |-> P], {"y"}, FALSE))
           Z == Begin(P, L, PropOf([p |-> P], {"z"}, FALSE))
       IN Coords(st, <<L[X], L[Y], L[Z]>>, AddV)
PlyFace(st, P, L) ==
  LET e == Begin(P, L, Len(P) + 1) IN
  IF (e = 0 \/ e > Len(L) + 1) /\ Murky(L) THEN Any(st)
  ELSE IF e = 0 \/ e > Len(L) + 1 THEN Bad(st) ELSE IF e < 0 \/ e # Len(L) + 1 THEN Any(st)
  ELSE LET b == Begin(P, L, PropOf([p |-> P], IndexNames, TRUE))
           T == SubSeq(L, b + 1, b + L[b].i)
       IN IF \E k \in DOMAIN T : T[k].i = None THEN Bad(st) ELSE IF \E k \in DOMAIN T : T[k].i < -1000 THEN Any(st)
          ELSE AddPoly(st, [k \in DOMAIN T |-> T[k].i])
Ply(st, L) ==
  IF st.ph = "body" THEN
    LET s == Skip(st) IN
    IF Blank(L) THEN Any(st)
    ELSE IF s.e > Len(s.el) THEN Bad(s)       \* more elements than declared
    ELSE LET E == s.el[s.e]
             r == IF E.name = "vertex" THEN PlyVertex(s, E.p, L) ELSE IF E.name = "face" THEN PlyFace(s, E.p, L) ELSE s
         IN [r EXCEPT !.el[s.e].n = @ - 1]
  ELSE IF Blank(L) THEN (IF st.ph = "start" THEN Any(st) ELSE st)
  ELSE IF L[1].t = "comment" THEN (IF st.ph = "start" THEN Any(st) ELSE st)
  ELSE IF L[1].t = "obj_info" THEN Any(st)
  ELSE IF st.ph = "start" THEN IF L[1].t = "ply" /\ Len(L) = 1 THEN [st EXCEPT !.ph = "format"] ELSE Bad(st)
  ELSE IF st.ph = "format" THEN
    IF L[1].t = "format" /\ Len(L) = 3 /\ L[2].t = "ascii" /\ L[3].t = "1.0" THEN [st EXCEPT !.ph = "elements"] ELSE Bad(st)
  ELSE IF L[1].t = "element" THEN
    IF Len(L) # 3 \/ L[3].i = None THEN Bad(st) ELSE IF L[3].i < -1000 THEN Any(st) ELSE IF L[3].i < 0 THEN Bad(st)
    ELSE [st EXCEPT !.el = Append(@, Element(L[2].t, L[3].i))]
  ELSE IF L[1].t = "property" THEN
    IF st.el = <<>> \/ Len(L) < 3 THEN Bad(st)
    ELSE IF L[2].t = "list" THEN IF Len(L) # 5 THEN Bad(st) ELSE [st EXCEPT !.el[Len(st.el)].p = Append(@, Prop(L[5].t, TRUE))]
    ELSE IF Len(L) # 3 THEN Bad(st) ELSE [st EXCEPT !.el[Len(st.el)].p = Append(@, Prop(L[3].t, FALSE))]
  ELSE IF L[1].t = "end_header" THEN IF Len(L) > 1 THEN Any(st) ELSE PlyBody(st)
  ELSE Bad(st)
PlyEnd(st) == IF st.r # "on" THEN st ELSE IF st.ph # "body" \/ Skip(st).e <= Len(st.el) THEN Bad(st) ELSE st

Line(fmt, st, L) == IF st.r # "on" THEN st ELSE IF fmt = "obj" THEN Obj(st, L) ELSE IF fmt = "off" THEN Off(st, L) ELSE Ply(st, L)
InRange(st) == \A i \in DOMAIN st.f : \A k \in 1..3 : st.f[i][k] >= 0 /\ st.f[i][k] < Len(st.v)
\* the document has ended; r becomes "ok", "bad" or "any"
Finish(fmt, st0) ==
  LET st == IF fmt = "obj" THEN ObjEnd(st0) ELSE IF fmt = "off" THEN OffEnd(st0) ELSE PlyEnd(st0) IN
  IF st.r # "on" THEN st ELSE IF ~InRange(st) THEN Bad(st) ELSE [st EXCEPT !.r = "ok"]
RECURSIVE Lines(_, _, _)
Lines(fmt, st, D) == IF D = <<>> \/ st.r # "on" THEN st ELSE Lines(fmt, Line(fmt, st, D[1]), Tail(D))
Read(fmt, D) == Finish(fmt, Lines(fmt, Start, D))
=============================================================================
