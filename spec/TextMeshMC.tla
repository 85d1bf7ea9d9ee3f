---------------------------- MODULE TextMeshMC ------------------------------
(* A mesh is written token by token in each format and the document is read     *)
(* line by line: it conveys the mesh; the counted formats refuse every cut       *)
(* between lines and every surplus line; OBJ's two index styles agree.           *)
EXTENDS TextMesh, TLC
VARIABLES fmt, mesh, neg, D, k, st
W(s) == [t |-> s, x |-> "", i |-> None, h |-> 0, odd |-> 0]
N(i) == [t |-> ToString(i), x |-> ToString(i), i |-> i, h |-> 0, odd |-> 0]
C(p) == <<N(p[1]), N(p[2]), N(p[3])>>
Meshes == [v : {<<>>, <<<<1, 2, 3>>>>, <<<<1, 2, 3>>, <<0, 0, 7>>, <<5, 5, 5>>>>},
           f : {<<>>, <<<<0, 0, 0>>>>, <<<<0, 1, 2>>>>, <<<<2, 1, 0>>, <<1, 1, 2>>>>, <<<<0, 1, 2, 1>>>>}]
Valid(m) == \A i \in DOMAIN m.f : \A j \in DOMAIN m.f[i] : m.f[i][j] < Len(m.v)
WObj(m, n) == [i \in DOMAIN m.v |-> <<W("v")>> \o C(m.v[i])]
   \o [i \in DOMAIN m.f |-> <<W("f")>> \o [j \in DOMAIN m.f[i] |-> N(IF n THEN m.f[i][j] - Len(m.v) ELSE m.f[i][j] + 1)]]
Body(m) == [i \in DOMAIN m.v |-> C(m.v[i])] \o [i \in DOMAIN m.f |-> <<N(Len(m.f[i]))>> \o [j \in DOMAIN m.f[i] |-> N(m.f[i][j])]]
WOff(m) == <<<<W("OFF")>>, <<N(Len(m.v)), N(Len(m.f)), N(0)>>>> \o Body(m)
P(a) == <<W("property"), W("float"), W(a)>>
WPly(m) == <<<<W("ply")>>, <<W("format"), W("ascii"), W("1.0")>>, <<W("element"), W("vertex"), N(Len(m.v))>>, P("x"), P("y"), P("z"),
             <<W("element"), W("face"), N(Len(m.f))>>, <<W("property"), W("list"), W("uchar"), W("int"), W("vertex_index")>>, <<W("end_header")>>>> \o Body(m)
Init == /\ fmt \in {"obj", "off", "ply"} /\ mesh \in {m \in Meshes : Valid(m)} /\ neg \in BOOLEAN /\ (neg => fmt = "obj")
        /\ D = IF fmt = "obj" THEN WObj(mesh, neg) ELSE IF fmt = "off" THEN WOff(mesh) ELSE WPly(mesh)
        /\ k = 0 /\ st = Start
Step == k < Len(D) /\ k' = k + 1 /\ st' = Line(fmt, st, D[k + 1]) /\ UNCHANGED <<fmt, mesh, neg, D>>
Spec == Init /\ [][Step]_<<fmt, mesh, neg, D, k, st>>
RECURSIVE Fans(_)
Fans(q) == IF q = <<>> THEN <<>> ELSE Fan(q[1]) \o Fans(Tail(q))
Conveys == k = Len(D) => LET e == Finish(fmt, st) IN
  e.r = "ok" /\ e.f = Fans(mesh.f) /\ e.v = [i \in DOMAIN mesh.v |-> [j \in 1..3 |-> ToString(mesh.v[i][j])]]
NoCut == k < Len(D) /\ fmt # "obj" => Finish(fmt, st).r = "bad"
NoSurplus == k = Len(D) /\ fmt # "obj" => Finish(fmt, Line(fmt, st, C(<<1, 2, 3>>))).r = "bad"
Progress == st.r = "on"
=============================================================================
