-------------------------------- MODULE Tagging --------------------------------
(* Classification of faces by several workers: every border (intersection) edge *)
(* is taken by one worker, which writes the tags of the faces around it and then *)
(* floods each of them through non-border adjacency.  Tags are shared;   *)
(* with Atomic, exchanging a tag and setting an unknown tag are single steps.  After the   *)
(* local phase, every component that is still unknown gets its tag from point    *)
(* location.  Whatever the order of the edges and the interleaving of workers:   *)
(*  - if every patch is on one side of the other mesh, all tags are right and    *)
(*    no warning is raised;                                                      *)
(*  - a mesh is named by a warning iff one of its patches is on both sides.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers,
          EarlyOut,   \* TRUE: skip an edge whose faces are all tagged (a defect repaired in the code)
          Atomic      \* FALSE: plain reads and writes of tags (a defect repaired in the code)

U == "U"
(* mesh: face -> 1/2; adj: set of {f,g}; edges: sequence of [face -> tag at that edge] (empty: undecided there);
   pre: tags known beforehand (coincident faces); truth: face -> tag, for faces reached only by point location *)
Split == [n |-> "split", mesh |-> <<1, 1, 1, 2, 2>>, adj |-> {{1, 2}},
          edges |-> <<(2 :> "EXT" @@ 3 :> "INT" @@ 4 :> "EXT" @@ 5 :> "INT")>>, pre |-> << >>,
          truth |-> <<"EXT", "EXT", "INT", "EXT", "INT">>]
TwoEdges == [n |-> "two edges", mesh |-> <<1, 1, 2, 2, 2>>, adj |-> {{3, 5}},
          edges |-> <<(1 :> "EXT" @@ 2 :> "INT" @@ 3 :> "INT" @@ 4 :> "EXT"), (1 :> "EXT" @@ 2 :> "INT" @@ 5 :> "INT" @@ 4 :> "EXT")>>,
          pre |-> << >>, truth |-> <<"EXT", "INT", "INT", "EXT", "INT">>]
(* a complete cut and a slit in the same patch of mesh 1, by one connected part of mesh 2 on either side *)
Slit == [n |-> "slit", mesh |-> <<1, 1, 1, 1, 2, 2, 2, 2>>, adj |-> {{2, 3}, {2, 4}, {5, 7}, {6, 8}},
         edges |-> <<(1 :> "EXT" @@ 2 :> "INT" @@ 5 :> "EXT" @@ 6 :> "INT"), (3 :> "INT" @@ 4 :> "EXT" @@ 7 :> "EXT" @@ 8 :> "INT")>>,
         pre |-> << >>, truth |-> <<"EXT", "INT", "INT", "INT", "EXT", "INT", "EXT", "INT">>]
Simple == [n |-> "simple slit", mesh |-> <<1, 1, 1, 2, 2>>, adj |-> {{1, 2}, {1, 3}},
         edges |-> <<(2 :> "EXT" @@ 3 :> "INT" @@ 4 :> "EXT" @@ 5 :> "INT")>>, pre |-> << >>,
         truth |-> <<"EXT", "EXT", "INT", "EXT", "INT">>]
Both == [n |-> "both", mesh |-> <<1, 1, 1, 2, 2, 2>>, adj |-> {{1, 2}, {1, 3}, {4, 6}, {5, 6}},
         edges |-> <<(2 :> "EXT" @@ 3 :> "INT" @@ 4 :> "EXT" @@ 5 :> "INT")>>, pre |-> << >>,
         truth |-> <<"EXT", "EXT", "INT", "EXT", "INT", "EXT">>]
Isolated == [n |-> "isolated and touching", mesh |-> <<1, 1, 2, 2, 1>>, adj |-> {{1, 5}},
         edges |-> << << >>, (1 :> "EXT" @@ 3 :> "EXT") >>, pre |-> << >>,
         truth |-> <<"EXT", "INT", "EXT", "EXT", "EXT">>]
Coplanar == [n |-> "coplanar", mesh |-> <<1, 1, 2, 2, 1>>, adj |-> {{2, 5}},
         edges |-> <<(1 :> "COP" @@ 2 :> "EXT" @@ 3 :> "COP" @@ 4 :> "INT"), (1 :> "COP" @@ 5 :> "EXT" @@ 3 :> "COP")>>,
         pre |-> (1 :> "COP" @@ 3 :> "COP"), truth |-> <<"COP", "EXT", "COP", "INT", "EXT">>]
Configs == {Split, TwoEdges, Slit, Simple, Both, Isolated, Coplanar}

VARIABLES c, tag, todo, wk, warn, phase
vars == <<c, tag, todo, wk, warn, phase>>
Faces == 1..Len(c.mesh)
Nbrs(f) == {g \in Faces : {f, g} \in c.adj /\ g # f}
Idle == [pc |-> "idle", e |-> 0, write |-> {}, seeds |-> {}, q |-> << >>, tag |-> U, from |-> 0, nb |-> {}, x |-> 0]

Init == /\ c \in Configs
        /\ tag = [f \in 1..Len(c.mesh) |-> IF f \in DOMAIN c.pre THEN c.pre[f] ELSE U]
        /\ todo = DOMAIN c.edges /\ wk = [w \in Workers |-> Idle] /\ warn = {} /\ phase = "local"

Set(w, r) == wk' = [wk EXCEPT ![w] = r]
Take(w) == /\ phase = "local" /\ wk[w].pc = "idle"
           /\ \E e \in todo :
                /\ todo' = todo \ {e}
                /\ IF EarlyOut /\ \A f \in DOMAIN c.edges[e] : tag[f] # U
                   THEN UNCHANGED wk
                   ELSE Set(w, [Idle EXCEPT !.pc = "write", !.e = e, !.write = DOMAIN c.edges[e], !.seeds = DOMAIN c.edges[e]])
           /\ UNCHANGED <<c, tag, warn, phase>>
Write(w) == /\ wk[w].pc = "write"
            /\ IF wk[w].write = {} THEN Set(w, [wk[w] EXCEPT !.pc = "seed"]) /\ UNCHANGED tag
               ELSE LET f == CHOOSE g \in wk[w].write : TRUE IN
                    tag' = [tag EXCEPT ![f] = c.edges[wk[w].e][f]] /\ Set(w, [wk[w] EXCEPT !.write = @ \ {f}])
            /\ warn' = IF Atomic THEN warn \cup {c.mesh[f] : f \in {g \in DOMAIN c.edges[wk[w].e] :
                                       g \in wk[w].write /\ g \notin wk'[w].write /\ tag[g] \notin {U, tag'[g]}}} ELSE warn
            /\ UNCHANGED <<c, todo, phase>>
Seed(w) == /\ wk[w].pc = "seed"
           /\ IF wk[w].seeds = {} THEN Set(w, Idle)
              ELSE LET f == CHOOSE g \in wk[w].seeds : TRUE IN
                   Set(w, [wk[w] EXCEPT !.seeds = @ \ {f}, !.pc = "pop", !.q = <<f>>, !.tag = tag[f], !.from = c.mesh[f]])
           /\ UNCHANGED <<c, tag, todo, warn, phase>>
Pop(w) == /\ wk[w].pc = "pop"
          /\ IF wk[w].q = << >> THEN Set(w, [wk[w] EXCEPT !.pc = "seed"])
             ELSE Set(w, [wk[w] EXCEPT !.pc = "look", !.nb = Nbrs(Head(wk[w].q)), !.q = Tail(@)])
          /\ UNCHANGED <<c, tag, todo, warn, phase>>
Look(w) == /\ wk[w].pc = "look"
           /\ IF wk[w].nb = {} THEN Set(w, [wk[w] EXCEPT !.pc = "pop"]) /\ UNCHANGED <<warn, tag>>
              ELSE LET g == CHOOSE h \in wk[w].nb : TRUE
                       r == [wk[w] EXCEPT !.nb = @ \ {g}] IN
                   IF tag[g] = U /\ Atomic
                   THEN tag' = [tag EXCEPT ![g] = wk[w].tag] /\ Set(w, [r EXCEPT !.q = Append(@, g)]) /\ UNCHANGED warn
                   ELSE IF tag[g] = U THEN Set(w, [r EXCEPT !.pc = "put", !.x = g]) /\ UNCHANGED <<warn, tag>>
                   ELSE UNCHANGED tag /\ Set(w, r) /\ warn' = IF tag[g] # wk[w].tag THEN warn \cup {wk[w].from} ELSE warn
           /\ UNCHANGED <<c, todo, phase>>
Put(w) == /\ wk[w].pc = "put"
          /\ tag' = [tag EXCEPT ![wk[w].x] = wk[w].tag]
          /\ Set(w, [wk[w] EXCEPT !.pc = "look", !.q = Append(@, wk[w].x)])
          /\ UNCHANGED <<c, todo, warn, phase>>
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {Nbrs(f) : f \in S} IN IF T = S THEN S ELSE Reach(T)
Global == /\ phase = "local" /\ todo = {} /\ \A w \in Workers : wk[w].pc = "idle"
          /\ phase' = "done"
          /\ tag' = [f \in Faces |-> IF tag[f] = U THEN c.truth[f] ELSE tag[f]]
          /\ UNCHANGED <<c, todo, wk, warn>>
Next == (\E w \in Workers : Take(w) \/ Write(w) \/ Seed(w) \/ Pop(w) \/ Look(w) \/ Put(w)) \/ Global
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what the edges say about a patch *)
PatchOf(f) == Reach({f})
Says(P) == UNION {{c.edges[e][f] : f \in P \cap DOMAIN c.edges[e]} : e \in DOMAIN c.edges}
Inconsistent(m) == \E f \in Faces : c.mesh[f] = m /\ Cardinality(Says(PatchOf(f))) > 1
Truthful == (phase = "done" /\ ~Inconsistent(1) /\ ~Inconsistent(2)) => (warn = {} /\ \A f \in Faces : tag[f] = c.truth[f])
WarningsExact == phase = "done" => \A m \in {1, 2} : (m \in warn) = Inconsistent(m)
Finishes == <>(phase = "done")
SymW == Permutations(Workers)
=============================================================================
