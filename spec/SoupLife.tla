------------------------------- MODULE SoupLife -------------------------------
(* Several face collections with a lazily built spatial index each.  The index  *)
(* is only a cache: an object that answers a query must answer for its present  *)
(* content, whatever edits, copies, assignments and moves came before.  Drop*   *)
(* name the operations that discard the index; the checked configuration is the *)
(* one the library implements, the Keep* configurations are negative controls.  *)
EXTENDS SoupOps, TLC, Json

CONSTANTS Objs, MaxV, MaxF, Depth, Discards, SelfGuard
AllDiscards == {"addf", "assign", "copy", "self"}
NoAddF == {"assign", "copy", "self"}
NoAssign == {"addf", "copy", "self"}
NoCopy == {"addf", "assign", "self"}
VARIABLES val, cache, prog
vars == <<val, cache, prog>>
NoCache == [k |-> "none"]
Cached(c) == [k |-> "tree", f |-> c.f, v |-> c.v]
Log(r) == prog' = Append(prog, r)
Live == Len(prog) < Depth
P(n) == <<(n % 3) - 1, ((n \div 2) % 3) - 1, n % 2>>

Init == val = [o \in Objs |-> Empty] /\ cache = [o \in Objs |-> NoCache] /\ prog = <<>>
Set(o, c, k) == val' = [val EXCEPT ![o] = c] /\ cache' = [cache EXCEPT ![o] = k]
Set2(o, c, k, p, c2, k2) == val' = [val EXCEPT ![o] = c, ![p] = c2] /\ cache' = [cache EXCEPT ![o] = k, ![p] = k2]

AddVertex(o) == /\ Len(val[o].v) < MaxV /\ Set(o, AddV(val[o], P(Len(val[o].v))), cache[o])
                /\ Log([c |-> "addv", o |-> o])
AddFace(o) == /\ Len(val[o].v) >= 3 /\ Len(val[o].f) < MaxF
              /\ LET n == Len(val[o].v) IN
                 Set(o, AddF(val[o], <<0, n - 2, n - 1>>), IF "addf" \in Discards THEN NoCache ELSE cache[o])
              /\ Log([c |-> "addf", o |-> o])
Edit(o) == /\ Len(val[o].f) > 0 /\ \E i \in 1..Len(val[o].f) : Set(o, SetD(val[o], i, (val[o].d[i] + 1) % 2), cache[o])
           /\ Log([c |-> "setd", o |-> o])
Query(o) == /\ cache' = [cache EXCEPT ![o] = IF cache[o] = NoCache THEN Cached(val[o]) ELSE @]
            /\ UNCHANGED val /\ Log([c |-> "query", o |-> o])
Copy(d, s) == /\ d # s /\ Set(d, val[s], IF "copy" \in Discards THEN NoCache ELSE cache[s])
              /\ Log([c |-> "copy", o |-> d, s |-> s])
Assign(d, s) == /\ Set(d, val[s], IF d = s THEN (IF SelfGuard THEN cache[d] ELSE NoCache)
                                  ELSE IF "assign" \in Discards THEN NoCache ELSE cache[d])
                /\ Log([c |-> "assign", o |-> d, s |-> s])
Move(d, s, c) == d # s /\ Set2(d, val[s], cache[s], s, Empty, NoCache) /\ Log([c |-> c, o |-> d, s |-> s])
Swap(d, s) == /\ d # s /\ Set2(d, val[s], cache[s], s, val[d], cache[d]) /\ Log([c |-> "swap", o |-> d, s |-> s])
Par(o) == /\ cache' = [cache EXCEPT ![o] = IF cache[o] = NoCache THEN Cached(val[o]) ELSE @]
          /\ UNCHANGED val /\ Log([c |-> "par", o |-> o])
Fresh(o) == Set(o, Empty, NoCache) /\ Log([c |-> "drop", o |-> o])

Next == /\ Live
        /\ \E o \in Objs : \/ AddVertex(o) \/ AddFace(o) \/ Edit(o) \/ Query(o) \/ Par(o) \/ Fresh(o)
                           \/ \E s \in Objs : Copy(o, s) \/ Assign(o, s) \/ Move(o, s, "mctor") \/ Move(o, s, "massign") \/ Swap(o, s)
Spec == Init /\ [][Next]_vars
\* the history of calls is not part of the state that is compared
View == <<val, cache>>
Fresh_ == \A o \in Objs : cache[o] # NoCache => cache[o].f = val[o].f /\ \A i \in 1..Len(cache[o].v) : cache[o].v[i] = val[o].v[i]
GenDone == (Len(prog) = Depth) => PrintT("PROGRAM " \o ToJson(prog))
=============================================================================
