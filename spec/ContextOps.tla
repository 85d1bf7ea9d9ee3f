------------------------------ MODULE ContextOps ------------------------------
(* Scoped options: each thread has a stack of scopes; a scope of an option type  *)
(* puts a value in force until it ends.  Types: T number of threads, W form of   *)
(* OBJ files, C any other.                                                       *)
EXTENDS Integers, Sequences
Types == {"T", "W", "C"}
\* the largest number that a request or an observation can have here; requests from there on stand for even larger ones
Huge == 2000000000
Clamp(v, hw) == LET top == IF hw < 1 THEN 1 ELSE hw IN IF v > top THEN top ELSE IF v < 1 THEN 1 ELSE v
Default(o, hw) == IF o = "T" THEN Clamp(Huge, hw) ELSE 0
Effective(o, v, hw) == IF o = "T" THEN Clamp(v, hw) ELSE v
\* the value in force under a stack of scopes
RECURSIVE InForce(_, _, _)
InForce(s, o, hw) == IF s = <<>> THEN Default(o, hw)
                     ELSE IF s[Len(s)].o = o THEN Effective(o, s[Len(s)].v, hw)
                     ELSE InForce(SubSeq(s, 1, Len(s) - 1), o, hw)
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
=============================================================================
