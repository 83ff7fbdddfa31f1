------------------------------- MODULE Rewrite -------------------------------
(***************************************************************************)
(* How a table on disk is replaced: the new one is written beside it, the  *)
(* old one becomes the first of N backups, and one rename puts the new one *)
(* in its place. A file map gives every name its content; None: no such    *)
(* file, Part: incompletely written.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, None, Part
Bak(k) == "o" \o ToString(k)
FileNames == {"bbs", "new"} \cup {Bak(k) : k \in 1..N}
(* the steps of one replacement, in order *)
Steps == <<[op |-> "open"], [op |-> "write"], [op |-> "rm"]>>
         \o [j \in 1..(N - 1) |-> [op |-> "mv", k |-> N - j]]
         \o <<[op |-> "link"], [op |-> "put"]>>
Do(f, s, v) ==
  CASE s.op = "open" -> [f EXCEPT !["new"] = Part]
    [] s.op = "write" -> [f EXCEPT !["new"] = v]
    [] s.op = "rm" -> [f EXCEPT ![Bak(N)] = None]
    [] s.op = "mv" -> IF f[Bak(s.k)] = None THEN f
                      ELSE [f EXCEPT ![Bak(s.k + 1)] = f[Bak(s.k)], ![Bak(s.k)] = None]
    [] s.op = "link" -> [f EXCEPT ![Bak(1)] = f["bbs"]]
    [] s.op = "put" -> [f EXCEPT !["bbs"] = f["new"], !["new"] = None]
RECURSIVE AfterSteps(_, _, _)
AfterSteps(f, k, v) == IF k = 0 THEN f ELSE Do(AfterSteps(f, k - 1, v), Steps[k], v)
Done(f, v) == AfterSteps(f, Len(Steps), v)
=============================================================================
