------------------------------ MODULE MCRewrite ------------------------------
(***************************************************************************)
(* Two programs each add their update to the table under its lock and may  *)
(* be killed at any moment or find the disk full; one more comes later.    *)
(* Variant: "" as it is; "rename": the table is moved away before the new  *)
(* one takes its place; "ignore": a failed write goes unnoticed; "early":  *)
(* the table is read before the lock is taken.                             *)
(***************************************************************************)
EXTENDS Rewrite, FiniteSets
CONSTANTS Procs, Variant
VARIABLES f, lock, pc, mine, done, crashes
vars == <<f, lock, pc, mine, done, crashes>>
Free == 0
Init ==
  /\ f = [n \in FileNames |-> IF n = "bbs" THEN {} ELSE None]
  /\ lock = Free /\ done = {} /\ crashes = 0
  /\ pc = [p \in Procs |-> 100] /\ mine = [p \in Procs |-> {}]
Complete(c) == c # None /\ c # Part
ReadT(p) == mine' = [mine EXCEPT ![p] = IF Complete(f["bbs"]) THEN f["bbs"] \cup {p} ELSE {p}]
Start(p) ==
  /\ pc[p] = 100
  /\ IF Variant = "early" THEN ReadT(p) ELSE UNCHANGED mine
  /\ pc' = [pc EXCEPT ![p] = 101] /\ UNCHANGED <<f, lock, done, crashes>>
Lock(p) ==
  /\ pc[p] = 101 /\ lock = Free /\ lock' = p
  /\ IF Variant # "early" THEN ReadT(p) ELSE UNCHANGED mine
  /\ pc' = [pc EXCEPT ![p] = 1] /\ UNCHANGED <<f, done, crashes>>
Working(p) == pc[p] \notin {100, 101, 102}
Step(p) ==
  /\ Working(p) /\ pc[p] <= Len(Steps)
  /\ f' = IF Variant = "rename" /\ Steps[pc[p]].op = "link"
          THEN [f EXCEPT ![Bak(1)] = f["bbs"], !["bbs"] = None] ELSE Do(f, Steps[pc[p]], mine[p])
  /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<lock, mine, done, crashes>>
(* no room for all of it *)
Full(p) ==
  /\ Working(p) /\ pc[p] = 2
  /\ IF Variant = "ignore" THEN pc' = [pc EXCEPT ![p] = 3] /\ UNCHANGED <<f, lock>>
     ELSE pc' = [pc EXCEPT ![p] = 102] /\ lock' = Free /\ f' = [f EXCEPT !["new"] = None]
  /\ UNCHANGED <<mine, done, crashes>>
Finish(p) ==
  /\ Working(p) /\ pc[p] > Len(Steps)
  /\ pc' = [pc EXCEPT ![p] = 102] /\ lock' = Free /\ done' = done \cup {p}
  /\ UNCHANGED <<f, mine, crashes>>
(* killed; its lock is stale and the next one takes it over *)
Crash(p) ==
  /\ Working(p) /\ crashes < 1
  /\ pc' = [pc EXCEPT ![p] = 102] /\ lock' = Free /\ crashes' = crashes + 1
  /\ UNCHANGED <<f, mine, done>>
Next == \E p \in Procs : Start(p) \/ Lock(p) \/ Step(p) \/ Full(p) \/ Finish(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars
(* whoever looks finds a whole table *)
Whole == Complete(f["bbs"])
(* nothing that was reported done is lost *)
NoLoss == done \subseteq f["bbs"]
(* backups are whole tables, the newer the lower the number *)
Backups ==
  /\ \A k \in 1..N : f[Bak(k)] = None \/ Complete(f[Bak(k)])
  /\ \A i, j \in 1..N : (i < j /\ f[Bak(i)] # None /\ f[Bak(j)] # None) => f[Bak(j)] \subseteq f[Bak(i)]
  /\ \A k \in 1..N : f[Bak(k)] # None => f[Bak(k)] \subseteq f["bbs"]
=============================================================================
