-------------------------------- MODULE Lock --------------------------------
(* The lock as its users see it.  Every process is idle, trying, holding,   *)
(* giving it up, or dead.  A lock is taken between "try" and "have" and     *)
(* given up between "giveup" and "free"; it belongs to its holder from      *)
(* "have" to "giveup" at least.                                             *)
(*                                                                          *)
(* st:   process -> "idle" | "try" | "have" | "free" (giving up) | "dead"   *)
(* met:  processes which, while trying, had another live one about that     *)
(*       may have had the lock                                              *)
EXTENDS Naturals, FiniteSets

CONSTANT Procs
VARIABLES st, met
lvars == <<st, met>>

Busy(p) == st[p] \in {"try", "have", "free"}
Others(p) == {q \in Procs \ {p} : Busy(q)}

LInit == st = [p \in Procs |-> "idle"] /\ met = {}

Try(p) == /\ st[p] = "idle"
          /\ st' = [st EXCEPT ![p] = "try"]
          /\ met' = (met \ {p}) \cup (IF Others(p) # {} THEN {p} ELSE {})
                    \cup {q \in Procs : st[q] = "try"}
Have(p) == /\ st[p] = "try"
           /\ \A q \in Procs : st[q] # "have"
           /\ st' = [st EXCEPT ![p] = "have"] /\ UNCHANGED met
Refused(p) == /\ st[p] = "try" /\ p \in met
              /\ st' = [st EXCEPT ![p] = "idle"] /\ UNCHANGED met
GiveUp(p) == /\ st[p] = "have"
             /\ st' = [st EXCEPT ![p] = "free"] /\ UNCHANGED met
Free(p) == /\ st[p] = "free"
           /\ st' = [st EXCEPT ![p] = "idle"] /\ UNCHANGED met
Die(p) == st' = [st EXCEPT ![p] = "dead"] /\ UNCHANGED met

LNext == \E p \in Procs : Try(p) \/ Have(p) \/ Refused(p) \/ GiveUp(p) \/ Free(p) \/ (st[p] # "dead" /\ Die(p))

Mutex == Cardinality({p \in Procs : st[p] = "have"}) <= 1
=============================================================================
