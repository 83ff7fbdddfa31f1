------------------------------ MODULE MCLockUse ------------------------------
(* Why the discipline of LockUse.tla is worth checking: whoever keeps to it *)
(* never loses a change made by another.  Every process adds one element to *)
(* a table, by reading it, changing the copy and writing that back.  With   *)
(* Early = TRUE a process may use a copy read before it got the lock, with  *)
(* Loose = TRUE it may write without the lock, with Break = TRUE it removes  *)
(* the lock on giving up.                                                    *)
EXTENDS LockUse
CONSTANTS Early, Loose, Break
VARIABLES table,                 \* thing -> changes it holds
          copy, pc, todo
vars == <<lvars, table, copy, pc, todo>>
Init == /\ Init0([x \in Things |-> None]) /\ table = [x \in Things |-> {}] /\ copy = [p \in Procs |-> {}]
        /\ pc = [p \in Procs |-> "idle"] /\ todo \in [Procs -> Things]
Thing(p) == todo[p]
Go(p, q) == pc' = [pc EXCEPT ![p] = q]
DoTake(p) == pc[p] = "idle" /\ Take(p, Thing(p)) /\ Go(p, "locked") /\ UNCHANGED <<table, copy, todo>>
GiveUp(p) == pc[p] = "idle" /\ Meet(p, Thing(p)) /\ Go(p, "gaveup") /\ UNCHANGED <<table, copy, todo>>
Breaks(p) == /\ Break /\ pc[p] = "gaveup" /\ Go(p, "gone") /\ owner' = [owner EXCEPT ![Thing(p)] = None]
             /\ UNCHANGED <<fresh, waits, table, copy, todo>>
DoRead(p) == /\ pc[p] = "locked" \/ (Early /\ pc[p] = "idle")
             /\ Read(p, Thing(p)) /\ copy' = [copy EXCEPT ![p] = table[Thing(p)]]
             /\ Go(p, IF pc[p] = "idle" THEN "early" ELSE "read") /\ UNCHANGED <<table, todo>>
LateTake(p) == pc[p] = "early" /\ Take(p, Thing(p)) /\ Go(p, "read") /\ UNCHANGED <<table, copy, todo>>
DoWrite(p) == /\ pc[p] \in {"read"} \cup (IF Loose THEN {"early"} ELSE {})
              /\ IF Early \/ Loose \/ Break THEN UNCHANGED lvars ELSE Write(p, Thing(p))
              /\ table' = [table EXCEPT ![Thing(p)] = copy[p] \cup {p}]
              /\ Go(p, IF pc[p] = "read" THEN "written" ELSE "done") /\ UNCHANGED <<copy, todo>>
DoDrop(p) == pc[p] = "written" /\ (IF Break THEN owner' = [owner EXCEPT ![Thing(p)] = None] /\ UNCHANGED <<fresh, waits>> ELSE Drop(p, Thing(p)))
             /\ Go(p, "done") /\ UNCHANGED <<table, copy, todo>>
Next == \E p \in Procs : DoTake(p) \/ GiveUp(p) \/ Breaks(p) \/ DoRead(p) \/ LateTake(p) \/ DoWrite(p) \/ DoDrop(p)
Spec == Init /\ [][Next]_vars
NothingLost == \A p \in Procs : pc[p] \in {"written", "done"} => p \in table[Thing(p)]
NoneLeft == \A p \in Procs : pc[p] \in {"done", "gaveup", "gone"} => Gone(p)
=============================================================================
