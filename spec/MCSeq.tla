------------------------------- MODULE MCSeq --------------------------------
(* The counter made of a file: open (creating it if absent), file lock,     *)
(* read, write, close.  Alg = "open" is the program's way; "trunc" the one  *)
(* it had: an absent file is created by truncating in a second step.        *)
(* Write errors may be noticed (Noticed) or not.                            *)
EXTENDS Seq, Sequences, TLC
CONSTANTS Alg, Exists, Noticed, MaxVal
VARIABLES pc, file, lock, reg, drawn
vars == <<val, got, num, pc, file, lock, reg, drawn>>
(* file: -1 absent, else its number; 0 also when empty                      *)
Init == /\ val = (IF Exists THEN 3 ELSE 0) /\ got = [p \in Procs |-> "idle"] /\ num = [p \in Procs |-> 0]
        /\ pc = [p \in Procs |-> "idle"] /\ file = (IF Exists THEN 4 ELSE 0) /\ lock = {}
        /\ reg = [p \in Procs |-> 0] /\ drawn = [p \in Procs |-> <<>>]
(* file is one more than its number, 0: absent                              *)
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Begin(p) == pc[p] = "idle" /\ val + Cardinality({q \in Procs : got[q] = "draw"}) < MaxVal
            /\ Draw(p) /\ Goto(p, "open") /\ UNCHANGED <<file, lock, reg, drawn>>
Open(p) == /\ pc[p] = "open"
           /\ IF file = 0 /\ Alg = "trunc" THEN Goto(p, "trunc") /\ UNCHANGED file
              ELSE Goto(p, "lock") /\ file' = IF file = 0 THEN 1 ELSE file
           /\ UNCHANGED <<svars, lock, reg, drawn>>
Trunc(p) == pc[p] = "trunc" /\ file' = 1 /\ Goto(p, "lock") /\ UNCHANGED <<svars, lock, reg, drawn>>
Lock(p) == pc[p] = "lock" /\ lock = {} /\ lock' = {p} /\ Goto(p, "read") /\ UNCHANGED <<svars, file, reg, drawn>>
Read(p) == pc[p] = "read" /\ reg' = [reg EXCEPT ![p] = file] /\ Goto(p, "write") /\ UNCHANGED <<svars, file, lock, drawn>>
Write(p) == /\ pc[p] = "write"
            /\ \/ /\ file' = reg[p] + 1 /\ Goto(p, "close")
                  /\ Take(p) /\ UNCHANGED <<lock, reg, drawn>>
               \/ (* the disk is full *)
                  /\ UNCHANGED <<svars, file, lock, reg, drawn>>
                  /\ Goto(p, IF Noticed THEN "fail" ELSE "close")
Close(p) == /\ pc[p] = "close" /\ lock' = {} /\ Goto(p, "idle")
            /\ drawn' = [drawn EXCEPT ![p] = Append(@, reg[p])]
            /\ got' = [got EXCEPT ![p] = "idle"] /\ UNCHANGED <<val, num, file, reg>>
Fail(p) == pc[p] = "fail" /\ lock' = {} /\ Failed(p) /\ Goto(p, "idle") /\ UNCHANGED <<file, reg, drawn>>
Crash(p) == Die(p) /\ lock' = lock \ {p} /\ Goto(p, "dead") /\ UNCHANGED <<file, reg, drawn>>
Step(p) == Begin(p) \/ Open(p) \/ Trunc(p) \/ Lock(p) \/ Read(p) \/ Write(p) \/ Close(p) \/ Fail(p)
Next == \E p \in Procs : Step(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p)) /\ SF_vars(Lock(p))

Range(s) == {s[k] : k \in 1..Len(s)}
Distinct == /\ \A p, q \in Procs : p # q => Range(drawn[p]) \cap Range(drawn[q]) = {}
            /\ \A p \in Procs : \A a, b \in 1..Len(drawn[p]) : a < b => drawn[p][a] < drawn[p][b]
            /\ Exists => \A p \in Procs : \A a \in 1..Len(drawn[p]) : drawn[p][a] > 3
(* the numbers are those of the abstract counter                            *)
Agree == \A p \in Procs : pc[p] = "close" => num[p] = reg[p]
Inv == Distinct /\ Agree
Refines == [][SNext]_svars
Ends == \A p \in Procs : (got[p] = "draw") ~> (got[p] # "draw")
=============================================================================
