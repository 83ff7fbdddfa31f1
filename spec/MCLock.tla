------------------------------- MODULE MCLock -------------------------------
(* How the lock is made of files: one step per system call.  A file system  *)
(* of one name in the lock directory and any number of unnamed inodes; an   *)
(* inode carries the PID of its creator and a file lock.                    *)
(*                                                                          *)
(*   look      open the lock file: absent -> create, else read its PID      *)
(*   alive     kill(pid, 0): alive -> refused                               *)
(*   guard     wait for the file lock of that inode                         *)
(*   same      does the name still mean this inode?                         *)
(*   remove    unlink the name (and drop the file lock)                     *)
(*   create    link the own, complete file to the name: fails if it exists  *)
(*   have      ... unlink it again                                          *)
(* Any process may die at any point; the kernel drops its file locks.       *)
(* Alg = "excl" is the program's way, "open" the one it had: create by      *)
(* truncating, remove without a second look.                                *)
EXTENDS Lock, Sequences, TLC

CONSTANTS Alg, Stale, MaxIno, MayDie
VARIABLES pc, name, owner, flk, ino
vars == <<st, met, pc, name, owner, flk, ino>>

None == "none"
(* inode 1 is a lock file of a process long dead, when Stale                *)
Init == /\ LInit
        /\ pc = [p \in Procs |-> "idle"]
        /\ name = IF Stale THEN 1 ELSE 0
        /\ owner = IF Stale THEN <<"gone">> ELSE <<>>
        /\ flk = IF Stale THEN <<None>> ELSE <<>>
        /\ ino = [p \in Procs |-> 0]

Alive(p) == p \in Procs /\ st[p] # "dead"
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
FS == <<name, owner, flk>>

Begin(p) == pc[p] = "idle" /\ Len(owner) + Cardinality({q \in Procs : Busy(q)}) < MaxIno /\ Try(p) /\ Goto(p, "look") /\ UNCHANGED <<name, owner, flk, ino>>
Look(p) == /\ pc[p] = "look"
           /\ IF name = 0 THEN Goto(p, "create") /\ UNCHANGED ino
              ELSE Goto(p, "alive") /\ ino' = [ino EXCEPT ![p] = name]
           /\ UNCHANGED <<lvars, name, owner, flk>>
No(p) == Refused(p) /\ Goto(p, "idle") /\ UNCHANGED <<name, owner, flk, ino>>
TestAlive(p) == /\ pc[p] = "alive"
                /\ IF Alive(owner[ino[p]]) THEN No(p)
                   ELSE /\ Goto(p, IF Alg = "excl" THEN "guard" ELSE "remove")
                        /\ UNCHANGED <<lvars, name, owner, flk, ino>>
Guard(p) == /\ pc[p] = "guard" /\ flk[ino[p]] = None
            /\ flk' = [flk EXCEPT ![ino[p]] = p]
            /\ Goto(p, "same") /\ UNCHANGED <<lvars, name, owner, ino>>
Same(p) == /\ pc[p] = "same"
           /\ IF name = ino[p] THEN Goto(p, "remove") /\ UNCHANGED <<lvars, name, owner, flk, ino>>
              ELSE IF name = 0 THEN /\ flk' = [flk EXCEPT ![ino[p]] = None]
                                    /\ Goto(p, "create") /\ UNCHANGED <<lvars, name, owner, ino>>
              ELSE /\ flk' = [flk EXCEPT ![ino[p]] = None]
                   /\ Refused(p) /\ Goto(p, "idle") /\ UNCHANGED <<name, owner, ino>>
Remove(p) == /\ pc[p] = "remove"
             /\ name' = 0
             /\ flk' = IF Alg = "excl" THEN [flk EXCEPT ![ino[p]] = None] ELSE flk
             /\ Goto(p, "create") /\ UNCHANGED <<lvars, owner, ino>>
Create(p) == /\ pc[p] = "create"
             /\ IF name # 0 /\ Alg = "excl" THEN No(p)
                ELSE IF name # 0
                THEN /\ owner' = [owner EXCEPT ![name] = p]
                     /\ Have(p) /\ Goto(p, "have") /\ UNCHANGED <<name, flk, ino>>
                ELSE
                     /\ owner' = Append(owner, p) /\ flk' = Append(flk, None)
                     /\ name' = Len(owner) + 1
                     /\ Have(p) /\ Goto(p, "have") /\ UNCHANGED ino
Leave(p) == pc[p] = "have" /\ GiveUp(p) /\ Goto(p, "leave") /\ UNCHANGED <<name, owner, flk, ino>>
Unlink(p) == /\ pc[p] = "leave" /\ name' = 0
             /\ Free(p) /\ Goto(p, "idle") /\ UNCHANGED <<owner, flk, ino>>
Crash(p) == /\ MayDie /\ pc[p] # "dead" /\ Die(p) /\ Goto(p, "dead")
            /\ flk' = [i \in DOMAIN flk |-> IF flk[i] = p THEN None ELSE flk[i]]
            /\ UNCHANGED <<name, owner, ino>>

Step(p) == Begin(p) \/ Look(p) \/ TestAlive(p) \/ Guard(p) \/ Same(p) \/ Remove(p) \/ Create(p) \/ Leave(p) \/ Unlink(p)
Next == \E p \in Procs : Step(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Step(p))

(* what the steps should not be able to do at all: the guards of Have and   *)
(* Refused in Lock are checked here instead of blocking the step            *)
Honest == \A p \in Procs : (pc[p] = "create" /\ (name = 0 \/ Alg = "open")) => \A q \in Procs : st[q] # "have"
Told == \A p \in Procs : (\/ pc[p] = "alive" /\ Alive(owner[ino[p]])
                          \/ pc[p] = "same" /\ name # ino[p] /\ name # 0
                          \/ pc[p] = "create" /\ name # 0 /\ Alg = "excl") => p \in met
(* a holder's file is there until it gives up, and nobody else's is removed *)
Kept == \A p \in Procs : pc[p] \in {"have", "leave"} => name # 0 /\ owner[name] = p
Inv == Mutex /\ Honest /\ Told /\ Kept

Refines == [][LNext]_lvars
(* nobody waits for ever at a file lock, and a dead owner blocks nobody:    *)
(* a try ends                                                               *)
Ends == \A p \in Procs : (st[p] = "try") ~> (st[p] # "try")
(* when all others are gone or idle for good a try succeeds: stated as      *)
(* "refused only by others" (Told) + Ends                                   *)
Sym == Permutations(Procs)
=============================================================================
