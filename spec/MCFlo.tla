------------------------------- MODULE MCFlo --------------------------------
(* Flow file operations made of system calls, without the help of busy      *)
(* flags: any number of programs attaching files, and working off the flow  *)
(* file, at the same time.  Inodes hold entries; the name means one of them *)
(* or nothing; every inode has a file lock.                                 *)
(* Alg: how a program makes sure that the file it has locked still is the   *)
(* flow file: "inode" compares them, "name" only asks whether there is one  *)
(* (the way the program had it).                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Attachers, Drainers, Alg, MaxIno, Files
Procs == Attachers \cup Drainers
VARIABLES name, ent, lock, pc, ino, file, taken, ok, dead
vars == <<name, ent, lock, pc, ino, file, taken, ok, dead>>
(* ent[i]: <<[f, sent]>>; taken: bag (sequence) of files worked off;        *)
(* ok: files whose attaching has been reported done                         *)
Init == /\ name = 0 /\ ent = <<>> /\ lock = <<>> /\ taken = <<>> /\ ok = <<>> /\ dead = {}
        /\ pc = [p \in Procs |-> "find"] /\ ino = [p \in Procs |-> 0]
        /\ file \in [Attachers -> Files]
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Open(p) == /\ pc[p] = "find"
           /\ IF name # 0 THEN ino' = [ino EXCEPT ![p] = name] /\ Goto(p, "lock") /\ UNCHANGED <<name, ent, lock>>
              ELSE IF p \in Drainers THEN Goto(p, "end") /\ UNCHANGED <<name, ent, lock, ino>>
              ELSE /\ Len(ent) < MaxIno
                   /\ ent' = Append(ent, <<>>) /\ lock' = Append(lock, {}) /\ name' = Len(ent) + 1
                   /\ ino' = [ino EXCEPT ![p] = Len(ent) + 1] /\ Goto(p, "lock")
           /\ UNCHANGED <<file, taken, ok, dead>>
Lock(p) == /\ pc[p] = "lock" /\ lock[ino[p]] = {}
           /\ lock' = [lock EXCEPT ![ino[p]] = {p}] /\ Goto(p, "check")
           /\ UNCHANGED <<name, ent, ino, file, taken, ok, dead>>
Check(p) == /\ pc[p] = "check"
            /\ IF IF Alg = "inode" THEN name = ino[p] ELSE name # 0
               THEN Goto(p, IF p \in Drainers THEN "next" ELSE "read") /\ UNCHANGED lock
               ELSE lock' = [lock EXCEPT ![ino[p]] = {}] /\ Goto(p, "find")
            /\ UNCHANGED <<name, ent, ino, file, taken, ok, dead>>
Listed(p) == \E k \in 1..Len(ent[ino[p]]) : ent[ino[p]][k].f = file[p] /\ ~ent[ino[p]][k].sent
Write(p) == /\ pc[p] = "read"
            /\ ent' = IF Listed(p) THEN ent ELSE [ent EXCEPT ![ino[p]] = Append(@, [f |-> file[p], sent |-> FALSE])]
            /\ Goto(p, "close") /\ UNCHANGED <<name, lock, ino, file, taken, ok, dead>>
Close(p) == /\ pc[p] = "close" /\ lock' = [lock EXCEPT ![ino[p]] = {}]
            /\ ok' = IF p \in Attachers THEN Append(ok, file[p]) ELSE ok
            /\ Goto(p, "end") /\ UNCHANGED <<name, ent, ino, file, taken, dead>>
First(p) == CHOOSE k \in 1..Len(ent[ino[p]]) : ~ent[ino[p]][k].sent /\ \A j \in 1..k - 1 : ent[ino[p]][j].sent
Left(p) == \E k \in 1..Len(ent[ino[p]]) : ~ent[ino[p]][k].sent
Send(p) == /\ pc[p] = "next" /\ Left(p)
           /\ taken' = Append(taken, ent[ino[p]][First(p)].f)
           /\ Goto(p, "mark") /\ UNCHANGED <<name, ent, lock, ino, file, ok, dead>>
Mark(p) == /\ pc[p] = "mark"
           /\ ent' = [ent EXCEPT ![ino[p]] = [@ EXCEPT ![First(p)].sent = TRUE]]
           /\ Goto(p, "next") /\ UNCHANGED <<name, lock, ino, file, taken, ok, dead>>
Remove(p) == /\ pc[p] = "next" /\ ~Left(p)
             /\ name' = 0 /\ Goto(p, "close") /\ UNCHANGED <<ent, lock, ino, file, taken, ok, dead>>
Crash(p) == /\ pc[p] \notin {"end", "dead"} /\ dead = {}
            /\ lock' = [k \in 1..Len(lock) |-> lock[k] \ {p}] /\ dead' = {p}
            /\ Goto(p, "dead") /\ UNCHANGED <<name, ent, ino, file, taken, ok>>
Step(p) == Open(p) \/ Lock(p) \/ Check(p) \/ Write(p) \/ Close(p) \/ Send(p) \/ Mark(p) \/ Remove(p)
Next == \E p \in Procs : Step(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p)) /\ SF_vars(Lock(p))

In(f, s) == \E k \in 1..Len(s) : s[k] = f
Waiting(f) == name # 0 /\ \E k \in 1..Len(ent[name]) : ent[name][k].f = f /\ ~ent[name][k].sent
(* what has been attached is listed or has been taken                       *)
NotLost == \A k \in 1..Len(ok) : Waiting(ok[k]) \/ In(ok[k], taken)
Count(f, s) == Cardinality({k \in 1..Len(s) : s[k] = f})
(* nothing is listed twice, nor taken more often than attached              *)
Once == /\ name # 0 => \A a, b \in 1..Len(ent[name]) : a # b /\ ~ent[name][a].sent /\ ~ent[name][b].sent
                                                     => ent[name][a].f # ent[name][b].f
        /\ dead = {} => \A f \in Files : Count(f, taken) <= Cardinality({p \in Attachers : file[p] = f})
Inv == NotLost /\ Once
Ends == \A p \in Procs : <>(pc[p] \in {"end", "dead"})
=============================================================================
