----------------------------- MODULE LockTrace -----------------------------
(* Recorded uses of the real lock, in many schedules, against Lock.tla.     *)
(* A trace is one situation: the lock file found at the start and the       *)
(* schedules tried; runs[i].ev is what the processes reported, in order.    *)
EXTENDS Lock, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, k
Tr == Data[t]
Run == Tr.runs[i]
E == Run.ev[k]
Say(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Say(what, exp, got) /\ FALSE

(* a lock file of a living process, or one nobody can make sense of, keeps  *)
(* everybody out: process 0 stands for its owner                            *)
Start(n) == [p \in Procs |-> IF p = 0 /\ Data[n].init \in {"live", "junk"} THEN "have" ELSE "idle"]
TInit == t \in 1..Len(Data) /\ i = 1 /\ k = 1 /\ st = Start(t) /\ met = {}

Act == LET p == E.p IN
       CASE E.ev = "try" -> Try(p)
         [] E.ev = "have" -> Have(p)
         [] E.ev = "refused" -> Refused(p)
         [] E.ev = "giveup" -> GiveUp(p)
         [] E.ev = "free" -> Free(p)
         [] E.ev = "dead" -> Die(p)
         [] OTHER -> FALSE
Restart == /\ i' = i + 1 /\ k' = 1 /\ t' = t /\ st' = Start(t) /\ met' = {}
           /\ (i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>))
(* the lock file itself afterwards                                          *)
Died == \E n \in 1..Len(Run.ev) : Run.ev[n].ev = "dead"
AtEnd ==
  /\ IF Tr.init \in {"live", "junk"} THEN Chk(Run.left = <<"L">> /\ Run.same, "lock-of-another", "untouched", Run.left)
     ELSE IF Died THEN TRUE
     ELSE Chk(Run.left = <<>>, "left-behind", <<>>, Run.left)
  /\ Chk(Run.stuck = <<>>, "never-ends", <<>>, Run.stuck)
TNext ==
  /\ i <= Len(Tr.runs)
  /\ IF k > Len(Run.ev) THEN (AtEnd \/ TRUE) /\ Restart
     ELSE IF ENABLED Act THEN Act /\ k' = k + 1 /\ UNCHANGED <<t, i>>
     ELSE /\ Say(E.ev, [st |-> [p \in 1..(Cardinality(Procs) - 1) |-> st[p]], owner |-> st[0]], [sched |-> Run.sched, ev |-> Run.ev, at |-> k])
          /\ Restart
Spec == TInit /\ [][TNext]_<<lvars, t, i, k>>
=============================================================================
