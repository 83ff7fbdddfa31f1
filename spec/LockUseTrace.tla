---------------------------- MODULE LockUseTrace ----------------------------
(* What real programs did with locks and with the things they protect, one  *)
(* or two programs at a time, in many schedules, against LockUse.tla.       *)
(* A run: owner[x] at the start ("none", "stranger", "dead"), needs[p] the  *)
(* locks program p must get to do its work, asked[p]: told to lock (and so  *)
(* its work is protected), ev the events, rc[p] the exit codes (-1: it was  *)
(* still waiting when the run was ended).                                   *)
EXTENDS LockUse, Sequences, Integers, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, k
Tr == Data[t]
Run == Tr.runs[i]
E == Run.ev[k]
Set(s) == {s[n] : n \in DOMAIN s}
Say(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Say(what, exp, got) /\ FALSE
Start(n, j) == [x \in Things |-> IF Data[n].runs[j].owner[x] = "stranger" THEN Stranger ELSE None]
Clean == fresh' = [p \in Procs |-> {}] /\ waits' = {}
TInit == t \in 1..Len(Data) /\ i = 1 /\ k = 1 /\ Init0(Start(t, 1))

Act == CASE E.ev = "take" -> Take(E.p, E.x)
         [] E.ev = "drop" -> Drop(E.p, E.x)
         [] E.ev = "read" -> Read(E.p, E.x)
         [] E.ev = "write" -> Write(E.p, E.x)
         [] E.ev = "use" -> Use(E.p, E.x)
         [] E.ev = "meet" -> Meet(E.p, E.x)
         [] OTHER -> FALSE
Restart == /\ i' = i + 1 /\ k' = 1 /\ t' = t
           /\ IF i < Len(Tr.runs) THEN owner' = Start(t, i + 1) /\ Clean ELSE UNCHANGED lvars
           /\ (i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>))
AtEnd ==
  /\ \A p \in 1..Len(Run.rc) :
       LET busy == \E x \in Set(Tr.needs[p]) : owner[x] = Stranger IN
       /\ IF busy THEN Chk(Run.rc[p] # 0, "busy-not-told", "failure", Run.rc)
          ELSE Chk(Run.rc[p] # -1, "waits-for-nothing", "end", Run.rc)
       /\ (Run.rc[p] # -1 => Chk(Gone(p), "lock-left", {}, [p |-> p, left |-> {x \in Things : owner[x] = p}]))
       /\ (Run.rc[p] = 0 /\ Tr.does[p] # <<>> =>
            Chk(\A x \in Set(Tr.does[p]) : \E n \in DOMAIN Run.ev : Run.ev[n].p = p /\ Run.ev[n].x = x /\ Run.ev[n].ev \in {"write", "use"},
                "nothing-done", Tr.does[p], <<>>))
  /\ Chk(Set(Run.files) = {x \in Things : owner[x] # None}, "lock-files", {x \in Things : owner[x] # None}, Run.files)
TNext ==
  /\ i <= Len(Tr.runs)
  /\ IF k > Len(Run.ev) THEN (AtEnd \/ TRUE) /\ Restart
     ELSE IF ENABLED Act THEN Act /\ k' = k + 1 /\ UNCHANGED <<t, i>>
     ELSE /\ Say(E.ev \o " " \o E.x, [owner |-> owner[E.x], fresh |-> fresh[E.p]], [sched |-> Run.sched, at |-> k, e |-> E])
          /\ Restart
Spec == TInit /\ [][TNext]_<<lvars, t, i, k>>
=============================================================================
