------------------------------ MODULE SeqTrace ------------------------------
(* Recorded draws from the real sequencer, in many schedules, against       *)
(* Seq.tla: when the numbers were taken is not recorded, so TLC looks for   *)
(* an order of Take steps that explains the numbers drawn.                  *)
EXTENDS Seq, Integers, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
Run == Tr.runs[i]
Say(what, exp, g) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> g])>>)
TInit == /\ t \in 1..Len(Data) /\ i = 1
         /\ got = [p \in Procs |-> "idle"] /\ num = [p \in Procs |-> 0] /\ val = Tr.init
(* one run explained: a run is a sequence of at most a dozen events, so the *)
(* search is done within one step                                           *)
S0 == [val |-> Tr.init, got |-> [p \in Procs |-> "idle"], num |-> [p \in Procs |-> 0]]
Begun(s, e) == IF e.ev = "draw" THEN {[s EXCEPT !.got[e.p] = "draw", !.num[e.p] = 0]}
               ELSE IF e.ev = "drew" THEN IF s.got[e.p] = "draw" /\ s.num[e.p] = e.n /\ e.n # 0
                                          THEN {[s EXCEPT !.got[e.p] = "idle"]} ELSE {}
               ELSE IF e.ev = "failed" /\ Run.fault THEN {[s EXCEPT !.got[e.p] = "idle"]}
               ELSE IF e.ev = "dead" THEN {[s EXCEPT !.got[e.p] = "dead"]}
               ELSE {}
Taken(s) == {[s EXCEPT !.val = @ + 1, !.num[p] = s.val + 1] : p \in {q \in Procs : s.got[q] = "draw" /\ s.num[q] = 0}}
RECURSIVE Close(_)
Close(S) == LET N == S \cup UNION {Taken(s) : s \in S} IN IF N = S THEN S ELSE Close(N)
RECURSIVE Explain(_, _)
(* the number of the first event nothing explains, or 0                     *)
Explain(S, n) == IF n > Len(Run.ev)
                 THEN IF \E s \in Close(S) : s.val <= Run.final \/ Run.final = -1 THEN 0 ELSE n
                 ELSE LET N == UNION {Begun(s, Run.ev[n]) : s \in Close(S)}
                      IN IF N = {} THEN n ELSE Explain(N, n + 1)
TNext ==
  /\ i <= Len(Tr.runs)
  /\ LET x == Explain({S0}, 1) IN
     IF x = 0 THEN TRUE
     ELSE Say(IF x > Len(Run.ev) THEN "counter" ELSE "number", [init |-> Tr.init, at |-> x],
              [sched |-> Run.sched, ev |-> Run.ev, final |-> Run.final]) \/ TRUE
  /\ (i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>))
  /\ i' = i + 1 /\ UNCHANGED t /\ UNCHANGED svars
Spec == TInit /\ [][TNext]_<<svars, t, i>>
=============================================================================
