------------------------------ MODULE FloTrace ------------------------------
(* Recorded uses of the real flow file code against Flo.tla.  The programs  *)
(* of a group run at the same time; TLC looks for an order of their         *)
(* operations that explains what was taken and what is left.                *)
EXTENDS Flo, Json, IOUtils, TLC

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
Run == Tr.runs[i]
Say(what, exp, g) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> g])>>)
Fun(l, key, val) == [x \in {l[k][key] : k \in 1..Len(l)} |-> (CHOOSE k \in {l[j] : j \in 1..Len(l)} : k[key] = x)[val]]
StateOf(o) == [flo |-> [x \in Exts |-> IF \E k \in 1..Len(o.flo) : o.flo[k].ext = x
                                       THEN Some((CHOOSE y \in {o.flo[k] : k \in 1..Len(o.flo)} : y.ext = x).ent) ELSE None],
               files |-> Fun(o.files, "name", "is")]
S0 == StateOf(Tr.start)
(* all outcomes of one operation that agree with what it reported           *)
Agree(s, o) == {x.s : x \in {y \in (IF o.dead THEN Partial(s, o) ELSE Done(s, o)) :
                             /\ y.took = o.took
                             /\ o.rc = 0 \/ o.dead}} \cup
(* an attach that reports failure after a failed system call changed nothing *)
               (IF ~o.dead /\ o.rc # 0 /\ Run.fault /\ o.op = "attach"
                THEN {s, LET x == Target(s, o.flav) IN [s EXCEPT !.flo[x] = Some(@.ent)]} ELSE {})
RECURSIVE Orders(_, _)
Orders(S, ops) == IF ops = {} THEN S
                  ELSE UNION {Orders(UNION {Agree(s, Run.ops[k]) : s \in S}, ops \ {k}) : k \in ops}
RECURSIVE Groups(_, _)
Groups(S, n) == IF n > Run.groups THEN S
                ELSE Groups(Orders(S, {k \in 1..Len(Run.ops) : Run.ops[k].group = n}), n + 1)
Check == LET want == Groups({S0}, 1)  g == StateOf(Run.final) IN
         /\ IF g \in want THEN TRUE
            ELSE Say("flow-files", IF Cardinality(want) < 5 THEN want ELSE {}, [sched |-> Run.sched, ops |-> Run.ops, final |-> Run.final])
         /\ IF Run.stray = <<>> THEN TRUE ELSE Say("left-behind", <<>>, [sched |-> Run.sched, stray |-> Run.stray])
Init == t \in 1..Len(Data) /\ i = 1
Next == /\ i <= Len(Tr.runs)
        /\ Check \/ TRUE
        /\ (i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>))
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
