----------------------------- MODULE RouteTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real ftnroute with Route.tla. Each  *)
(* step is one run: the queue before it, the packets made and what is left.*)
(***************************************************************************)
EXTENDS Route, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
Cfg == Tr.cfg
Step == Tr.steps[i]
Say(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Say(what, exp, got) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
Uids(o) == [j \in 1..Len(o.msgs) |-> o.msgs[j].uid]
Shape(o) == [from |-> o.from, to |-> o.to, pw |-> o.pw, grade |-> o.grade, type |-> o.type,
             flav |-> o.flav, uids |-> Uids(o)]

InMsg(u) == LET S == {<<p, m>> \in UNION {{p} \X (1..Len(Step.queue[p].msgs)) : p \in 1..Len(Step.queue)} :
                      Step.queue[p].msgs[m].uid = u}
                c == CHOOSE x \in S : TRUE
            IN [pk |-> Step.queue[c[1]], m |-> Step.queue[c[1]].msgs[c[2]]]
(* a netmail's addresses and lines are what they were; anything else is      *)
(* compared as it is                                                         *)
Same(o) ==
  LET x == InMsg(o.uid)  m == x.m IN
  All(<<
    Chk(o.hdr = m.hdr, "message-header", m.hdr, o.hdr),
    Chk(o.raw = m.raw, "message-text", m.raw, o.raw),
    IF m.net
    THEN All(<<Chk(o.from = MailFrom(x.pk, m), "message-from", MailFrom(x.pk, m), o.from),
               Chk(o.to = MailTo(x.pk, m), "message-to", MailTo(x.pk, m), o.to),
               Chk(o.kl = Others(m), "kludges", Others(m), o.kl)>>)
    ELSE TRUE>>)

Later(a, b) == a.k < b.k
DoRoute ==
  LET r == RouteQueue(Cfg, Step.queue)
      made == Made(Cfg, r.put)
      obs == Step.out
      M(o) == o.moved
      C(o) == ~o.moved
      om == SelectSeq(obs, M)
      oc == SelectSeq(obs, C)
      known == UNION {{Step.queue[p].msgs[m].uid : m \in 1..Len(Step.queue[p].msgs)} : p \in 1..Len(Step.queue)}
  IN All(<<
       Chk(Step.rc = 0, "exit-code", 0, Step.rc),
       Chk(Step.left = Step.others, "queue-left", Step.others, Step.left),
       Chk(Step.stray = <<>>, "stray", <<>>, Step.stray),
       Chk({Shape(oc[k]) : k \in 1..Len(oc)} = made, "packets", made, [k \in 1..Len(oc) |-> Shape(oc[k])]),
       Chk(Len(oc) = Cardinality(made), "packets-number", Cardinality(made), Len(oc)),
       Chk({Shape(om[k]) : k \in 1..Len(om)} = Range(r.moved) /\ Len(om) = Len(r.moved),
           "moved", r.moved, [k \in 1..Len(om) |-> Shape(om[k])]),
       All([k \in 1..Len(obs) |->
            All([j \in 1..Len(obs[k].msgs) |->
                 IF obs[k].msgs[j].uid \in known THEN Same(obs[k].msgs[j])
                 ELSE Chk(FALSE, "unknown-message", <<>>, obs[k].msgs[j].uid)])])>>)

Init == t \in 1..Len(Data) /\ i = 1
Next ==
  /\ i <= Len(Tr.steps)
  /\ DoRoute
  /\ (i = Len(Tr.steps) => PrintT(<<"DONE", ToJson(t)>>))
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
