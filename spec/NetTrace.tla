------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real ftntoss with Netmail.tla: each *)
(* step is one netmail of an input packet with everything that came of it. *)
(***************************************************************************)
EXTENDS Netmail, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
Cfg == Tr.cfg
Step == Tr.steps[i]
Say(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, uid |-> Step.uid, what |-> what,
                               exp |-> exp, got |-> got])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Say(what, exp, got) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]

Shape(o) == [pfrom |-> o.pfrom, pto |-> o.pto, flav |-> o.flav, from |-> o.from, to |-> o.to,
             subj |-> o.subj, vias |-> o.vias, pw |-> o.pw]
CheckOut(m, e, o) ==
  All(<<
   Chk(o.pfrom = e.pfrom, "packet-from", e.pfrom, o.pfrom),
   Chk(o.pto = e.pto, "packet-to", e.pto, o.pto),
   Chk(o.flav = e.flav, "flavour", e.flav, o.flav),
   Chk(o.from = e.from, "from", e.from, o.from),
   Chk(o.to = e.to, "to", e.to, o.to),
   Chk(o.pw = e.pw, "packet-password", e.pw, o.pw),
   Chk(o.subj = e.subj, "subject", e.subj, o.subj),
   Chk(o.nintl = 1 /\ o.extra = 0, "address-lines", 1, <<o.nintl, o.extra>>),
   Chk(o.kl = Others(m), "kludges", Others(m), o.kl),
   Chk(o.oldvias = m.vias, "via-kept", m.vias, o.oldvias),
   Chk(o.vias = e.vias, "via", e.vias, o.vias),
   Chk(o.viatime, "via-time", TRUE, o.viatime),
   Chk(o.body = m.body, "text", m.body, o.body),
   Chk(o.fromname = m.fromname, "from-name", m.fromname, o.fromname),
   Chk(o.toname = m.toname, "to-name", m.toname, o.toname),
   Chk(o.date = m.date, "date", m.date, o.date),
   Chk(o.attr = m.attr, "attr", m.attr, o.attr),
   Chk(o.cost = m.cost, "cost", m.cost, o.cost) >>)
DoMsg ==
  LET m == Step.msg
      r == Netmail(Cfg, Step.pkt, m)
      \* a copy made for a spy is recognised by the number of Via lines / subject
  IN All(<<
      Chk(Len(Step.outs) = Len(r.out), "copies", r.out, Step.outs),
      IF Len(Step.outs) # Len(r.out) THEN FALSE
      ELSE \/ \E f \in Permutations(1..Len(r.out)) :
                \A k \in 1..Len(r.out) : LET o == Step.outs[f[k]] IN
                  o.pto = r.out[k].pto /\ o.subj = r.out[k].subj /\ CheckOut(m, r.out[k], o)
           \/ Len(r.out) > 1 /\ Chk(FALSE, "copies", r.out, Step.outs)
           \/ Len(r.out) = 1 /\ CheckOut(m, r.out[1], Step.outs[1]),
      Chk({Step.pongs[k] : k \in 1..Len(Step.pongs)} = {r.pong[k] : k \in 1..Len(r.pong)}
          /\ Len(Step.pongs) = Len(r.pong), "pong", r.pong, Step.pongs)>>)
DoEnd ==
  All(<<Chk(Step.left = <<>>, "input-left", <<>>, Step.left),
        Chk(Step.stray = <<>>, "stray-output", <<>>, Step.stray),
        Chk(Step.rc = 0, "exit-code", 0, Step.rc)>>)
Init == t \in 1..Len(Data) /\ i = 1
Next ==
  /\ i > 0
  /\ IF Step.k = "msg" THEN DoMsg ELSE DoEnd
  /\ IF i = Len(Tr.steps) THEN PrintT(<<"DONE", ToJson(t)>>) /\ i' = 0 ELSE i' = i + 1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
