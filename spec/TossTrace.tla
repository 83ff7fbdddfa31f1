------------------------------ MODULE TossTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real ftntoss with Toss.tla.  Each   *)
(* trace is one installation: configuration, area table, and a sequence of *)
(* steps: "msg" (one message of an input packet with everything that came  *)
(* out of it), "end" (end of a program run with the files left behind).    *)
(* The model keeps its own area states and dupe history; every observation *)
(* is compared with what the specification says must come out.             *)
(***************************************************************************)
EXTENDS Toss, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, areas, hist, used, when   \* when: <<area, id, time of acceptance>>

Tr == Data[t]
Cfg == Tr.cfg
Step == Tr.steps[i]
Say(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, uid |-> Step.uid, what |-> what,
                               exp |-> exp, got |-> got])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Say(what, exp, got) /\ FALSE
(* conjunction of a tuple: every element is evaluated, so every mismatch of  *)
(* a step is reported                                                        *)
All(s) == \A k \in 1..Len(s) : s[k]

NoArea == [name |-> "", zone |-> -1, addr |-> NoNode, uplinks |-> 1, passthru |-> FALSE,
           state |-> <<>>, nodes |-> <<>>, passive |-> <<>>]
Lookup(name) == LET P(a) == a.name = name IN First(areas, P, NoArea)

(* content: a missing tear line is supplied, everything else is kept *)
ExpBody(m) == m.body \o (IF m.tear = <<>> THEN <<"---">> ELSE m.tear) \o m.origin
SortedSB(s) == \A k \in 1..(Len(s)-1) : Less(<<0>> \o s[k], <<0>> \o s[k+1]) \/ s[k] = s[k+1]
OneZone(a, pkt) ==
  /\ pkt.from[1] = AreaZone(Cfg, a) /\ pkt.to[1] = AreaZone(Cfg, a)
  /\ \A k \in 1..Len(a.nodes) : a.nodes[k][1] = AreaZone(Cfg, a)
  /\ \A k \in 1..Len(Cfg.akas) : Cfg.akas[k][1] = AreaZone(Cfg, a)
  /\ Cfg.zg = <<>> /\ Cfg.add = <<>>

Key(c) == [from |-> c.from, to |-> c.to, seenby |-> Range(c.seenby), path |-> Dedup(c.path)]
CheckContent(m, c, sameattr) ==
  All(<<
   Chk(c.garbled = <<>>, "garbled-control-line", <<>>, c.garbled),
   Chk(c.fromname = m.fromname, "content-from", m.fromname, c.fromname),
   Chk(c.toname = m.toname, "content-to", m.toname, c.toname),
   Chk(c.subj = m.subj, "content-subject", m.subj, c.subj),
   Chk(c.date = m.dstr, "content-date", m.dstr, c.date),
   Chk(c.attr = m.attr, "content-attr", m.attr, c.attr),
   Chk(c.cost = m.cost, "content-cost", m.cost, c.cost),
   Chk(c.area = m.araw, "content-area", m.araw, c.area),
   Chk(c.kl = m.kl, "content-kludges", m.kl, c.kl),
   Chk(c.body = ExpBody(m), "content-text", ExpBody(m), c.body) >>)

CheckCopies(a, pkt, m, vd) ==
  LET exp == IF vd.v = "toss" THEN Copies(Cfg, a, pkt, m) ELSE <<>>
      obs == Step.copies
      edest == {exp[k].to : k \in 1..Len(exp)}
      odest == {obs[k].to : k \in 1..Len(obs)}
      E(d) == exp[CHOOSE k \in 1..Len(exp) : exp[k].to = d]
  IN All(<<
       Chk(edest = odest, "destinations", edest, [to |-> odest, why |-> vd.why]),
       Chk(Len(exp) = Len(obs), "copies", Len(exp), [n |-> Len(obs), why |-> vd.why]),
       All([k \in 1..Len(obs) |->
          IF obs[k].to \notin edest THEN TRUE ELSE
          LET c == obs[k]  e == E(c.to) IN All(<<
          Chk(c.from = e.from, "copy-from", e.from, c.from),
          Chk(c.hfrom = <<e.from[2], e.from[3]>>, "copy-hdr-from", e.from, c.hfrom),
          Chk(c.hto = <<c.to[2], c.to[3]>>, "copy-hdr-to", c.to, c.hto),
          Chk(Range(c.seenby) = e.seenby, "seenby", e.seenby, c.seenby),
          Chk(Dedup(c.path) = e.path, "path", e.path, c.path),
          Chk(OneZone(a, pkt) => SortedSB(c.seenby), "seenby-sorted", <<>>, c.seenby),
          Chk(c.maxctl <= 76, "control-line-length", 76, c.maxctl),
          CheckContent(m, c, TRUE),
          Chk(c.pw = PacketPw(Cfg, c.to).pw,
                 "packet-password", PacketPw(Cfg, c.to).pw, c.pw) >>)]) >>)

CheckBad(pkt, m, vd) ==
  LET exp == IF vd.v = "bad" THEN 1 ELSE 0 IN
  All(<<
   Chk(Len(Step.bad) = exp, "bad-area", [n |-> exp, why |-> vd.why], [n |-> Len(Step.bad), why |-> vd.why]),
   All([k \in 1..Len(Step.bad) |->
       LET c == Step.bad[k] IN All(<<
       Chk(c.from = pkt.from /\ c.to = pkt.to, "bad-addresses", pkt, [from |-> c.from, to |-> c.to]),
       (* a message without SEEN-BY or PATH may get a default one *)
       Chk(c.sbl = m.sbl \/ (m.sbl = <<>> /\ Len(c.sbl) = 1), "bad-seenby", m.sbl, c.sbl),
       Chk(c.pathl = m.pathl \/ (m.pathl = <<>> /\ Len(c.pathl) = 1), "bad-path", m.pathl, c.pathl),
       CheckContent(m, c, FALSE) >>)]) >>)

DoMsg ==
  LET m == Step.msg
      pkt == Step.pkt
      a == Lookup(m.area)
      known == a.name # ""
      vd == Verdict(Cfg, a, known, pkt, m, Step.now, hist)
      a2 == [a EXCEPT !.state = StateOnTraffic(a.state)]
  IN /\ All(<<CheckCopies(a, pkt, m, vd), CheckBad(pkt, m, vd)>>)
     /\ hist' = IF Records(Cfg, a, known, pkt, m, Step.now, hist)
                THEN hist \union {<<m.area, m.id>>} ELSE hist
     /\ when' = IF Records(Cfg, a, known, pkt, m, Step.now, hist)
                THEN when \union {<<m.area, m.id, Step.now>>} ELSE when
     /\ IF vd.v = "toss"
        THEN /\ areas' = [k \in 1..Len(areas) |-> IF areas[k].name = m.area THEN a2 ELSE areas[k]]
             /\ used' = used \union {m.area}
        ELSE UNCHANGED <<areas, used>>

DoEnd ==
  LET TabE(k) == [name |-> areas[k].name, state |-> Range(areas[k].state)]
      O(name) == LET P(x) == x.name = name
                 IN First(Step.areas, P, [name |-> "", state |-> <<>>, time |-> -1, nodes |-> <<>>])
  IN /\ Chk(Step.left = <<>>, "input-left", <<>>, Step.left)
     /\ Chk(Step.stray = <<>>, "stray-output", <<>>, Step.stray)
     /\ Chk(Step.rc = 0, "exit-code", 0, Step.rc)
     /\ \A k \in 1..Len(areas) :
          LET o == O(areas[k].name) IN
          /\ Chk(o.name = areas[k].name, "area-kept", areas[k].name, o.name)
          /\ Chk(Range(o.state) = Range(areas[k].state), "area-state", areas[k], o)
          /\ Chk(areas[k].name \in used => o.time = Step.now, "area-time", Step.now, o)
          /\ Chk(Range(o.nodes) = Range(areas[k].nodes), "area-links", areas[k].nodes, o.nodes)
          /\ Chk(Cardinality(Range(areas[k].nodes)) = Len(areas[k].nodes) =>
                 \A j \in 1..MinN(areas[k].uplinks, Len(areas[k].nodes)) :
                   j <= Len(o.nodes) /\ o.nodes[j] = areas[k].nodes[j], "area-uplinks", areas[k].nodes, o.nodes)
     (* a rewritten table may list the downlinks in another order *)
     /\ areas' = [k \in 1..Len(areas) |-> [areas[k] EXCEPT !.nodes = O(areas[k].name).nodes]]
     /\ used' = {}
     /\ UNCHANGED <<hist, when>>

(* history expiry between runs: entries accepted less than so many days ago stay *)
DoForget ==
  /\ All(<<Chk(Step.rc = 0, "expire-exit", 0, Step.rc)>>)
  /\ when' = {w \in when : w[3] >= Step.now - Step.days * 86400}
  /\ hist' = {<<w[1], w[2]>> : w \in when'}
  /\ UNCHANGED <<areas, used>>

Init == /\ t \in 1..Len(Data)
        /\ i = 1
        /\ areas = Data[t].areas
        /\ hist = {}
        /\ used = {}
        /\ when = {}
Next == /\ i <= Len(Tr.steps)
        /\ CASE Step.k = "msg" -> DoMsg
             [] Step.k = "end" -> DoEnd
             [] Step.k = "forget" -> DoForget
        /\ i' = i + 1
        /\ t' = t
        /\ (i = Len(Tr.steps) => PrintT(<<"DONE", ToJson(t)>>))
Spec == Init /\ [][Next]_<<t, i, areas, hist, used, when>>
=============================================================================
