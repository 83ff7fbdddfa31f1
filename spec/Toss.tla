-------------------------------- MODULE Toss --------------------------------
(***************************************************************************)
(* The echomail tosser: what one system does with one echomail message.    *)
(*                                                                         *)
(* cfg   configuration:                                                    *)
(*   akas  sequence of own addresses (the first is the main one)           *)
(*   opts  sequence of switches that are on                                *)
(*   pw    packet passwords     <<[node, pw, upper], ...>> (no case)        *)
(*   add   AddToSeenBy          <<[areas, nodes], ...>>                    *)
(*   del   DeleteSeenBy         <<[nodes], ...>>                           *)
(*   delp  DeletePath           <<[nodes], ...>>                           *)
(*   zg    ZoneGate             <<[node, seenby], ...>>                    *)
(*   ro    read-only access     <<[areas, who |-> <<[pat, inv], ...>>],..>>*)
(* area  entry of the area table:                                          *)
(*   [name, zone, addr, uplinks, passthru, state, nodes, passive]          *)
(* pkt   [from, to, passwd]                                                *)
(* msg   [area, orig, id, date, seenby, path]  (seenby/path: <<net,node,   *)
(*       point>> as written in the message; id = dupe key, see MsgKey)     *)
(***************************************************************************)
EXTENDS Util

(* ---- own addresses ---- *)
BestAka(cfg, zone) ==
  LET P(a) == a[1] = zone IN First(cfg.akas, P, cfg.akas[1])
AreaAddr(cfg, area) == IF area.addr # NoNode THEN area.addr ELSE BestAka(cfg, area.zone)
AreaZone(cfg, area) == IF area.addr # NoNode THEN area.addr[1] ELSE area.zone
IsLocal(cfg, n) == In(n, cfg.akas)
IsLocal3(cfg, n) == In3(n, cfg.akas)

IsUplink(area, n) ==
  \E i \in 1..MinN(area.uplinks, Len(area.nodes)) : area.nodes[i] = n

(* ---- access control ---- *)
PacketPw(cfg, n) ==
  LET P(e) == e.node = n IN First(cfg.pw, P, [node |-> NoNode, pw |-> "", upper |-> ""])
BadPassword(cfg, pkt) ==
  LET e == PacketPw(cfg, pkt.from) IN e.node # NoNode /\ e.upper # pkt.passwd

AclHit(e, n, name) ==
  /\ In(name, e.areas)
  /\ LET P(w) == Match(n, w.pat)
         w == First(e.who, P, [pat |-> NoNode, inv |-> TRUE])
     IN ~w.inv
ReadOnly(cfg, n, name) == \E i \in 1..Len(cfg.ro) : AclHit(cfg.ro[i], n, name)

(* ---- SEEN-BY / PATH ---- *)
WithZone(z, s) == [i \in 1..Len(s) |-> <<z, s[i][1], s[i][2], s[i][3]>>]
EqPa(a, b) == a[2] = b[2] /\ a[3] = b[3] /\ (a[4] = 0 \/ a[4] = b[4])

(* a single entry naming the sending point's boss stands for the point *)
FromPoint(s, from) == IF Len(s) = 1 /\ EqPa(s[1], from) THEN <<from>> ELSE s
Add3(s, n) == IF In3(n, s) THEN s ELSE Append(s, n)

(* SEEN-BY before distribution *)
SeenIn(cfg, area, pkt, msg) ==
  LET me == AreaAddr(cfg, area)
      s0 == FromPoint(WithZone(AreaZone(cfg, area), msg.seenby), pkt.from)
  IN Add3(Add3(Add3(s0, me), pkt.from), pkt.to)

(* PATH with the sender made sure to be its last element *)
PathIn(cfg, area, pkt, msg) ==
  LET p0 == FromPoint(WithZone(AreaZone(cfg, area), msg.path), pkt.from)
  IN IF p0 # <<>> /\ Eq3(p0[Len(p0)], pkt.from) THEN p0 ELSE Append(p0, pkt.from)

(* the links that are due: a fold because a link seen earlier in the list   *)
(* under the same net/node counts as seen                                  *)
Due(area, from, seen) ==
  LET Op(acc, i) ==
        LET n == area.nodes[i] IN
        IF \/ In3(n, acc.seen)
           \/ i < area.uplinks
           \/ n = from
           \/ In(n, area.passive)
        THEN acc
        ELSE [seen |-> Append(acc.seen, n), new |-> Append(acc.new, n)]
  IN FoldL(Op, [seen |-> seen, new |-> <<>>], [i \in 1..Len(area.nodes) |-> i])

AddNodes(cfg, area, from, seen) ==
  LET P(e) == In(area.name, e.areas)
      e == First(cfg.add, P, [areas |-> <<>>, nodes |-> <<>>])
      Op(s, n) == IF In3(n, s) \/ n = from THEN s ELSE Append(s, n)
  IN FoldL(Op, seen, e.nodes)
AddAkas(cfg, area, seen) ==
  IF ~Has(cfg, "AddOtherAKA") THEN seen
  ELSE LET Op(s, a) == IF a[1] = AreaZone(cfg, area) THEN Add3(s, a) ELSE s
       IN FoldL(Op, seen, cfg.akas)
(* one occurrence per listed node is removed *)
RemoveFirst(s, n) ==
  LET P(x) == x = n
      i == IndexOf(s, P)
  IN IF i = 0 THEN s ELSE SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
DelNodes(lists, s) ==
  LET Op(acc, n) == RemoveFirst(acc, n)
      Op2(acc, l) == FoldL(Op, acc, l.nodes)
  IN FoldL(Op2, s, lists)

Visible(cfg, s) ==
  LET P(n) == n[4] = 0 \/ Has(cfg, "TossEchoMail4D") IN SelectSeq(s, P)
Text3(s) == [i \in 1..Len(s) |-> <<s[i][2], s[i][3], s[i][4]>>]

Result(cfg, area, pkt, msg) ==
  LET me   == AreaAddr(cfg, area)
      seen == SeenIn(cfg, area, pkt, msg)
      due  == Due(area, pkt.from, seen)
      sb   == DelNodes(cfg.del,
                AddAkas(cfg, area, AddNodes(cfg, area, pkt.from, due.seen)))
      self == /\ ~Has(cfg, "-p")
              /\ pkt.from # me
              /\ ~area.passthru \/ In(me, area.nodes)
      new  == IF self THEN Append(due.new, me) ELSE due.new
      p1   == PathIn(cfg, area, pkt, msg)
      p2   == IF Eq3(p1[Len(p1)], me) THEN p1 ELSE Append(p1, me)
      p3   == DelNodes(cfg.delp, p2)
      NotPassive(n) == ~In(n, area.passive)
  IN [ seenby |-> sb, path |-> p3, new |-> SelectSeq(new, NotPassive),
       circular |-> \E i \in 1..(Len(p3)-1) : IsLocal3(cfg, p3[i]) ]

SeenFor(cfg, dest, sb) ==
  LET P(g) == g.node = dest
      g == First(cfg.zg, P, [node |-> NoNode, seenby |-> <<>>])
  IN IF g.node # NoNode THEN g.seenby ELSE sb

(* ---- area life cycle as far as traffic drives it ---- *)
StateOnTraffic(st) ==
  IF In("U", st) \/ In("W", st) \/ In("F", st)
  THEN LET P(c) == ~In(c, <<"U", "W", "F">>)
       IN IF In("S", st) THEN st ELSE Append(SelectSeq(st, P), "S")
  ELSE st

(* ---- the gates, in order ---- *)
(* verdict: [v |-> "toss"|"bad"|"drop", why |-> ...] ; hist': key recorded? *)
Bad(cfg, killopt, why) ==
  [v |-> IF Has(cfg, killopt) THEN "drop" ELSE "bad", why |-> why]

Verdict(cfg, area, known, pkt, msg, now, hist) ==
  LET key == <<msg.area, msg.id>>
      res == Result(cfg, area, pkt, msg)
      linked == pkt.from = AreaAddr(cfg, area) \/ In(pkt.from, area.nodes)
      dupechk == Has(cfg, "DupeCheck")
  IN
  IF msg.orig = NoNode THEN Bad(cfg, "KillInsecure", "noorigin")
  ELSE IF Has(cfg, "CheckPointOriginAddr") /\ pkt.from[4] # 0 /\ msg.orig # pkt.from
       THEN Bad(cfg, "KillInsecure", "forged")
  ELSE IF BadPassword(cfg, pkt) THEN Bad(cfg, "KillInsecure", "password")
  ELSE IF ~known THEN Bad(cfg, "KillUnknown", "unknown")
  ELSE IF dupechk /\ ~msg.hasid /\ Has(cfg, "KillNoMSGID") THEN Bad(cfg, "KillDupe", "nomsgid")
  ELSE IF dupechk /\ ~msg.hasid /\ ~msg.hasorigin THEN Bad(cfg, "KillDupe", "nomsgid-noorigin")
  ELSE IF dupechk /\ Has(cfg, "KillOld") /\ msg.date < now - cfg.maxhist * 86400
       THEN Bad(cfg, "KillDupe", "old")
  ELSE IF dupechk /\ key \in hist THEN Bad(cfg, "KillDupe", "dupe")
  ELSE IF ~Has(cfg, "-n") /\ pkt.to # AreaAddr(cfg, area) /\ ~IsLocal(cfg, pkt.to)
       THEN Bad(cfg, "KillRouted", "routed")
  ELSE IF ~Has(cfg, "-t") /\ ~linked THEN Bad(cfg, "KillInsecure", "insecure")
  ELSE IF /\ Has(cfg, "UplinkCanBeReadonly") \/ ~IsUplink(area, pkt.from)
          /\ ReadOnly(cfg, pkt.from, area.name)
       THEN Bad(cfg, "KillReadonly", "readonly")
  ELSE IF Has(cfg, "CheckPath") /\ res.circular THEN Bad(cfg, "KillCircular", "circular")
  ELSE IF ~IsUplink(area, pkt.from) /\ In("W", area.state)
       THEN Bad(cfg, "KillCircular", "waiting")
  ELSE IF ~(In("U", area.state) \/ In("W", area.state) \/ In("F", area.state))
          /\ In("P", area.state)
       THEN [v |-> "bad", why |-> "paused"]
  ELSE [v |-> "toss", why |-> "ok"]

(* does the message enter the dupe history? *)
Records(cfg, area, known, pkt, msg, now, hist) ==
  LET vd == Verdict(cfg, area, known, pkt, msg, now, hist)
      linked == pkt.from = AreaAddr(cfg, area) \/ In(pkt.from, area.nodes)
  IN /\ Has(cfg, "DupeCheck")
     /\ linked
     /\ vd.why \notin {"noorigin", "forged", "password", "unknown", "nomsgid",
                       "nomsgid-noorigin", "old", "dupe"}

(* the copies written: destination, visible SEEN-BY and PATH *)
Copies(cfg, area, pkt, msg) ==
  LET res == Result(cfg, area, pkt, msg)
      me  == AreaAddr(cfg, area)
  IN [ i \in 1..Len(res.new) |->
        [ from |-> me, to |-> res.new[i],
          seenby |-> Range(Text3(Visible(cfg, SeenFor(cfg, res.new[i], res.seenby)))),
          path |-> Dedup(Text3(Visible(cfg, res.path))) ] ]
=============================================================================
