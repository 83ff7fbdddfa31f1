-------------------------------- MODULE Route --------------------------------
(***************************************************************************)
(* The router: from the queue of tossed packets to the queue of packets to *)
(* be packed.                                                              *)
(*  cfg  [akas, pw, mk, rules]                                             *)
(*    mk     <<[cmd, flav, uplink, nodes], ...>>  xroute hostroute bossroute*)
(*    rules  <<[type, cmd, flav, new, nodes], ...>> send sendmove route     *)
(*           change                                                        *)
(*  pk   [name |-> <<grade, type, flav>>, from, to, msgs]                  *)
(***************************************************************************)
EXTENDS Netmail

Zone(cfg) == cfg.akas[1][1]
Types == {"n", "e", "t"}
Flavs == {"n", "h", "c", "d"}
Direct == 1024

(* the description of a packet as its name gives it *)
Desc(pk) ==
  IF pk.type \in Types /\ pk.flav \in Flavs
  THEN [from |-> pk.from, to |-> pk.to, grade |-> pk.grade, type |-> pk.type, flav |-> pk.flav, move |-> FALSE]
  ELSE [from |-> pk.from, to |-> pk.to, grade |-> "-", type |-> "-", flav |-> "n", move |-> FALSE]

(* explicit tables, for netmail only *)
MkNodes(cfg, r) == CompleteList(r.nodes, Start(Zone(cfg)))
MkApplies(cfg, d, r) ==
  LET ps == MkNodes(cfg, r) IN
  CASE r.cmd = "xroute"    -> Len(ps) = 2 /\ PMatch(d.from, ps[1]) /\ PMatch(d.to, ps[2])
    [] r.cmd = "hostroute" -> PMatchAny(d.to, ps)
    [] r.cmd = "bossroute" -> d.flav = r.flav /\ PMatchAny(d.to, ps)
MkDo(cfg, d, r) ==
  CASE r.cmd = "xroute"    -> [d EXCEPT !.to = Zeroed(Complete(r.uplink, Start(Zone(cfg)))), !.flav = r.flav]
    [] r.cmd = "hostroute" -> [d EXCEPT !.to = <<@[1], @[2], 0, 0>>, !.flav = r.flav]
    [] r.cmd = "bossroute" -> [d EXCEPT !.to = <<@[1], @[2], @[3], 0>>]

(* the rules proper *)
RuleNodes(cfg, r) == CompleteList(r.nodes, Start(Zone(cfg)))
Hit(cfg, d, r) == LET P(p) == PMatch(d.to, p) IN IndexOf(RuleNodes(cfg, r), P)
Applies(cfg, d, r) ==
  /\ r.type = d.type
  /\ Hit(cfg, d, r) # 0
  /\ IF r.cmd = "change" THEN d.flav = r.flav ELSE d.flav = "n"
Do(cfg, d, r) ==
  LET p == RuleNodes(cfg, r)[Hit(cfg, d, r)] IN
  CASE r.cmd = "send"     -> [d EXCEPT !.flav = r.flav,
                                       !.to = IF p[4] = Empty THEN <<@[1], @[2], @[3], 0>> ELSE @]
    [] r.cmd = "sendmove" -> [d EXCEPT !.flav = r.flav, !.move = TRUE]
    [] r.cmd = "route"    -> [d EXCEPT !.flav = r.flav, !.to = Zeroed(RuleNodes(cfg, r)[1])]
    [] r.cmd = "change"   -> [d EXCEPT !.flav = r.new]

RouteDesc(cfg, pk) ==
  LET d == Desc(pk)
      M(r) == MkApplies(cfg, d, r)
      A(r) == Applies(cfg, d, r)
      k == IF d.type = "n" THEN IndexOf(cfg.mk, M) ELSE 0
      i == IndexOf(cfg.rules, A)
  IN IF k # 0 THEN MkDo(cfg, d, cfg.mk[k])
     ELSE IF i # 0 THEN Do(cfg, d, cfg.rules[i]) ELSE d

(* one message: the packet it goes into; direct messages are not sent via    *)
(* another node                                                              *)
RouteMsg(pk, d, m) ==
  [from |-> d.from, to |-> IF Bit(m.attr, Direct) THEN pk.to ELSE d.to,
   grade |-> d.grade, type |-> d.type, flav |-> d.flav]

(* the whole queue in order: [moved: packets renamed as they are,           *)
(* put: <<[key, uid], ...>>]                                                *)
RouteQueue(cfg, queue) ==
  LET Op(acc, pk) ==
        LET d == RouteDesc(cfg, pk) IN
        IF d.move
        THEN [acc EXCEPT !.moved = Append(@, [from |-> pk.from, to |-> pk.to, pw |-> pk.pw, grade |-> d.grade,
                                              type |-> d.type, flav |-> d.flav,
                                              uids |-> [j \in 1..Len(pk.msgs) |-> pk.msgs[j].uid]])]
        ELSE [acc EXCEPT !.put = @ \o [j \in 1..Len(pk.msgs) |->
                  [key |-> RouteMsg(pk, d, pk.msgs[j]), uid |-> pk.msgs[j].uid]]]
  IN FoldL(Op, [moved |-> <<>>, put |-> <<>>], queue)
(* packets made of the copied messages: per key, in order *)
Made(cfg, put) ==
  LET keys == {put[j].key : j \in 1..Len(put)}
      U(k) == LET P(x) == x.key = k
                  s == SelectSeq(put, P)
              IN [j \in 1..Len(s) |-> s[j].uid]
  IN {[from |-> k.from, to |-> k.to, pw |-> PacketPw(cfg, k.to).pw, grade |-> k.grade, type |-> k.type,
       flav |-> k.flav, uids |-> U(k)] : k \in keys}
=============================================================================
