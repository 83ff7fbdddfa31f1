-------------------------------- MODULE Flood --------------------------------
(* A network of systems exchanging one echomail area: every system runs the  *)
(* tosser of Toss.tla; packets travel and are delivered in any order.        *)
(*   net[s] : [cfg, area]   configuration and area entry of system s         *)
(*   hist[s]: dupe history  got[s]: local copies per message                 *)
(*   flight : packets on their way [uid, from, to, seenby (a set), path]     *)
EXTENDS Toss
VARIABLES net, hist, got, flight
fvars == <<net, hist, got, flight>>

Systems == 1..Len(net)
Main(s) == net[s].cfg.akas[1]
SysOf(n) == IF \E s \in Systems : Main(s) = n THEN CHOOSE s \in Systems : Main(s) = n ELSE 0

Fits(m, f) == f.uid = m.uid /\ f.from = m.from /\ f.to = m.to

(* system s tosses flight element f; sb is the SEEN-BY in the order written *)
StepOut(s, f, sb, hasid) ==
  LET n == net[s]
      pkt == [from |-> f.from, to |-> f.to, passwd |-> ""]
      msg == [area |-> n.area.name, orig |-> Main(1), id |-> f.uid, date |-> 0, hasid |-> hasid,
              hasorigin |-> TRUE, seenby |-> sb, path |-> f.path]
      vd == Verdict(n.cfg, n.area, TRUE, pkt, msg, 0, hist[s])
      cps == IF vd.v = "toss" THEN Copies(n.cfg, n.area, pkt, msg) ELSE <<>>
      ToMe(c) == c.to = Main(s)
      NotMe(c) == c.to # Main(s)
      P(c) == [uid |-> f.uid, from |-> c.from, to |-> c.to, seenby |-> c.seenby, path |-> c.path]
      away == SelectSeq(cps, NotMe)
  IN [ v |-> vd.v, why |-> vd.why,
       rec |-> Records(n.cfg, n.area, TRUE, pkt, msg, 0, hist[s]),
       away |-> {P(away[k]) : k \in 1..Len(away)},
       naway |-> Len(away),
       loc |-> Len(SelectSeq(cps, ToMe)) ]

Deliver(s, f, sb) ==
  LET o == StepOut(s, f, sb, TRUE)
  IN /\ hist' = [hist EXCEPT ![s] = IF o.rec THEN @ \union {<<net[s].area.name, f.uid>>} ELSE @]
     /\ got' = [got EXCEPT ![s] = @ \o [k \in 1..o.loc |-> f.uid]]
     /\ flight' = (flight \ {f}) \union o.away
     /\ net' = net

Linked(a, b) == In(Main(b), net[a].area.nodes) /\ ~In(Main(b), net[a].area.passive)
RECURSIVE ReachFrom(_, _)
ReachFrom(S, k) ==
  IF k = 0 THEN S
  ELSE LET T == S \union {b \in Systems : \E a \in S : Linked(a, b)} IN
       IF T = S THEN S ELSE ReachFrom(T, k - 1)
Component(s) == ReachFrom({s}, Len(net))
=============================================================================
