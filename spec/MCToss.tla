------------------------------- MODULE MCToss -------------------------------
(* Exhaustive check of Toss.tla on one system: every message, area entry and *)
(* sender over a small universe of addresses that contains a boss and its   *)
(* point, and two addresses differing in the zone only.  The invariants are *)
(* stated without the operators that compute the result.                    *)
EXTENDS Toss
CONSTANTS MaxLinks, Seens, Paths, OptSets, Uplinks, Hists
VARIABLES cfg, area, pkt, msg, hist, out

me1 == <<2, 1, 1, 0>>
me2 == <<1, 1, 1, 0>>
l1 == <<2, 10, 1, 0>>
p1 == <<2, 10, 1, 3>>
l2 == <<2, 10, 2, 0>>
x2 == <<1, 10, 2, 0>>
Univ == {l1, p1, l2, x2}
T3(n) == <<n[2], n[3], n[4]>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Inj(S, n) == {s \in Seqs(S, n) : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
SeenSets == IF Seens = "all" THEN Seqs({T3(l1), T3(p1), T3(l2), T3(me1)}, 2)
            ELSE {<<>>, <<T3(l1)>>, <<T3(l2), T3(me1)>>}
PathSets == IF Paths = "all" THEN Seqs({T3(l1), T3(l2), T3(me1), T3(me2)}, 2)
            ELSE {<<>>, <<T3(l1)>>, <<T3(me1), T3(l2)>>}
SetSeq(S) == CHOOSE s \in Inj(S, Cardinality(S)) : Range(s) = S

OptChoices ==
  IF OptSets = "all"
  THEN {<<>>, <<"CheckPath">>, <<"DupeCheck">>, <<"CheckPath", "DupeCheck", "KillInsecure">>,
        <<"-n", "-t">>, <<"-p", "AddOtherAKA">>, <<"TossEchoMail4D">>}
  ELSE {<<>>, <<"CheckPath", "DupeCheck">>, <<"AddOtherAKA">>}

Init ==
  /\ cfg \in {[akas |-> <<me1, me2>>, opts |-> o, add |-> <<>>, del |-> d, delp |-> <<>>, zg |-> <<>>,
               ro |-> <<>>, maxhist |-> 14,
               pw |-> <<[node |-> l1, pw |-> "Secret", upper |-> "SECRET"]>>] :
               o \in OptChoices, d \in {<<>>, <<[nodes |-> <<l2>>]>>}}
  /\ area \in {[name |-> "A", zone |-> z, addr |-> NoNode, uplinks |-> u, passthru |-> pt, state |-> st,
                nodes |-> ns, passive |-> pa] :
                z \in {1, 2}, u \in Uplinks, pt \in BOOLEAN, st \in {<<>>, <<"W">>, <<"P">>},
                ns \in Inj(Univ, MaxLinks), pa \in {<<>>, <<l2>>}}
  /\ pkt \in {[from |-> f, to |-> t, passwd |-> w] : f \in Univ \union {me1}, t \in {me1, me2, x2},
              w \in {"", "SECRET"}}
  /\ msg \in {[area |-> "A", orig |-> l1, id |-> "M|1", date |-> 0, hasid |-> TRUE, hasorigin |-> TRUE,
               seenby |-> sb, path |-> pa] : sb \in SeenSets, pa \in PathSets}
  /\ hist \in IF Hists THEN {{}, {<<"A", "M|1">>}, {<<"B", "M|1">>}} ELSE {{<<"B", "M|1">>}}
  /\ out = [v |-> "", copies |-> <<>>, rec |-> FALSE]
(* the step *)
Next ==
  /\ out.v = ""
  /\ LET vd == Verdict(cfg, area, TRUE, pkt, msg, 0, hist) IN
     out' = [v |-> vd.v, copies |-> IF vd.v = "toss" THEN Copies(cfg, area, pkt, msg) ELSE <<>>,
             rec |-> Records(cfg, area, TRUE, pkt, msg, 0, hist)]
  /\ UNCHANGED <<cfg, area, pkt, msg, hist>>
Spec == Init /\ [][Next]_<<cfg, area, pkt, msg, hist, out>>

Me == IF area.zone = 1 THEN me2 ELSE me1
Dests == {out.copies[k].to : k \in 1..Len(out.copies)}
Seen3 == Range(msg.seenby) \union {T3(pkt.from), T3(pkt.to), T3(Me)}
(* a lone SEEN-BY entry of the boss stands for the sending point *)
Lone == Len(msg.seenby) = 1 /\ msg.seenby[1] = <<pkt.from[2], pkt.from[3], 0>>

(* P01 *)
OnlyDue ==
  \A d \in Dests :
    \/ d = Me
    \/ /\ \E i \in 1..Len(area.nodes) : area.nodes[i] = d /\ i >= area.uplinks
       /\ d # pkt.from
       /\ ~In(d, area.passive)
       /\ (T3(d) \notin Seen3 \/ Lone)
AllDue ==
  out.v = "toss" =>
  \A i \in 1..Len(area.nodes) :
    LET n == area.nodes[i] IN
    (i >= area.uplinks /\ n # pkt.from /\ ~In(n, area.passive) /\ T3(n) \notin Seen3)
    => \E d \in Dests : T3(d) = T3(n)
OnceEach == \A i, j \in 1..Len(out.copies) : i # j => out.copies[i].to # out.copies[j].to
OwnCopy == out.v = "toss" =>
           (Me \in Dests <=> /\ ~Has(cfg, "-p") /\ pkt.from # Me
                             /\ (~area.passthru \/ In(Me, area.nodes)))
(* P02 *)
Hide(n) == n[3] # 0 /\ ~Has(cfg, "TossEchoMail4D")
Deleted(n) == \E k \in 1..Len(cfg.del) : \E j \in 1..Len(cfg.del[k].nodes) : T3(cfg.del[k].nodes[j]) = n
SeenGrows ==
  \A k \in 1..Len(out.copies) :
    LET c == out.copies[k] IN
    \A n \in Seen3 \union {T3(d) : d \in Dests \ {Me}} :
      (~Hide(n) /\ ~Deleted(n) /\ ~Lone) => n \in c.seenby
PathGrows ==
  \A k \in 1..Len(out.copies) :
    LET c == out.copies[k]
        P(n) == ~Hide(n)
        inp == SelectSeq(msg.path, P)
    IN /\ Len(c.path) >= 1
       /\ c.path[Len(c.path)] = T3(Me)
       /\ \A j \in 1..(Len(c.path)-1) : c.path[j] # c.path[j+1]
       /\ (Len(msg.path) # 1 => \A j \in 1..Len(inp) : \E m \in 1..Len(c.path) : c.path[m] = inp[j])
NoLoop == (Has(cfg, "CheckPath") /\ \E j \in 1..(Len(msg.path)-1) : msg.path[j] \in {T3(me1), T3(me2)})
          => out.v # "toss"
(* P04 *)
NeverUnauthorised ==
  out.v = "toss" =>
    /\ pkt.from = l1 => pkt.passwd = "SECRET"
    /\ ~Has(cfg, "-t") => pkt.from = Me \/ In(pkt.from, area.nodes)
    /\ ~Has(cfg, "-n") => pkt.to \in {me1, me2}
    /\ area.state # <<"P">>
    /\ (area.state = <<"W">> => \E i \in 1..area.uplinks : i <= Len(area.nodes) /\ area.nodes[i] = pkt.from)
(* P05 *)
NoDupe == Has(cfg, "DupeCheck") /\ <<"A", "M|1">> \in hist => out.v # "toss"
NotPoisoned == out.rec => pkt.from = Me \/ In(pkt.from, area.nodes)
TossedIsRecorded == Has(cfg, "DupeCheck") /\ out.v = "toss" /\ (pkt.from = Me \/ In(pkt.from, area.nodes))
                    => out.rec
Accounted == out.v \in {"", "toss", "bad", "drop"}
=============================================================================
