-------------------------------- MODULE MCNet --------------------------------
(* Exhaustive check of Netmail.tla and Route.tla over small tables: every    *)
(* combination of control lines, rewrite, remap, route rules and packet      *)
(* kinds. The invariants say it without the operators that compute it.       *)
EXTENDS Addr, Toss
CONSTANTS MaxRules, Mode
N == INSTANCE Netmail
R == INSTANCE Route
VARIABLES cfg, pkt, m, out

me == <<2, 1, 1, 0>>
me2 == <<1, 1, 1, 0>>
a == <<2, 10, 1, 0>>
ap == <<2, 10, 1, 3>>
b == <<1, 10, 1, 0>>
c == <<2, 20, 1, 0>>
E_ == -1
Pats == {<<2, 10, 1, E_>>, <<2, 10, 1, 3>>, <<2, 10, 1, Wild>>, <<E_, 20, 1, 0>>, Wildcard}
Dests == {<<2, 20, 1, 0>>, <<E_, 20, 5, E_>>, <<Wild, 30, Wild, Wild>>, <<0, 0, 0, 0>>}
Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
Nam == {"x", "y"}
Rw == {[cmd |-> k, from |-> p, to |-> d, name |-> nm] : k \in {"", "from", "to"}, p \in Pats, d \in Dests \ {<<0, 0, 0, 0>>}, nm \in {"x"}}
Rm == {[cmd |-> k, from |-> p, to |-> d, name |-> "x"] : k \in {"to", "from"}, p \in Pats, d \in Dests}
K(nm, d, s, p) == [n |-> nm, d |-> d, s |-> s, p |-> p, line |-> nm]
Kl == {<<>>, <<K("INTL", c, a, 0)>>, <<K("FMPT", NoNode, NoNode, 7)>>, <<K("TOPT", NoNode, NoNode, 9)>>,
       <<K("", NoNode, NoNode, 0), K("TOPT", NoNode, NoNode, 3), K("INTL", a, b, 0)>>,
       <<K("FMPT", NoNode, NoNode, 3), K("INTL", a, a, 0), K("TOPT", NoNode, NoNode, 9), K("TOPT", NoNode, NoNode, 8)>>}
Rr == {[type |-> "n", cmd |-> k, flav |-> f, new |-> "c", nodes |-> ns] :
         k \in {"send", "route", "change", "sendmove"}, f \in {"n", "h"}, ns \in {<<p>> : p \in Pats} \cup {<<<<2, 20, 1, E_>>, Wildcard>>}}
NetInit ==
  /\ cfg \in {[akas |-> <<me, me2>>, opts |-> o, pw |-> <<>>, rewrite |-> rw, remap |-> rm, spyes |-> <<>>,
               names |-> <<<<"x", "x">>>>, mk |-> <<>>, rules |-> <<>>] :
               o \in {<<>>, <<"KillEmpty">>}, rw \in Seqs(Rw, MaxRules), rm \in Seqs(Rm, MaxRules)}
  /\ pkt \in {[from |-> a, to |-> me], [from |-> b, to |-> me2]}
  /\ m \in {[hfrom |-> <<10, 1>>, hto |-> t, kl |-> k, fromname |-> f, toname |-> "x", subj |-> "s", attr |-> at,
             empty |-> e, ping |-> FALSE] :
             t \in {<<10, 1>>, <<1, 1>>}, k \in Kl, f \in Nam, at \in {0, 514}, e \in BOOLEAN}
RouteInit ==
  /\ cfg \in {[akas |-> <<me, me2>>, opts |-> <<>>, pw |-> <<>>, mk |-> k, rules |-> rs] :
               k \in {<<>>, <<[cmd |-> "hostroute", flav |-> "h", uplink |-> NoNode, nodes |-> <<<<2, 10, Wild, Wild>>>>]>>,
                      <<[cmd |-> "bossroute", flav |-> "n", uplink |-> NoNode, nodes |-> <<<<2, 10, 1, Wild>>>>]>>},
               rs \in Seqs(Rr, MaxRules)}
  /\ pkt \in {[grade |-> "n", type |-> t, flav |-> f, from |-> me, to |-> d, pw |-> "", msgs |-> <<[uid |-> 1, attr |-> at]>>] :
               t \in {"n", "e", "0"}, f \in {"n", "h"}, d \in {a, ap, b, c}, at \in {0, 1024}}
  /\ m = 0
Init == (IF Mode = "net" THEN NetInit ELSE RouteInit) /\ out = [done |-> FALSE]
Next == /\ ~out.done
        /\ out' = IF Mode = "net" THEN [done |-> TRUE, r |-> N!Netmail(cfg, pkt, m)]
                  ELSE [done |-> TRUE, r |-> R!RouteQueue(cfg, <<pkt>>)]
        /\ UNCHANGED <<cfg, pkt, m>>
Spec == Init /\ [][Next]_<<cfg, pkt, m, out>>

(* ---- netmail ---- *)
O == out.r.out[1]
At(nm) == {i \in 1..Len(m.kl) : m.kl[i].n = nm}
FirstOf(nm) == CHOOSE i \in At(nm) : \A j \in At(nm) : i <= j
(* with no rules the addresses are those written in the message             *)
Src == LET n == IF At("INTL") = {} THEN <<pkt.from[1], m.hfrom[1], m.hfrom[2]>>
                ELSE SubSeq(m.kl[FirstOf("INTL")].s, 1, 3)
       IN Append(n, IF At("FMPT") = {} THEN 0 ELSE m.kl[FirstOf("FMPT")].p)
Dst == LET n == IF At("INTL") = {} THEN <<pkt.to[1], m.hto[1], m.hto[2]>>
                ELSE SubSeq(m.kl[FirstOf("INTL")].d, 1, 3)
       IN Append(n, IF At("TOPT") = {} THEN 0 ELSE m.kl[FirstOf("TOPT")].p)
Net == Mode = "net" /\ out.done
KeepsAddresses ==
  Net /\ cfg.rewrite = <<>> /\ cfg.remap = <<>> /\ out.r.out # <<>> => O.from = Src /\ O.to = Dst
(* the origin is only changed by a rewrite rule, one address per table       *)
OneRule ==
  Net /\ out.r.out # <<>> =>
    /\ cfg.rewrite = <<>> => O.from = Src
    /\ Len(cfg.rewrite) <= 1 /\ cfg.remap = <<>> => O.from = Src \/ O.to = Dst
DroppedOnlyIf ==
  Net /\ out.r.out = <<>> =>
    \/ m.empty /\ Has(cfg, "KillEmpty") /\ (Dst = me \/ Dst = me2)
    \/ \E i \in 1..Len(cfg.remap) : cfg.remap[i].to = <<0, 0, 0, 0>>
OneCopy == Net => Len(out.r.out) <= 1 /\ (out.r.out # <<>> => Len(O.vias) = 1 /\ O.pto = O.to /\ O.vias[1] \in {me, me2})
FlavourByAttr == Net /\ out.r.out # <<>> => O.flav = (IF m.attr = 0 THEN "n" ELSE "c")
(* ---- routing ---- *)
Rt == Mode = "route" /\ out.done
Placed == out.r.put
OnceRouted ==
  Rt => \/ Len(Placed) = 1 /\ out.r.moved = <<>> /\ Placed[1].uid = 1
        \/ Placed = <<>> /\ Len(out.r.moved) = 1 /\ out.r.moved[1].uids = <<1>> /\ out.r.moved[1].to = pkt.to
DirectStays == Rt /\ Placed # <<>> /\ pkt.msgs[1].attr = 1024 => Placed[1].key.to = pkt.to
NoRuleNoChange ==
  Rt /\ ((cfg.rules = <<>> /\ cfg.mk = <<>>) \/ pkt.type # "n") /\ Placed # <<>> =>
    Placed[1].key.to = pkt.to /\ (pkt.type # "0" => Placed[1].key.flav = pkt.flav)
(* only change touches what is not normal, only route and host route lead to *)
(* another node, and no rule loses the way to the net                        *)
FlavourGuard ==
  Rt /\ pkt.type = "n" /\ pkt.flav = "h" /\ cfg.mk = <<>> /\ Placed # <<>> => Placed[1].key.to = pkt.to
NextHop ==
  Rt /\ Placed # <<>> =>
    LET d == Placed[1].key.to IN
    \/ d = pkt.to
    \/ d = <<pkt.to[1], pkt.to[2], pkt.to[3], 0>>
    \/ d = <<pkt.to[1], pkt.to[2], 0, 0>> /\ cfg.mk # <<>>
    \/ \E i \in 1..Len(cfg.rules) : cfg.rules[i].cmd = "route" /\ \A k \in 1..4 :
         Concrete(cfg.rules[i].nodes[1][k]) => d[k] = cfg.rules[i].nodes[1][k]
=============================================================================
