------------------------------ MODULE Netmail ------------------------------
(***************************************************************************)
(* Netmail passing the tosser.                                             *)
(*  cfg  [akas, opts, pw, rewrite, remap, spyes, names]                    *)
(*       rewrite <<[cmd, from, to, name], ...>>   cmd "", "from", "to"     *)
(*       remap   <<[cmd, from, to, name], ...>>   cmd "to", "from"         *)
(*       spyes   <<[node, fwd], ...>>                                      *)
(*       names   the <<pattern, name>> pairs for which the name matches    *)
(*       from/to are patterns as written in the table (see Addr)           *)
(*  pkt  [from, to]                                                        *)
(*  m    [hfrom, hto, kl, fromname, toname, subj, attr, empty, ...]        *)
(*       kl <<[n, d, s, p, line], ...>> control lines in order             *)
(***************************************************************************)
EXTENDS Addr, Toss

KFirst(m, name) ==
  LET P(k) == k.n = name IN IndexOf(m.kl, P)
Drop(s, is) == LET P(i) == i \notin is
                   keep == SelectSeq([i \in 1..Len(s) |-> i], P)
               IN [i \in 1..Len(keep) |-> s[keep[i]]]

(* the addresses of a netmail: the header's numbers in the packet's zone,  *)
(* overridden by the first INTL, FMPT and TOPT                             *)
From0(pkt, m) == <<pkt.from[1], m.hfrom[1], m.hfrom[2], 0>>
To0(pkt, m)   == <<pkt.to[1], m.hto[1], m.hto[2], 0>>
WithPoint(n, p) == <<n[1], n[2], n[3], p>>
MailFrom(pkt, m) ==
  LET i == KFirst(m, "INTL")  f == KFirst(m, "FMPT")
      a == IF i # 0 /\ m.kl[i].s # NoNode THEN m.kl[i].s ELSE From0(pkt, m)
  IN IF f # 0 THEN WithPoint(a, m.kl[f].p) ELSE a
MailTo(pkt, m) ==
  LET i == KFirst(m, "INTL")  t == KFirst(m, "TOPT")
      a == IF i # 0 /\ m.kl[i].d # NoNode THEN m.kl[i].d ELSE To0(pkt, m)
  IN IF t # 0 THEN WithPoint(a, m.kl[t].p) ELSE a
(* the other control lines stay as they are *)
Others(m) ==
  LET k == Drop(m.kl, {KFirst(m, "INTL"), KFirst(m, "FMPT"), KFirst(m, "TOPT")})
  IN [i \in 1..Len(k) |-> k[i].line]

Rule(cfg, r) == [cmd |-> r.cmd, name |-> r.name,
                 from |-> Complete(r.from, Start(cfg.akas[1][1])),
                 to |-> Complete(r.to, Start(cfg.akas[1][1]))]
NameOk(cfg, pat, name) == <<pat, name>> \in Range(cfg.names)

(* exactly the first rule that applies, and of it the From side first *)
Rewritten(cfg, e) ==
  LET F(r0) == LET r == Rule(cfg, r0) IN
        PMatch(e.from, r.from) /\ (r.cmd = "" \/ (r.cmd = "from" /\ NameOk(cfg, r.name, e.fromname)))
      T(r0) == LET r == Rule(cfg, r0) IN
        PMatch(e.to, r.from) /\ (r.cmd = "" \/ (r.cmd = "to" /\ NameOk(cfg, r.name, e.toname)))
      P(r) == F(r) \/ T(r)
      i == IndexOf(cfg.rewrite, P)
  IN IF i = 0 THEN e
     ELSE IF F(cfg.rewrite[i]) THEN [e EXCEPT !.from = Subst(@, Rule(cfg, cfg.rewrite[i]).to)]
     ELSE [e EXCEPT !.to = Subst(@, Rule(cfg, cfg.rewrite[i]).to)]
Remapped(cfg, e) ==
  LET P(r0) == LET r == Rule(cfg, r0) IN
        \/ r.cmd = "to" /\ PMatch(e.to, r.from) /\ NameOk(cfg, r.name, e.toname)
        \/ r.cmd = "from" /\ PMatch(e.from, r.from) /\ NameOk(cfg, r.name, e.fromname)
      i == IndexOf(cfg.remap, P)
  IN IF i = 0 THEN e
     ELSE LET to == Subst(e.to, Rule(cfg, cfg.remap[i]).to)
          IN [e EXCEPT !.to = to, !.killed = (to = <<0, 0, 0, 0>>)]

Hold == 512
Crash == 2
Flavour(cfg, attr) ==
  IF Has(cfg, "-s") THEN "n"
  ELSE IF Bit(attr, Crash) THEN "c" ELSE IF Bit(attr, Hold) THEN "h" ELSE "n"

(* the own address nearest to a node: same node, same net, same zone, main one *)
NearestAka(cfg, n) ==
  LET P3(a) == a[1] = n[1] /\ a[2] = n[2] /\ a[3] = n[3]
      P2(a) == a[1] = n[1] /\ a[2] = n[2]
  IN First(cfg.akas, P3, First(cfg.akas, P2, BestAka(cfg, n[1])))

(* e: [from, to, fromname, toname, subj, killed, vias]; one pass of delivery *)
Pass(cfg, e, m) ==
  LET ping == m.ping /\ Has(cfg, "SupportPing")
      pong == IF ping
              THEN <<[from |-> IF IsLocal(cfg, e.to) THEN e.to ELSE NearestAka(cfg, e.from),
                      to |-> e.from, toname |-> e.fromname]>> ELSE <<>>
      drop == ~m.ping /\ Has(cfg, "KillEmpty") /\ m.empty /\ IsLocal(cfg, e.to)
      e1 == Remapped(cfg, Rewritten(cfg, [e EXCEPT !.killed = FALSE]))
      own == BestAka(cfg, e1.to[1])
  IN IF drop THEN [e |-> e, out |-> <<>>, pong |-> pong]
     ELSE IF e1.killed THEN [e |-> e1, out |-> <<>>, pong |-> pong]
     ELSE LET e2 == [e1 EXCEPT !.vias = Append(@, own)]
          IN [e |-> e2, pong |-> pong,
              out |-> <<[pfrom |-> own, pto |-> e2.to, flav |-> Flavour(cfg, m.attr),
                         from |-> e2.from, to |-> e2.to, subj |-> e2.subj, vias |-> e2.vias,
                         pw |-> PacketPw(cfg, e2.to).pw]>>]

(* a spied system is watched together with its points *)
Spied(cfg, n) == LET P(s) == \A k \in 1..3 : n[k] = s.node[k] IN IndexOf(cfg.spyes, P)

AStr(n) == ToString(n[1]) \o ":" \o ToString(n[2]) \o "/" \o ToString(n[3]) \o
           "." \o ToString(n[4])
MaxSubj == 71
Cut(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)

(* everything that comes of one netmail *)
Netmail(cfg, pkt, m) ==
  LET from == MailFrom(pkt, m)
      to   == MailTo(pkt, m)
      e0 == [from |-> from, to |-> to, fromname |-> m.fromname, toname |-> m.toname,
             subj |-> m.subj, killed |-> FALSE, vias |-> <<>>]
      one == Pass(cfg, e0, m)
      spy == IF Spied(cfg, from) # 0 THEN Spied(cfg, from) ELSE Spied(cfg, to)
      e1 == [one.e EXCEPT !.to = cfg.spyes[spy].fwd,
                          !.subj = Cut("[FWD] from " \o AStr(one.e.from) \o " to " \o AStr(one.e.to) \o
                                       ": " \o m.subj, MaxSubj)]
      two == Pass(cfg, e1, m)
  IN IF spy = 0 THEN [out |-> one.out, pong |-> one.pong]
     ELSE [out |-> one.out \o two.out, pong |-> one.pong \o two.pong]
=============================================================================
