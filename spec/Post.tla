-------------------------------- MODULE Post --------------------------------
(***************************************************************************)
(* The Fidonet to Internet gateway (src/gate/ftn2rfc.c): which article or   *)
(* mail a message of a packet becomes, for whom, or why it is refused.      *)
(*                                                                         *)
(* A configuration cfg is a record                                          *)
(*   akas     own addresses; inet: names of hosts and domains (Inet.tla),   *)
(*            hosts with down                                               *)
(*   areas    sequence of [area, group, hier, no, nogate, addr], addr the   *)
(*            own address of the area; xlate: sequence of [a, g]            *)
(*   junk     newsgroup of unknown areas or ""                              *)
(*   acl      sequence of [kind, who, what]: ftn2rfc lines, who may NOT     *)
(*            write where                                                   *)
(*   aliases  sequence of [user, dom, node, full], dom or ""                *)
(*   insecure (-t), ignore (-i), restricted, noaddr, killsplit, killno,     *)
(*   killzone, ftnto, dots, mode, tracker, errors, fqdn                     *)
(* A message m is a record                                                  *)
(*   area     "" for netmail; pfrom, pto: the addresses of the packet       *)
(*   from, to the addresses of a netmail                                    *)
(*   origin, msgid, reply, split, pid: these lines, "" where missing;       *)
(*            oaddr, maddr: the addresses in the first two, or NoNode;      *)
(*            odom, mdom: the domains with them, "" or "@domain"            *)
(*   toname, fromname, subject, wall (its date), tz (minutes of TZUTC)      *)
(*   blank    number of empty lines before the header lines in the text     *)
(*   rfc      sequence of [h, v], header lines at the top of the text       *)
(*   text     sequence of lines                                             *)
(***************************************************************************)
EXTENDS Msgid

(* ---- text ------------------------------------------------------------- *)
EndsIn(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
EqI(a, b) == Len(a) = Len(b) /\ Down(a) = Down(b)
HasC(s, c) == FirstAt(s, c, 1) # 0
WMatch(s, p) ==
  LET w == FirstAt(p, "*", 1)
  IN IF w = 0 THEN s = p
     ELSE LET a == SubSeq(p, 1, w - 1) b == From(p, w + 1)
          IN Len(s) >= Len(a) + Len(b) /\ Begins(s, a) /\ EndsIn(s, b)
RECURSIVE Without(_, _), Map(_, _, _), TrimR(_), TrimL(_)
Without(s, set) == IF s = "" THEN "" ELSE (IF Chr(s, 1) \in set THEN "" ELSE Chr(s, 1)) \o Without(From(s, 2), set)
Map(s, c, d) == IF s = "" THEN "" ELSE (IF Chr(s, 1) = c THEN d ELSE Chr(s, 1)) \o Map(From(s, 2), c, d)
TrimR(s) == IF s # "" /\ Chr(s, Len(s)) = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimL(s) == IF s # "" /\ Chr(s, 1) = " " THEN TrimL(From(s, 2)) ELSE s

(* ---- names ------------------------------------------------------------ *)
Special == {"(", ")", "<", ">", "@", ",", ";", ":", "\\", "\"", "[", "]"}
UserOf(cfg, name) ==
  LET q == \E i \in 1..Len(name) : Chr(name, i) \in Special
      u == Map(Without(name, {"\"", "\\"}), " ", IF cfg.dots THEN "." ELSE "_")
  IN IF q THEN "\"" \o u \o "\"" ELSE u
RealOf(name) == TrimR(Without(name, {"<", ">"}))
DomOf(cfg, a) == IF a = NoNode THEN "INVALID_FTN_ADDRESS" ELSE ToInet(cfg.inet, a, FALSE)
FromFtnName(cfg, name, a) == [user |-> UserOf(cfg, name), addr |-> DomOf(cfg, a), real |-> RealOf(name)]
Plain(r) == r.user \o (IF r.addr = "" THEN "" ELSE "@" \o r.addr)
Written(cfg, r) == IF r.real = "" THEN Plain(r)
                   ELSE IF cfg.mode = 0 THEN Plain(r) \o " (" \o r.real \o ")"
                   ELSE r.real \o " <" \o Plain(r) \o ">"
(* user@host, user@host (name), name <user@host>, host!user, user%host *)
Split(p) ==
  LET at == LastAt(p, "@", Len(p)) ex == FirstAt(p, "!", 1) pc == LastAt(p, "%", Len(p))
  IN IF at # 0 THEN [user |-> SubSeq(p, 1, at - 1), addr |-> From(p, at + 1)]
     ELSE IF ex # 0 THEN [user |-> From(p, ex + 1), addr |-> SubSeq(p, 1, ex - 1)]
     ELSE IF pc # 0 THEN [user |-> SubSeq(p, 1, pc - 1), addr |-> From(p, pc + 1)]
     ELSE [user |-> p, addr |-> ""]
Bare(s) == LET a == IF s # "" /\ Chr(s, 1) = "\"" THEN From(s, 2) ELSE s
               b == TrimR(TrimL(a))
           IN TrimR(IF b # "" /\ Chr(b, Len(b)) = "\"" THEN SubSeq(b, 1, Len(b) - 1) ELSE b)
ReadRfc(s) ==
  LET l == FirstAt(s, "<", 1) g == LastAt(s, ">", Len(s))
      o == FirstAt(s, "(", 1) c == LastAt(s, ")", Len(s))
      real == IF l # 0 /\ g > l THEN SubSeq(s, 1, l - 1) ELSE IF o # 0 /\ c > o THEN SubSeq(s, o + 1, c - 1) ELSE ""
      addr == IF l # 0 /\ g > l THEN SubSeq(s, l + 1, g - 1) ELSE IF o # 0 /\ c > o THEN SubSeq(s, 1, o - 1) ELSE s
  IN Split(TrimR(TrimL(addr))) @@ [real |-> Bare(real)]

(* ---- who may not write where ------------------------------------------ *)
(* a pattern is for the whole address, the point 0 included *)
Four(a) == ToString(a[1]) \o ":" \o ToString(a[2]) \o "/" \o ToString(a[3]) \o "." \o ToString(a[4])
Barred(cfg, kind, who, what) ==
  \E i \in 1..Len(cfg.acl) :
    LET x == cfg.acl[i]
    IN x.kind = kind /\ (\E w \in who : WMatch(w, x.who)) /\ \E j \in 1..Len(x.what) : WMatch(what, x.what[j])

(* ---- areas ------------------------------------------------------------ *)
RECURSIVE GroupChars(_, _)
GroupChars(cfg, s) ==
  IF s = "" THEN ""
  ELSE LET P(x) == x.a = Chr(s, 1)
           m == SelectSeq(cfg.xlate, P)
       IN (IF m = <<>> THEN DownC(Chr(s, 1)) ELSE m[Len(m)].g) \o GroupChars(cfg, From(s, 2))
NoArea == [area |-> "", group |-> ""]
GroupOf(cfg, area, aka) ==
  LET P(x) == x.addr = aka /\ (IF x.hier THEN Len(area) >= Len(x.area) /\ EqI(SubSeq(area, 1, Len(x.area)), x.area)
                               ELSE EqI(area, x.area))
      q == SelectSeq(cfg.areas, P)
  IN IF q = <<>> THEN [group |-> cfg.junk, nogate |-> FALSE]
     ELSE IF q[1].no THEN [group |-> cfg.junk, nogate |-> FALSE]
     ELSE [group |-> IF q[1].hier THEN q[1].group \o GroupChars(cfg, From(area, Len(q[1].area) + 1)) ELSE q[1].group,
           nogate |-> q[1].nogate]

(* ---- a message -------------------------------------------------------- *)
Hdr(m, h) == LET P(x) == EqI(x.h, h) q == SelectSeq(m.rfc, P) IN IF q = <<>> THEN "" ELSE q[1].v
Trackers == {"MsgTrack", "Reflex_Netmail_Policeman", "TrackM", "ITrack", "FTrack", "O/T-Track"}
IsTracker(u) == \E t \in Trackers : Len(u) >= Len(t) /\ EqI(SubSeq(u, 1, Len(t)), t)
AliasOf(cfg, a, real) ==
  LET P(x) == x.node = a /\ EqI(x.full, real) q == SelectSeq(cfg.aliases, P)
  IN IF q = <<>> THEN [user |-> ""] ELSE q[1]
Valid(s) == s # "" /\ \A i \in 1..Len(s) : Chr(s, i) \notin (Special \cup {" ", "%", "_", "!"})
Addressed(s) == HasC(s, "@") \/ HasC(s, "%") \/ HasC(s, "!")
Local(cfg, s) == LET h == ReadRfc(s).addr d == cfg.inet.domain
                 IN h = "" \/ EqI(h, From(d, 2)) \/ EqI(h, d)
                    \/ (Len(h) >= Len(d) /\ EqI(SubSeq(h, Len(h) - Len(d) + 1, Len(h)), d))
(* the lines of the text as they are passed on *)
Body(m) ==
  LET all == [k \in 1..m.blank |-> ""] \o m.text
      one == IF m.rfc # <<>> /\ all # <<>> /\ all[1] = "" THEN Tail(all) ELSE all
  IN IF one # <<>> /\ one[Len(one)] = "" THEN SubSeq(one, 1, Len(one) - 1) ELSE one
Sender(m) == IF m.area = "" THEN m.from ELSE IF m.oaddr # NoNode THEN m.oaddr ELSE m.maddr

(* its texts, with and without the domain named in the message *)
Writer(m) == {Four(Sender(m)), Four(Sender(m)) \o (IF m.area = "" THEN "" ELSE IF m.oaddr # NoNode THEN m.odom ELSE m.mdom)}

Refused == <<>>
Bounce(cfg, f, why) == <<[kind |-> "bounce", to |-> Written(cfg, f), why |-> why]>>
IdOf(cfg, m) ==
  IF m.msgid = "" THEN [id |-> IF cfg.killno THEN "refused" ELSE "?", zone |-> -2]
  ELSE LET x == FromFtn(cfg.inet, m.msgid) IN
       IF Begins(m.msgid, "<NOMSGID_") THEN [id |-> "refused", zone |-> -2]
       ELSE IF cfg.killzone /\ x.zone >= -1 /\ \A i \in 1..Len(cfg.inet.zones) : cfg.inet.zones[i].zone # x.zone
       THEN [id |-> "refused", zone |-> -2] ELSE x

Gated(cfg, m) ==
  LET net == m.area = ""
      orig == TLCEval(Sender(m))
      ar == TLCEval(IF net THEN NoArea ELSE GroupOf(cfg, m.area, m.pto))
      rfrom == Hdr(m, "From") rto == Hdr(m, "To")
      real == TLCEval(FromFtnName(cfg, m.fromname, orig))
      fa == AliasOf(cfg, orig, real.real)
      f0 == IF rfrom # "" \/ fa.user = "" THEN real
            ELSE [real EXCEPT !.user = fa.user, !.addr = IF fa.dom = "" THEN @ ELSE fa.dom]
      f1 == IF rfrom = "" THEN f0
            ELSE LET r == ReadRfc(rfrom) IN [r EXCEPT !.real = IF @ = "" THEN f0.real ELSE @]
      node_to == IF net THEN m.to ELSE m.pto
      t0 == TLCEval(FromFtnName(cfg, m.toname, node_to))
      ta == AliasOf(cfg, node_to, t0.real)
      m0 == IF ta.user = "" \/ HasC(m.toname, "@") THEN t0.user
            ELSE IF ta.dom = "" THEN ta.user ELSE m.toname \o " <" \o ta.user \o "@" \o ta.dom \o ">"
      track == cfg.tracker # "" /\ IsTracker(f0.user)
      m1 == IF track THEN cfg.tracker ELSE IF rto # "" THEN "" ELSE m0
      gateway == Down(t0.real) \in {"uucp", "gateway"}
      dist == IF HasC(m.toname, "@") THEN From(m.toname, FirstAt(m.toname, "@", 1) + 1)
              ELSE IF HasC(m.toname, "%") THEN From(m.toname, FirstAt(m.toname, "%", 1) + 1) ELSE ""
      m2 == IF ~track /\ Addressed(m1) /\ Valid(dist) THEN m.toname ELSE m1
      host == HostOf(cfg.inet, orig)
      m3 == IF Addressed(m2) THEN m2 ELSE m2 \o "@" \o (IF cfg.ftnto THEN t0.addr ELSE cfg.fqdn)
      to == IF rto # ""
            THEN (IF HasC(rto, "(") \/ HasC(rto, "<") \/ t0.real = "" \/ (gateway /\ ~track) THEN rto
                  ELSE rto \o " (" \o t0.real \o ")")
            ELSE IF net THEN m3 ELSE t0.real
      id == IdOf(cfg, m)
      ref == IF m.reply = "" THEN "" ELSE FromFtn(cfg.inet, m.reply).id
      done == [kind |-> IF net THEN "mail" ELSE "news", group |-> ar.group, from |-> Written(cfg, f1), to |-> to,
               reply |-> Hdr(m, "Reply-To"), cc |-> IF net /\ rto # "" THEN Hdr(m, "Cc") ELSE "",
               subject |-> IF Hdr(m, "Subject") # "" THEN Hdr(m, "Subject") ELSE IF m.subject = "" THEN "(no subject)" ELSE m.subject,
               date |-> m.wall - 60 * m.tz, id |-> id.id, ref |-> ref,
               errors |-> IF net THEN cfg.errors ELSE "", text |-> Body(m)]
  IN IF Barred(cfg, IF net THEN "Mail" ELSE "News", Writer(m), IF net THEN Four(m.to) ELSE m.area) THEN Refused
     ELSE IF ~net /\ ar.group = "" THEN Refused
     ELSE IF cfg.killsplit /\ m.split # "" THEN Refused
     ELSE IF ~net /\ ar.nogate /\ (rfrom # "" \/ Begins(m.pid, "GIGO")) THEN Refused
     ELSE IF net /\ cfg.insecure /\ rto # "" THEN Bounce(cfg, f0, "insecure")
     ELSE IF net /\ cfg.restricted /\ ~cfg.ignore /\ rto # "" /\ ~Local(cfg, rto) /\ host.name = "none" THEN Bounce(cfg, f0, "restricted")
     ELSE IF net /\ cfg.restricted /\ ~cfg.ignore /\ rto # "" /\ ~Local(cfg, rto) /\ host.down THEN Bounce(cfg, f0, "down")
     ELSE IF net /\ rto = "" /\ Addressed(m1) /\ cfg.noaddr THEN Bounce(cfg, f0, "addrinto")
     ELSE IF net /\ rto = "" /\ ~Addressed(m2) /\ gateway /\ ~track THEN Bounce(cfg, f0, "noto")
     ELSE IF id.id = "refused" THEN Refused
     ELSE <<done>>
=============================================================================
