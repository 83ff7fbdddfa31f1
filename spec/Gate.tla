-------------------------------- MODULE Gate --------------------------------
(***************************************************************************)
(* The Internet to Fidonet gateway (src/gate/rfc2ftn.c): which messages a   *)
(* news article or a mail becomes, for whom, and in which parts.            *)
(*                                                                         *)
(* A configuration cfg is a record                                          *)
(*   akas, uplinks   own addresses and the feed of each                     *)
(*   areas    sequence of [area, group, hier, no, nox, localx, zone, addr,  *)
(*            max, limit]: the AREAS table, in its order; max and limit -1  *)
(*            where the general ones (max, limit) hold, 0 is no bound       *)
(*   xlate    sequence of [a, g]: AreasXlate, characters of area and group  *)
(*   bbs      sequence of [area, zone, addr, nodes]; check: CheckAreasBBS   *)
(*   acl      sequence of [kind, who, what]: who may write where            *)
(*   inet     names of hosts and domains, see Inet.tla; down and            *)
(*            restricted: HOSTS -d lines and HostsRestricted                *)
(*   gateway  the Fidonet-Internet gateway, or NoNode                       *)
(*   fqdn, origin, old (NoFSC0047)                                          *)
(*   aliases  sequence of [user, node, full]                                *)
(* An article (or mail) art is [from, user, real, groups, xpost, control,   *)
(*   rcpt, subject, lines]; lines are [text, lf].                           *)
(***************************************************************************)
EXTENDS Inet

(* ---- text ------------------------------------------------------------- *)
UpOf == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I"
        , j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R"
        , s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
UpC(c) == IF c \in DOMAIN UpOf THEN UpOf[c] ELSE c
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsIn(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
EqI(a, b) == Len(a) = Len(b) /\ Down(a) = Down(b)
HasC(s, c) == \E i \in 1..Len(s) : Chr(s, i) = c

(* a pattern with at most one star *)
WildPos(p) == IF HasC(p, "*") THEN CHOOSE i \in 1..Len(p) : Chr(p, i) = "*" /\ \A j \in 1..(i - 1) : Chr(p, j) # "*" ELSE 0
WMatch(s, p) ==
  LET w == WildPos(p)
  IN IF w = 0 THEN s = p
     ELSE LET a == SubSeq(p, 1, w - 1) b == From(p, w + 1)
          IN Len(s) >= Len(a) + Len(b) /\ Starts(s, a) /\ EndsIn(s, b)

(* ---- who may write where ---------------------------------------------- *)
(* the last line for the sender counts, and in it the last word on the target *)
Allowed(cfg, kind, who, what) ==
  LET P(x) == x.kind = kind /\ WMatch(who, x.who)
      mine == SelectSeq(cfg.acl, P)
      Word(ok, p) == IF Starts(p, "!") THEN (IF WMatch(what, From(p, 2)) THEN FALSE ELSE ok)
                     ELSE IF WMatch(what, p) THEN TRUE ELSE ok
  IN IF mine = <<>> THEN FALSE ELSE FoldL(Word, FALSE, mine[Len(mine)].what)

(* ---- newsgroup to area ------------------------------------------------ *)
NoArea == [area |-> "", group |-> ""]
RECURSIVE AreaChars(_, _)
AreaChars(cfg, s) ==
  IF s = "" THEN ""
  ELSE LET P(x) == x.g = Chr(s, 1)
           Last(q) == q[Len(q)]
           m == SelectSeq(cfg.xlate, P)
       IN (IF m = <<>> THEN UpC(Chr(s, 1)) ELSE Last(m).a) \o AreaChars(cfg, From(s, 2))
Hit(x, g) == IF x.hier THEN Len(g) >= Len(x.group) /\ EqI(SubSeq(g, 1, Len(x.group)), x.group)
             ELSE EqI(g, x.group)
Lookup(cfg, g) ==
  LET P(x) == Hit(x, g)
      i == IndexOf(cfg.areas, P)
  IN IF i = 0 \/ (i # 0 /\ cfg.areas[i].no) THEN NoArea
     ELSE LET x == cfg.areas[i]
          IN [x EXCEPT !.area = IF x.hier THEN @ \o AreaChars(cfg, From(g, Len(x.group) + 1)) ELSE @,
                       !.group = IF x.hier THEN g ELSE @]

(* ---- own address and feed --------------------------------------------- *)
Best(cfg, zone) ==
  LET P(a) == a[1] = zone
      i == IndexOf(cfg.akas, P)
  IN IF i = 0 THEN 1 ELSE i
NoEntry == [area |-> "", zone |-> 0, addr |-> NoNode, nodes |-> <<>>]
Entry(cfg, name) == LET P(b) == EqI(b.area, name) IN First(cfg.bbs, P, NoEntry)
Own(cfg, x) ==
  LET b == Entry(cfg, x.area)
  IN IF b = NoEntry THEN (IF x.addr # NoNode THEN x.addr ELSE cfg.akas[Best(cfg, x.zone)])
     ELSE IF b.addr # NoNode THEN b.addr
     ELSE IF b.nodes # <<>> THEN cfg.akas[Best(cfg, b.nodes[1][1])]
     ELSE IF x.addr # NoNode THEN x.addr ELSE cfg.akas[Best(cfg, b.zone)]
OwnZone(cfg, x) ==
  LET b == Entry(cfg, x.area)
  IN IF b = NoEntry THEN (IF x.addr # NoNode THEN x.addr[1] ELSE x.zone)
     ELSE IF b.addr # NoNode THEN b.addr[1]
     ELSE IF b.nodes # <<>> THEN Own(cfg, x)[1]
     ELSE IF x.addr # NoNode THEN x.addr[1] ELSE b.zone
Feed(cfg, x) == cfg.uplinks[Best(cfg, OwnZone(cfg, x))]
Links(cfg, x) ==
  LET b == Entry(cfg, x.area)
  IN IF b = NoEntry THEN 0
     ELSE IF b.nodes # <<>> /\ b.nodes[1] = Own(cfg, x) THEN Len(b.nodes) - 1 ELSE Len(b.nodes)

(* ---- sizes ------------------------------------------------------------ *)
OnWire(l) == IF l.lf THEN Len(l.text) + 2 ELSE Len(l.text)
ArtSize(art) == LET Add(n, l) == n + Len(l.text) + (IF l.lf THEN 2 ELSE 1) IN FoldL(Add, 0, art.lines)
MaxOf(cfg, x) == IF x.max < 0 THEN cfg.max ELSE x.max
LimitOf(cfg, x) == IF x.limit < 0 THEN cfg.limit ELSE x.limit
TooBig(art, limit) == limit > 0 /\ ArtSize(art) > limit

(* ---- which areas ------------------------------------------------------ *)
IsLocalFrom(cfg, art) == art.host = "" \/ EqI(art.host, cfg.fqdn)
Email(art) == IF art.host = "" THEN art.user ELSE art.user \o "@" \o art.host
Takes(cfg, art, x) ==
  /\ x # NoArea
  /\ cfg.check => Links(cfg, x) > 0
  /\ ~(art.xpost /\ x.nox)
  /\ art.xpost /\ x.localx => IsLocalFrom(cfg, art)
  /\ Allowed(cfg, "News", Email(art), x.group)
  /\ ~TooBig(art, LimitOf(cfg, x))

(* ---- parts ------------------------------------------------------------ *)
(* a part ends with the line that takes it over the bound *)
RECURSIVE Cut(_, _, _, _)
Cut(ls, max, part, n) ==
  IF ls = <<>> THEN <<part>>
  ELSE LET m == n + OnWire(Head(ls)) p == Append(part, Head(ls))
       IN IF max > 0 /\ m > max THEN <<p>> \o Cut(Tail(ls), max, <<>>, 0)
          ELSE Cut(Tail(ls), max, p, m)
PartsOf(ls, max) == Cut(ls, max, <<>>, 0)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
(* lines a Fidonet reader would take for its own are made harmless *)
Tame(s) ==
  IF Starts(s, "--- ") THEN "-+" \o From(s, 3)
  ELSE IF Starts(s, " * Origin:") THEN " +" \o From(s, 3)
  ELSE IF Starts(s, "SEEN-BY") THEN "SEEN+BY" \o From(s, 8)
  ELSE s

(* ---- names ------------------------------------------------------------ *)
IsUpper(c) == c # "" /\ DownC(c) # c
RECURSIVE NameFrom(_, _, _, _)
NameFrom(s, i, mode, us) ==         \* mode: -1 as written, 1 a word begins, 0 within it
  IF i > Len(s) THEN ""
  ELSE LET c == Chr(s, i)
       IN IF c = "_" \/ (c = "." /\ ~us) THEN " " \o NameFrom(s, i + 1, IF mode = 0 THEN 1 ELSE mode, us)
          ELSE IF c = "." THEN c \o NameFrom(s, i + 1, IF mode = 0 THEN 1 ELSE mode, us)
          ELSE IF mode > 0 THEN UpC(c) \o NameFrom(s, i + 1, 0, us)
          ELSE c \o NameFrom(s, i + 1, mode, us)
UserName(s) ==
  IF HasC(s, "%")
  THEN LET i == CHOOSE k \in 1..Len(s) : Chr(s, k) = "%" /\ \A j \in (k + 1)..Len(s) : Chr(s, j) # "%"
       IN SubSeq(s, 1, i - 1) \o "@" \o From(s, i + 1)
  ELSE NameFrom(s, 1, IF IsUpper(Chr(s, 1)) THEN -1 ELSE 1, HasC(s, "_") \/ HasC(s, " "))
NameOf(user, real) == IF real # "" THEN real ELSE UserName(user)

(* ---- a message in its parts ------------------------------------------- *)
Znp(a) == ToString(a[1]) \o ":" \o ToString(a[2]) \o "/" \o ToString(a[3]) \o P0(a)
Net2(a) == ToString(a[2]) \o "/" \o ToString(a[3])
SeenBy(own, up) ==
  "SEEN-BY: " \o Net2(own) \o
  (IF own[4] # 0 \/ up[1] = 0 \/ up[2] = 0 THEN ""
   ELSE IF up[2] # own[2] THEN " " \o Net2(up)
   ELSE IF up[3] # own[3] THEN " " \o ToString(up[3]) ELSE "")
Written(cfg, art, m, max) ==
  LET ps == TLCEval(PartsOf(art.lines, max))
      n == Len(ps)
      Text(p) == [k \in 1..Len(p) |-> Tame(p[k].text)]
      Head0 == IF m.via = "" THEN <<>> ELSE <<"To: " \o m.via, "">>
      Mark(k) == IF n > 1 /\ cfg.old
                 THEN <<" * Large message split by FIDOGATE: part " \o Two(k) \o "/" \o Two(n), "">> ELSE <<>>
      Foot == IF m.area = "" THEN <<>>
              ELSE <<" * Origin: " \o cfg.origin \o " (" \o Znp(m.from) \o ")", SeenBy(m.from, m.feed)>>
  IN [k \in 1..n |->
       [n |-> n, area |-> m.area, from |-> m.from, to |-> m.to, fromname |-> NameOf(art.user, art.real),
        toname |-> m.toname, private |-> m.area = "", feed |-> m.feed,
        subject |-> (IF n > 1 /\ k > 1 THEN Two(k) \o ": " ELSE "") \o art.subject,
        split |-> IF n > 1 /\ ~cfg.old THEN Two(k) \o "/" \o Two(n) ELSE "",
        text |-> Head0 \o Mark(k) \o Text(ps[k]), foot |-> Foot]]

(* ---- articles --------------------------------------------------------- *)
ForGroup(cfg, art, g) ==
  LET x == TLCEval(Lookup(cfg, g))
  IN IF ~Takes(cfg, art, x) THEN <<>>
     ELSE Written(cfg, art, [area |-> x.area, from |-> Own(cfg, x), to |-> Feed(cfg, x), feed |-> Feed(cfg, x),
                             toname |-> "All", via |-> ""], MaxOf(cfg, x))
News(cfg, art) ==
  IF art.control THEN <<>> ELSE Cat([i \in 1..Len(art.groups) |-> ForGroup(cfg, art, art.groups[i])])

(* ---- mail ------------------------------------------------------------- *)
OkStat == 0
Unreachable == 68
Unavailable == 69
InDomain(cfg, host) ==
  LET d == cfg.inet.domain IN host = "" \/ EqI(host, From(d, 2)) \/ EqI(host, d) \/ (Len(host) >= Len(d) /\ EqI(SubSeq(host, Len(host) - Len(d) + 1, Len(host)), d))
Registered(cfg, a) ==
  LET P(h) == h.node[1] = a[1] /\ h.node[2] = a[2] /\ h.node[3] = a[3] /\ (h.node[4] = a[4] \/ h.node[4] = 0)
  IN First(cfg.inet.hosts, P, [node |-> NoNode])
ZoneOk(cfg, z) == \E i \in 1..Len(cfg.inet.zones) : cfg.inet.zones[i].zone = z
(* where a recipient lives: [node, gated] *)
Denoted(cfg, host) ==
  LET a == TLCEval(FromInet(cfg.inet, host))
  IN IF a # NoNode THEN a ELSE Asc(cfg.inet, host, FALSE)
Reach(cfg, art, a) ==
  LET h == Registered(cfg, a)
  IN /\ h.node = NoNode => ~cfg.restricted
     /\ h.node # NoNode => ~h.down \/ InDomain(cfg, art.host)
     /\ ZoneOk(cfg, a[1])
ForRcpt(cfg, art, r) ==
  LET a == TLCEval(Denoted(cfg, r.host))
      ftn == a # NoNode
      gated == ~ftn /\ cfg.gateway # NoNode
      to == IF ftn THEN a ELSE cfg.gateway
      own == cfg.akas[Best(cfg, to[1])]
      nm == NameOf(r.user, r.real)
      P(x) == EqI(x.user, nm) /\ x.node = to
      al == First(cfg.aliases, P, [user |-> "", node |-> NoNode, full |-> ""])
  IN IF (ftn /\ ~Reach(cfg, art, a)) \/ (~ftn /\ ~gated) THEN [msgs |-> <<>>, status |-> Unreachable]
     ELSE IF TooBig(art, cfg.limit) THEN [msgs |-> <<>>, status |-> Unavailable]
     ELSE IF ~Allowed(cfg, "Mail", Email(art), Znp(to)) THEN [msgs |-> <<>>, status |-> OkStat]
     ELSE [msgs |-> Written(cfg, art,
                     [area |-> "", from |-> own, to |-> to, feed |-> cfg.uplinks[Best(cfg, to[1])],
                      toname |-> IF gated THEN "UUCP" ELSE IF al.node # NoNode THEN al.full ELSE IF Down(nm) = "postmaster" THEN "Sysop" ELSE nm,
                      via |-> IF gated THEN r.text ELSE ""], cfg.max),
           status |-> OkStat]
Mail(cfg, art) ==
  LET rs == TLCEval([i \in 1..Len(art.rcpt) |-> ForRcpt(cfg, art, art.rcpt[i])])
      St(s, r) == IF r.status # OkStat THEN r.status ELSE s
  IN [msgs |-> Cat([i \in 1..Len(rs) |-> rs[i].msgs]), status |-> FoldL(St, OkStat, rs)]
=============================================================================
