------------------------------ MODULE AreaFix ------------------------------
(***************************************************************************)
(* The area table (areas.bbs / fareas.bbs), what rewriting it keeps, and   *)
(* the commands that change it: Areafix/Filefix requests by mail, packet   *)
(* or command line, and the maintenance commands of ftnafutil.             *)
(*                                                                         *)
(* C: the configuration (af, passwd, uplinks, options). S: the state of a  *)
(* run [tab, chg, out, req, node, au]. Every command is a function of both.*)
(***************************************************************************)
EXTENDS Util
----------------------------------------------------------------------------
(* strings *)
LOCAL INSTANCE TLC  \* TLCEval(x) = x, evaluated at once
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
LowS == "abcdefghijklmnopqrstuvwxyz"
UpS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpMap == TLCEval([c \in Chars(LowS) |-> Ch(UpS, CHOOSE i \in 1..26 : Ch(LowS, i) = c)])
UpC(c) == IF c \in DOMAIN UpMap THEN UpMap[c] ELSE c
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE UpC(Ch(s, 1)) \o Upper(SubSeq(s, 2, Len(s)))
LowMap == TLCEval([c \in Chars(UpS) |-> Ch(LowS, CHOOSE i \in 1..26 : Ch(UpS, i) = c)])
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN ""
            ELSE (LET c == Ch(s, 1) IN IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c) \o Lower(SubSeq(s, 2, Len(s)))
SameName(a, b) == a = b \/ (Len(a) = Len(b) /\ Upper(a) = Upper(b))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* wild cards: * ? [abc] [a-c], without regard to case *)
Order == "!#$&+-.0123456789:=@" \o UpS \o "_" 
Rank(c) == IF \E i \in 1..Len(Order) : Ch(Order, i) = c THEN CHOOSE i \in 1..Len(Order) : Ch(Order, i) = c ELSE 0
RECURSIVE ClassEnd(_, _)
ClassEnd(p, i) == IF i > Len(p) \/ Ch(p, i) = "]" THEN i ELSE ClassEnd(p, i + 1)
InClass(c, cl) ==
  \E i \in 1..Len(cl) :
     \/ Ch(cl, i) = c
     \/ i + 2 <= Len(cl) /\ Ch(cl, i + 1) = "-" /\ Rank(Ch(cl, i)) <= Rank(c) /\ Rank(c) <= Rank(Ch(cl, i + 2))
RECURSIVE WM(_, _)
WM(s, p) ==
  IF p = "" THEN s = ""
  ELSE LET h == Ch(p, 1) r == SubSeq(p, 2, Len(p)) t == SubSeq(s, 2, Len(s)) IN
    CASE h = "*" -> r = "" \/ \E k \in 1..Len(s) : WM(SubSeq(s, k, Len(s)), r)
      [] h = "?" -> s # "" /\ WM(t, r)
      [] h = "[" -> LET e == ClassEnd(p, 2) IN
                    s # "" /\ InClass(Ch(s, 1), SubSeq(p, 2, e - 1)) /\ WM(t, SubSeq(p, e + 1, Len(p)))
      [] OTHER -> s # "" /\ Ch(s, 1) = h /\ WM(t, r)
Plain(p) == Chars(p) \cap {"*", "?", "["} = {}
WildMatch(s, p) == IF Plain(p) THEN SameName(s, p) ELSE WM(Upper(s), Upper(p))
IsWild(p) == ~Plain(p)
NoWild2(p) == Chars(p) \cap {"*", "?"} = {}
(* node numbers *)
NodeB(n) == ToString(n[1]) \o ":" \o ToString(n[2]) \o "/" \o ToString(n[3])
NodeP(n) == NodeB(n) \o "." \o ToString(n[4])
NodeS(n) == IF n[4] = 0 THEN NodeB(n) ELSE NodeP(n)
----------------------------------------------------------------------------
(* The table *)
(* a record as read: the zone of the first link stands in for a missing one,
   links marked P are passive as well *)
Read(r) ==
  LET ns == [i \in 1..Len(r.nodes) |-> r.nodes[i].n]
      ps == SelectSeq(r.nodes, LAMBDA x : x.p)
  IN [dir |-> r.dir, name |-> r.name, pass |-> r.pass, ro |-> r.ro, aka |-> r.aka, lvl |-> r.lvl,
      key |-> r.key, haskey |-> r.haskey, time |-> r.time, en |-> r.en, et |-> r.et,
      desc |-> r.desc, hasdesc |-> r.hasdesc, st |-> r.st, hasst |-> r.hasst, up |-> r.up,
      zone |-> IF r.zone # -1 THEN r.zone ELSE IF Len(ns) = 0 THEN 0 ELSE ns[1][1],
      passive |-> r.passive \o [i \in 1..Len(ps) |-> ps[i].n], nodes |-> ns]
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> \/ Less(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE SortN(_)
SortN(s) == IF s = <<>> THEN <<>> ELSE Insert(s[Len(s)], SortN(SubSeq(s, 1, Len(s) - 1)))
(* what a rewrite leaves of it: the first `up' links stay in front, the
   others are sorted; one link once *)
Written(a) ==
  LET u == MinN(a.up, Len(a.nodes))
  IN [a EXCEPT !.nodes = Dedup(SubSeq(@, 1, u) \o SortN(SubSeq(@, u + 1, Len(@))))]
Rewritten(tab) == [i \in 1..Len(tab) |-> Written(tab[i])]
(* states *)
HasSt(a, c) == a.hasst /\ c \in Chars(a.st)
RECURSIVE Strip(_, _)
Strip(s, cs) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in cs THEN "" ELSE Ch(s, 1)) \o Strip(SubSeq(s, 2, Len(s)), cs)
ChState(a, old, new) ==
  IF ~a.hasst \/ a.st = "" THEN [a EXCEPT !.st = new, !.hasst = TRUE]
  ELSE IF new \in Chars(a.st) THEN a
  ELSE [a EXCEPT !.st = Strip(@, old) \o new]
RemoveFirst(s, x) ==
  LET k == IndexOf(s, LAMBDA y : y = x)
  IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Lookup(tab, name) == IndexOf(tab, LAMBDA a : SameName(a.name, name))
Say(S, l) == [S EXCEPT !.out = Append(@, l)]
Say2(S, l, m) == [S EXCEPT !.out = @ \o <<l, m>>]
Put(S, i, a) == [S EXCEPT !.tab[i] = a, !.chg = TRUE]
Kill(S, i) == [S EXCEPT !.tab = DropAt(@, i), !.chg = TRUE]
----------------------------------------------------------------------------
(* Rights *)
NoAuth(n) == [ok |-> FALSE, lvl |-> 1, key |-> "", g |-> -1, a |-> -1, node |-> n]
Entry(C, n) == First(C.passwd, LAMBDA p : p.ctx = C.ctx /\ p.node = n, [ctx |-> ""])
(* pw "" = none given; a trusted caller needs none *)
Auth(C, n, pw, trusted) ==
  LET e == Entry(C, n)
      ok == trusted \/ (e.ctx # "" /\ pw # "" /\ SameName(pw, e.pw))
  IN IF e.ctx = "" THEN [NoAuth(n) EXCEPT !.ok = ok]
     ELSE [ok |-> ok, lvl |-> e.lvl, key |-> e.key, g |-> e.g, a |-> e.a, node |-> n]
May(S, right) == right \in Chars(S.au.key)
----------------------------------------------------------------------------
(* Uplinks *)
FixName(C) == IF C.fixname = "" THEN C.robot ELSE C.fixname
LineGet(C, n) == First(C.uplinks, LAMBDA u : u.af = C.af /\ u.node = n, [af |-> C.af, node |-> NoNode, robot |-> "", pw |-> "", opts |-> <<>>])
HasLine(C, n) == \E i \in 1..Len(C.uplinks) : C.uplinks[i].af = C.af /\ C.uplinks[i].node = n
Ask(C, S, u, to, sign, area) ==
  [S EXCEPT !.req = Append(@, [to |-> to, name |-> u.robot, from |-> FixName(C), subj |-> u.pw, text |-> sign \o area])]
(* which area names the uplink entries offer for a request: a plain name is
   looked for in the patterns, patterns are offered the names *)
RECURSIVE OfferedIn(_, _, _, _)
(* the entries of one list; stops behind an exclusion of a plain name *)
OfferedIn(list, area, wc, acc) ==
  IF list = <<>> THEN acc
  ELSE LET p == Head(list)
           m == IF wc THEN WildMatch(p.pat, area) ELSE WildMatch(area, p.pat)
       IN IF p.neg THEN (IF m /\ ~wc THEN acc ELSE OfferedIn(Tail(list), area, wc, acc))
          ELSE IF m /\ ~wc THEN <<p.pat>>
          ELSE OfferedIn(Tail(list), area, wc, IF m THEN Append(acc, p.pat) ELSE acc)
RECURSIVE OfferedBy(_, _, _)
(* items of one entry: a pattern or a file of them; an excluding pattern ends
   the entry, an excluding line only its file *)
OfferedBy(items, area, wc) ==
  IF items = <<>> THEN <<>>
  ELSE LET it == Head(items) IN
    IF it.file
    THEN LET o == OfferedIn(it.list, area, wc, <<>>)
         IN IF o # <<>> /\ ~wc THEN o ELSE o \o OfferedBy(Tail(items), area, wc)
    ELSE LET m == IF wc THEN WildMatch(it.pat, area) ELSE WildMatch(area, it.pat)
         IN IF it.neg THEN (IF m /\ ~wc THEN <<>> ELSE OfferedBy(Tail(items), area, wc))
            ELSE IF m /\ ~wc THEN <<it.pat>>
            ELSE (IF m THEN <<it.pat>> ELSE <<>>) \o OfferedBy(Tail(items), area, wc)
RECURSIVE OffersFrom(_, _, _, _)
OffersFrom(C, us, area, wc) ==
  IF us = <<>> THEN <<>>
  ELSE LET u == Head(us)
           o == IF u.af # C.af THEN <<>> ELSE OfferedBy(u.items, area, wc)
           l == [i \in 1..Len(o) |-> [name |-> o[i], u |-> u]]
       IN IF ~wc /\ l # <<>> THEN <<l[1]>> ELSE l \o OffersFrom(C, Tail(us), area, wc)
Offers(C, area) == OffersFrom(C, C.uplinks, area, IsWild(area))
----------------------------------------------------------------------------
(* NEW *)
NewArea(C, name, node) ==
  [dir |-> "-", name |-> Upper(name), pass |-> FALSE, ro |-> FALSE, aka |-> NoNode, lvl |-> -1, key |-> "", haskey |-> FALSE,
   time |-> C.now, en |-> 0, et |-> 0, desc |-> "", hasdesc |-> FALSE, st |-> "", hasst |-> FALSE, up |-> 1,
   zone |-> node[1], passive |-> <<>>, nodes |-> <<>>]
RECURSIVE NewOpts(_, _, _, _)
NewOpts(C, a, ws, inter) ==
  IF ws = <<>> THEN a
  ELSE LET o == ws[1] r == Tail(ws)
           v == IF r = <<>> THEN "" ELSE r[1]
           r2 == IF r = <<>> THEN <<>> ELSE Tail(r)
           priv == inter \/ ~C.ignoreprl
       IN CASE o \in {"-#", "-p"} /\ priv -> NewOpts(C, [a EXCEPT !.pass = TRUE], r, inter)
            [] o = "-r" /\ priv -> NewOpts(C, [a EXCEPT !.ro = TRUE], r, inter)
            [] o = "-l" /\ priv -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.lvl = C.num[v]], r2, inter)
            [] o = "-k" -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.key = v, !.haskey = TRUE], r2, inter)
            [] o = "-d" -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.desc = v, !.hasdesc = TRUE], r2, inter)
            [] o = "-z" -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.zone = C.num[v]], r2, inter)
            [] o = "-a" -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.aka = C.addr[v]], r2, inter)
            [] o = "-s" -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.st = v, !.hasst = TRUE], r2, inter)
            [] o = "-e" -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.en = C.num[v]], r2, inter)
            [] o = "-n" -> IF r = <<>> THEN a ELSE NewOpts(C, [a EXCEPT !.et = C.num[v]], r2, inter)
            [] OTHER -> NewOpts(C, a, r, inter)
Forbidden(C, name) == \E i \in 1..Len(C.forbid) : WildMatch(name, C.forbid[i])
(* inter: on behalf of a forwarded request; [S, ok] *)
New(C, S, node, ws, inter) ==
  IF ~S.au.ok \/ ~(May(S, "$") \/ (inter /\ May(S, "&")))
  THEN [S |-> Say(S, "Command not authorized."), ok |-> TRUE]
  ELSE IF ws = <<>> \/ ws[1] = "" THEN [S |-> Say(S, "Command NEW: missing area name."), ok |-> TRUE]
  ELSE LET name == ws[1] IN
    IF Lookup(S.tab, name) # 0
    THEN [S |-> Say2(S, name \o ": area already exists,", "can't create new one."), ok |-> TRUE]
    ELSE IF Chars(name) \cap Chars(C.badchars) # {}
    THEN [S |-> Say(S, name \o ": have forbidden char, can't create."), ok |-> FALSE]
    ELSE IF Forbidden(C, name)
    THEN [S |-> Say(S, name \o ": forbidden area, can't create."), ok |-> TRUE]
    ELSE LET o == NewOpts(C, NewArea(C, name, node), Tail(ws), inter)
             a1 == IF o.hasst THEN o ELSE [o EXCEPT !.st = "S", !.hasst = TRUE]
             noname == ~C.af /\ ~a1.pass /\ ("/" \in Chars(name) \/ name \in {".", ".."})
             a == [a1 EXCEPT !.nodes = <<node>> \o C.autosub,
                             !.dir = IF C.af \/ a1.pass THEN "-" ELSE C.fechopath \o "/" \o Lower(name)]
         IN IF ~C.af /\ ~a1.pass /\ C.fechopath = "" THEN [S |-> S, ok |-> FALSE]
            ELSE IF noname THEN [S |-> Say(S, Upper(name) \o ": have forbidden char, can't create."), ok |-> FALSE]
            ELSE [S |-> Say([S EXCEPT !.tab = Append(@, a), !.chg = TRUE], a.name \o ": created"), ok |-> TRUE]
----------------------------------------------------------------------------
(* SUBSCRIBE *)
Linked(a, n) == In(n, a.nodes)
Passive(a, n) == In(n, a.passive)
Counts(a, n) == Passive(a, n) \/ (Len(a.nodes) > 1 /\ Linked(a, n))
Total(S, n) == Cardinality({i \in 1..Len(S.tab) : Counts(S.tab[i], n)})
FromUplink(S, n, u) == Cardinality({i \in 1..Len(S.tab) : Counts(S.tab[i], n) /\ Linked(S.tab[i], u)})
LevelOK(S, a) == a.lvl <= S.au.lvl
KeyAny(S, a) == a.haskey => Chars(a.key) \cap Chars(S.au.key) # {}
KeyAll(S, a) == a.haskey => Chars(a.key) \subseteq Chars(S.au.key)
FarZone(a, n) == a.zone # n[1] /\ (a.zone > 6 \/ n[1] > 6)
DeadSay(S, i) == Kill(Say(S, S.tab[i].name \o ": no uplink, dead area"), i)
(* one matching area; fwd: on behalf of a forwarded request *)
(* [S, i: where to go on, no: refused] *)
SubOne(C, S, i, n, fwd) ==
  LET a == S.tab[i]
      nm == a.name
      refuse(T) == [S |-> T, i |-> i + 1, no |-> TRUE]
      next(T) == [S |-> T, i |-> i + 1, no |-> FALSE]
  IN IF ~LevelOK(S, a) THEN refuse(Say(S, nm \o ": access denied (level)"))
     ELSE IF ~KeyAny(S, a) THEN refuse(Say(S, nm \o ": access denied (key)"))
     ELSE IF Linked(a, n)
     THEN next(IF Passive(a, n) THEN Say(Put(S, i, [a EXCEPT !.passive = RemoveFirst(@, n)]), nm \o ": set active")
               ELSE Say(S, nm \o ": already active"))
     ELSE IF S.au.g > 0 /\ S.au.g <= Total(S, n)
     THEN refuse(Say(S, nm \o ": access denied (general limit " \o ToString(Total(S, n)) \o ")"))
     ELSE IF S.au.a > 0 /\ a.nodes # <<>> /\ S.au.a <= FromUplink(S, n, a.nodes[1])
     THEN refuse(Say2(S, nm \o ": access denied",
                      "(limit for uplink " \o NodeP(a.nodes[1]) \o " = " \o ToString(FromUplink(S, n, a.nodes[1])) \o ")"))
     ELSE IF C.af /\ a.zone # n[1] /\ a.zone = 0 THEN [S |-> DeadSay(S, i), i |-> i, no |-> FALSE]
     ELSE IF C.af /\ FarZone(a, n)
     THEN refuse(Say(S, nm \o ": different zone (Z" \o ToString(a.zone) \o "), not added"))
     ELSE IF a.nodes = <<>> THEN [S |-> DeadSay(S, i), i |-> i, no |-> FALSE]
     ELSE LET u == a.nodes[1]
              b == [a EXCEPT !.nodes = Append(@, n), !.passive = RemoveFirst(@, n)]
              T == Say(Put(S, i, b), nm \o ": subscribed")
          IN IF HasSt(a, "U") \/ HasSt(a, "P")
             THEN IF HasLine(C, u)
                  THEN next(Say(Ask(C, Put(T, i, [ChState(b, {"U", "P"}, "W") EXCEPT !.time = C.now]), LineGet(C, u), u, "+", Upper(nm)),
                                "(this area is currently not subscribed at uplink " \o NodeS(u) \o ")"))
                  ELSE [next(Say2(T, "Please forward this message to sysop:",
                                  "no entry for uplink " \o NodeS(u) \o " in uplink config file")) EXCEPT !.no = TRUE]
             ELSE IF HasSt(a, "W")
             THEN next(Say(T, "(this area subscribed at uplink " \o NodeS(u) \o ", but no traffic yet)"))
             ELSE IF HasSt(a, "F") /\ ~fwd
             THEN next(Say(T, "(this area requested from uplink " \o NodeS(u) \o ", but no traffic yet)"))
             ELSE next(T)
RECURSIVE SubLoop(_, _, _, _, _, _, _)
(* -> [S, hit: how many areas matched, no] *)
SubLoop(C, S, i, n, pat, fwd, hit) ==
  IF i > Len(S.tab) \/ (hit > 0 /\ ~IsWild(pat)) THEN [S |-> S, hit |-> hit, no |-> FALSE]
  ELSE IF ~WildMatch(S.tab[i].name, pat) THEN SubLoop(C, S, i + 1, n, pat, fwd, hit)
  ELSE LET r == SubOne(C, S, i, n, fwd)
       IN IF r.no /\ fwd THEN [S |-> r.S, hit |-> hit + 1, no |-> TRUE]
          ELSE SubLoop(C, r.S, r.i, n, pat, fwd, hit + 1)
Internal(S, name) == Say2(S, name \o ": internal areafix error (can't create area)", "Please forward this message to sysop")
RECURSIVE Forward(_, _, _, _, _)
(* ask the uplinks that offer it for an area; -> [S, hit] *)
Forward(C, S, os, n, hit) ==
  IF os = <<>> THEN [S |-> S, hit |-> hit]
  ELSE LET o == Head(os)
           r == New(C, S, o.u.node, <<o.name>> \o o.u.opts, TRUE)
           N == [r.S EXCEPT !.out = S.out]         \* what New says goes to the log
           k == Lookup(N.tab, o.name)
       IN IF Lookup(S.tab, o.name) # 0 \/ IsWild(o.name) THEN Forward(C, S, Tail(os), n, hit)
          ELSE IF ~r.ok \/ k = 0 THEN Forward(C, Internal(S, o.name), Tail(os), n, hit + 1)
          ELSE LET T == Put(N, k, ChState(N.tab[k], {"S"}, "F"))
                   sb == SubLoop(C, T, 1, n, T.tab[k].name, TRUE, 0)
               IN IF sb.no THEN Forward(C, Kill(sb.S, Lookup(sb.S.tab, o.name)), Tail(os), n, hit + 1)
                  ELSE Forward(C, Say(Ask(C, sb.S, o.u, o.u.node, "+", Upper(o.name)),
                                      "Request forwarded to uplink: " \o NodeP(o.u.node)), Tail(os), n, hit + 1)
Sub(C, S, n, pat) ==
  IF ~S.au.ok THEN Say(S, "Command SUBSCRIBE: not authorized.")
  ELSE LET l == SubLoop(C, S, 1, n, pat, FALSE, 0) IN
    IF l.hit > 0 /\ ~IsWild(pat) THEN l.S
    ELSE IF ~May(S, "&") THEN Say(l.S, pat \o ": forward request not authorized")
    ELSE LET f == Forward(C, l.S, Offers(C, pat), n, l.hit)
         IN IF f.hit = 0 THEN Say2(f.S, pat \o ": no such area, or no area matching pattern",
                                   "No uplink found to forward this request")
            ELSE IF IsWild(pat) THEN Say(f.S, "* " \o ToString(f.hit) \o " areas requested from pattern " \o pat)
            ELSE f.S
----------------------------------------------------------------------------
(* UNSUBSCRIBE *)
UnsubOne(C, S, i, n, pat) ==
  LET a == S.tab[i]
      next(T) == [S |-> T, i |-> i + 1]
      gone(T) == [S |-> T, i |-> i]
  IN IF a.nodes = <<>> THEN gone(DeadSay(S, i))
     ELSE IF ~Linked(a, n)
     THEN next(IF (~C.af \/ a.zone = n[1]) /\ NoWild2(pat) THEN Say(S, a.name \o ": not subscribed") ELSE S)
     ELSE LET b == [a EXCEPT !.nodes = RemoveFirst(@, n), !.passive = RemoveFirst(@, n)]
              T == Say(Put(S, i, b), a.name \o ": unsubscribed")
          IN IF a.pass /\ Len(b.nodes) = 1
             THEN IF HasLine(C, b.nodes[1])
                  THEN next(Ask(C, Put(T, i, ChState(b, {"S", "W", "F"}, "U")), LineGet(C, b.nodes[1]), b.nodes[1], "-", Upper(a.name)))
                  ELSE gone(Kill(T, i))
             ELSE IF a.pass /\ b.nodes = <<>> THEN gone(Kill(T, i))
             ELSE next(T)
RECURSIVE UnsubLoop(_, _, _, _, _, _)
UnsubLoop(C, S, i, n, pat, hit) ==
  IF i > Len(S.tab) THEN [S |-> S, hit |-> hit]
  ELSE IF ~WildMatch(S.tab[i].name, pat) THEN UnsubLoop(C, S, i + 1, n, pat, hit)
  ELSE LET r == UnsubOne(C, S, i, n, pat) IN UnsubLoop(C, r.S, r.i, n, pat, TRUE)
Unsub(C, S, n, pat) ==
  IF ~S.au.ok THEN Say(S, "Command UNSUBSCRIBE: not authorized.")
  ELSE LET l == UnsubLoop(C, S, 1, n, pat, FALSE)
       IN IF l.hit THEN l.S
          ELSE IF NoWild2(pat) THEN Say(l.S, pat \o ": no such area")
          ELSE Say(l.S, pat \o ": no area matching pattern")
----------------------------------------------------------------------------
(* DELETE, PASSIVE, ACTIVE *)
RECURSIVE DelLoop(_, _, _, _)
DelLoop(S, i, pat, hit) ==
  IF i > Len(S.tab) THEN [S |-> S, hit |-> hit]
  ELSE IF WildMatch(S.tab[i].name, pat) THEN DelLoop(Kill(Say(S, pat \o ": delete"), i), i, pat, TRUE)
  ELSE DelLoop(S, i + 1, pat, hit)
Delete(S, pat) ==
  IF ~S.au.ok \/ ~May(S, "~") THEN Say(S, "Command DELETE: not authorized.")
  ELSE LET l == DelLoop(S, 1, pat, FALSE)
       IN IF l.hit THEN l.S ELSE Say(S, pat \o ": area does not exist, can't delete")
PassOne(C, S, i, n) ==
  LET a == S.tab[i]
      last == Len(a.nodes) <= 2
      u == a.nodes[1]
      b == [a EXCEPT !.nodes = RemoveFirst(@, n), !.passive = Append(@, n)]
      c == IF ~last THEN b
           ELSE LET t == [b EXCEPT !.time = C.now]
                IN IF HasSt(t, "W") \/ HasSt(t, "F") \/ HasSt(t, "S") THEN ChState(t, {"W", "F", "S"}, "P") ELSE t
  IN IF ~Linked(a, n) \/ Len(a.nodes) <= 1 \/ Passive(a, n) THEN S
     ELSE IF last /\ ~HasLine(C, u) THEN S
     ELSE Say(Put(IF last THEN Ask(C, S, LineGet(C, u), u, "-", Upper(a.name)) ELSE S, i, c), a.name \o ": set passive")
ActOne(C, S, i, n) ==
  LET a == S.tab[i]
      ask == Len(a.nodes) = 1 /\ a.nodes[1] # n
      u == a.nodes[1]
      b == [a EXCEPT !.nodes = Append(@, n), !.passive = RemoveFirst(@, n)]
      c == IF ask /\ (HasSt(b, "P") \/ HasSt(b, "U")) THEN ChState(b, {"P", "U"}, "W") ELSE b
  IN IF Passive(a, n)
     THEN IF Linked(a, n) THEN S
          ELSE IF ask /\ ~HasLine(C, u) THEN S
          ELSE Say(Put(IF ask THEN Ask(C, S, LineGet(C, u), u, "+", Upper(a.name)) ELSE S, i, c), a.name \o ": set active")
     ELSE IF Linked(a, n) THEN Say(S, a.name \o ": already active") ELSE S
Touches(a, pat) == pat = "" \/ WildMatch(a.name, pat)
RECURSIVE PassLoop(_, _, _, _, _)
PassLoop(C, S, i, n, pat) ==
  IF i > Len(S.tab) THEN S
  ELSE PassLoop(C, IF Touches(S.tab[i], pat) THEN PassOne(C, S, i, n) ELSE S, i + 1, n, pat)
RECURSIVE ActLoop(_, _, _, _, _)
ActLoop(C, S, i, n, pat) ==
  IF i > Len(S.tab) THEN S
  ELSE ActLoop(C, IF Touches(S.tab[i], pat) THEN ActOne(C, S, i, n) ELSE S, i + 1, n, pat)
PassiveCmd(C, S, n, pat) == IF ~S.au.ok THEN Say(S, "Command PASSIVE: not authorized.") ELSE PassLoop(C, S, 1, n, pat)
ActiveCmd(C, S, n, pat) == IF ~S.au.ok THEN Say(S, "Command ACTIVE: not authorized.") ELSE ActLoop(C, S, 1, n, pat)
----------------------------------------------------------------------------
(* the lists *)
Mark(a, n) == IF ~Linked(a, n) THEN "" ELSE IF Passive(a, n) THEN "P " ELSE "* "
Item(pre, a) == pre \o a.name \o (IF ~a.hasdesc THEN "" ELSE IF a.desc = "" THEN ":" ELSE ": " \o a.desc)
Legend == <<"* = linked to this area", "P = passive mode (write only)">>
SayAll(S, ls) == [S EXCEPT !.out = @ \o ls]
Pick(tab, P(_), F(_)) == LET s == SelectSeq(tab, P) IN [i \in 1..Len(s) |-> F(s[i])]
Listed(C, S, n, a, avail) ==
  \/ Linked(a, n)
  \/ /\ LevelOK(S, a) /\ KeyAll(S, a) /\ ~FarZone(a, n)
     /\ a.hasst /\ ~HasSt(a, "U")
     /\ ~avail => ~HasSt(a, "W") /\ (HasSt(a, "F") => C.fstatus)
     /\ (avail /\ ~C.availall) => ~HasSt(a, "W") /\ ~HasSt(a, "F")
List(C, S, n, avail) ==
  IF ~S.au.ok THEN Say(S, "Command LIST: not authorized.")
  ELSE SayAll(S, <<"Areas available to " \o NodeS(n) \o ":">>
         \o (IF ~avail THEN <<"(currently subscribed from uplinks)">>
             ELSE IF ~C.availall THEN <<"(currently not subscribed from uplinks)">> ELSE <<>>)
         \o Pick(S.tab, LAMBDA a : Listed(C, S, n, a, avail), LAMBDA a : Item(Mark(a, n), a))
         \o Legend)
Query(S, n) ==
  IF ~S.au.ok THEN Say(S, "Command QUERY: not authorized.")
  ELSE SayAll(S, <<NodeS(n) \o " is linked to the following areas:">>
         \o Pick(S.tab, LAMBDA a : Linked(a, n), LAMBDA a : (IF Passive(a, n) THEN "P " ELSE "") \o a.name)
         \o <<Legend[2]>>)
Unlinked(C, S, n) ==
  IF ~S.au.ok THEN Say(S, "Command UNLINKED: not authorized.")
  ELSE SayAll(S, <<NodeS(n) \o " is not linked to the following available areas:">>
         \o Pick(S.tab, LAMBDA a : LevelOK(S, a) /\ KeyAll(S, a) /\ (C.af => a.zone = n[1]) /\ ~Linked(a, n), LAMBDA a : a.name))
(* names offered by uplinks that the table does not have *)
RECURSIVE FileOffers(_, _, _)
FileOffers(list, z, known) ==
  IF list = <<>> THEN [ls |-> <<>>, known |-> known]
  ELSE LET p == Head(list)
           hit == Upper(p.raw) \in known
           r == FileOffers(Tail(list), z, IF hit THEN known ELSE known \cup {Upper(p.raw)})
       IN IF hit THEN r
          ELSE [r EXCEPT !.ls = <<"Z" \o ToString(z) \o " " \o Upper(p.raw) \o (IF p.desc = "" THEN "" ELSE ": " \o p.desc)>> \o @]
RECURSIVE ItemOffers(_, _, _)
ItemOffers(items, z, known) ==
  IF items = <<>> THEN [ls |-> <<>>, known |-> known]
  ELSE LET it == Head(items)
           f == IF IsWild(it.raw) THEN [ls |-> <<>>, known |-> known]
                ELSE IF it.file THEN FileOffers(it.list, z, known)
                ELSE [ls |-> <<"Z" \o ToString(z) \o " " \o it.raw>>, known |-> known]
           r == ItemOffers(Tail(items), z, f.known)
       IN [r EXCEPT !.ls = f.ls \o @]
RECURSIVE AllOffers(_, _, _)
AllOffers(C, us, known) ==
  IF us = <<>> THEN <<>>
  ELSE IF Head(us).af # C.af THEN AllOffers(C, Tail(us), known)
  ELSE LET f == ItemOffers(Head(us).items, Head(us).node[1], known)
       IN <<"Areas from uplink " \o NodeP(Head(us).node)>> \o f.ls \o AllOffers(C, Tail(us), f.known)
ListAll(C, S, n) ==
  IF ~S.au.ok \/ ~May(S, "%") THEN Say(S, "Command LISTALL: not authorized.")
  ELSE SayAll(S, <<"ALL available areas:">>
         \o [i \in 1..Len(S.tab) |-> Item(Mark(S.tab[i], n) \o "Z" \o ToString(S.tab[i].zone) \o " ", S.tab[i])]
         \o AllOffers(C, C.uplinks, {S.tab[i].name : i \in 1..Len(S.tab)})
         \o Legend)
Help(C, S) == SayAll(S, IF C.hashelp THEN C.help ELSE <<"Sorry, no help available.">>)
(* PASSWD: go on as another node *)
Passwd(C, S, ws) ==
  LET off == [S EXCEPT !.au.ok = FALSE] IN
  IF ws = <<>> THEN Say(off, "Command PASSWORD: missing Z:N/F.P address.")
  ELSE IF ws[1] \notin DOMAIN C.addr THEN Say(off, "Command PASSWORD: illegal address " \o ws[1] \o ".")
  ELSE LET n == C.addr[ws[1]] IN
    IF Len(ws) = 1 THEN Say([off EXCEPT !.node = n], "Command PASSWORD: no password given!")
    ELSE LET T == [S EXCEPT !.node = n, !.au = Auth(C, n, ws[2], FALSE)]
         IN IF T.au.ok THEN T ELSE Say(T, "Command PASSWORD: authorization for " \o NodeP(n) \o " failed.")
----------------------------------------------------------------------------
(* One line: [pct, sign, word, arg, plain, full, ws (words of arg), pws] *)
Command(C, S, l) ==
  LET n == S.node IN
  CASE l.sign = "+" -> Sub(C, S, n, l.arg)
    [] l.sign = "-" -> Unsub(C, S, n, l.arg)
    [] l.sign = "&" -> New(C, S, n, l.ws, FALSE).S
    [] l.sign = "~" -> Delete(S, l.arg)
    [] OTHER ->
       CASE l.word = "list" -> List(C, S, n, FALSE)
         [] l.word = "avail" -> List(C, S, n, TRUE)
         [] l.word = "query" -> Query(S, n)
         [] l.word = "unlinked" -> Unlinked(C, S, n)
         [] l.word \in {"subscribe", "sub"} -> Sub(C, S, n, l.arg)
         [] l.word \in {"unsubscribe", "unsub"} -> Unsub(C, S, n, l.arg)
         [] l.word = "help" -> Help(C, S)
         [] l.word \in {"passwd", "password", "from"} -> Passwd(C, S, l.pws)
         [] l.word = "listall" -> ListAll(C, S, n)
         [] l.word \in {"new", "create"} -> New(C, S, n, l.ws, FALSE).S
         [] l.word = "delete" -> Delete(S, l.arg)
         [] l.word \in {"passive", "pause"} -> PassiveCmd(C, S, n, l.arg)
         [] l.word \in {"active", "resume"} -> ActiveCmd(C, S, n, l.arg)
         [] OTHER -> IF l.pct THEN Say(S, "Unknown command %" \o l.plain)
                     ELSE IF C.onlyplus THEN Say(S, "Unknown command " \o l.plain)
                     ELSE Sub(C, S, n, l.full)
RECURSIVE Lines(_, _, _)
Lines(C, S, ls) ==
  IF ls = <<>> THEN S
  ELSE LET l == Head(ls) IN
    IF Starts(l.raw, " * ") THEN Lines(C, S, Tail(ls))
    ELSE IF Starts(l.raw, "--") THEN S
    ELSE IF l.blank THEN Lines(C, S, Tail(ls))
    ELSE Lines(C, Command(C, S, l), Tail(ls))
Begin(tab, n) == [tab |-> tab, chg |-> FALSE, out |-> <<>>, req |-> <<>>, node |-> n, au |-> NoAuth(n)]
(* a message: node, words of the subject, lines *)
Mail(C, S0, m) ==
  LET S == [S0 EXCEPT !.node = m.node, !.out = <<>>, !.req = <<>>,
                      !.au = Auth(C, m.node, IF m.subj = <<>> THEN "" ELSE m.subj[1], FALSE)]
      opt(o) == \E k \in 2..Len(m.subj) : Upper(m.subj[k]) = o
      Q == IF opt("-Q") THEN Query(S, m.node) ELSE S
      L == IF opt("-L") THEN List(C, Q, m.node, FALSE) ELSE Q
  IN Lines(C, L, m.lines)
(* the command line: nobody asks for a password, the rights are the node's *)
Line(C, tab, n, l) == Command(C, [Begin(tab, n) EXCEPT !.au = Auth(C, n, "", TRUE)], l)
(* requests with the same addressee, names and password make one message *)
Head4(q) == [to |-> q.to, name |-> q.name, from |-> q.from, subj |-> q.subj]
RECURSIVE Grouped(_)
Grouped(rs) ==
  IF rs = <<>> THEN <<>>
  ELSE LET h == Head4(rs[1])
           same == SelectSeq(rs, LAMBDA q : Head4(q) = h)
           rest == SelectSeq(rs, LAMBDA q : Head4(q) # h)
       IN <<[h |-> h, lines |-> [i \in 1..Len(same) |-> same[i].text]]>> \o Grouped(rest)
----------------------------------------------------------------------------
(* ftnafutil *)
Days(C, a) == (C.now - a.time) \div 86400
Notify(C, S, to, area, why, days, from) ==
  [S EXCEPT !.req = Append(@, [to |-> to, name |-> "Sysop", from |-> from, subj |-> "Notify",
     text |-> "You are unsubscribed from area " \o area \o " Reason: " \o why \o " " \o ToString(days) \o " day(s)"])]
RECURSIVE NotifyAll(_, _, _, _, _, _)
NotifyAll(C, S, ns, area, why, days) ==
  IF ns = <<>> THEN S ELSE NotifyAll(C, Notify(C, S, ns[1], area, why, days, FixName(C)), Tail(ns), area, why, days)
ExpireOne(C, S, i) ==
  LET a == S.tab[i]
      tm == Days(C, a)
      u == a.nodes[1]
      late(x) == a.time # 0 /\ ((x[1] # 0 /\ x[1] < tm) \/ (x[2] > 0 /\ x[2] < tm))
      A == Ask(C, S, LineGet(C, u), u, "-", a.name)
      off(old) == [ChState(a, old, "U") EXCEPT !.nodes = <<u>>, !.time = C.now]
  IN IF a.nodes = <<>> THEN [S |-> S, i |-> i + 1]
     ELSE IF (HasSt(a, "F") \/ HasSt(a, "W")) /\ late(<<C.reqtmo, a.et>>)
     THEN IF ~HasLine(C, u) THEN [S |-> S, i |-> i + 1]
          ELSE LET N == NotifyAll(C, A, Tail(a.nodes), a.name, "request is timed out in", tm)
               IN IF HasSt(a, "F") THEN [S |-> Kill(N, i), i |-> i]
                  ELSE [S |-> Put(N, i, off({"W"})), i |-> i + 1]
     ELSE IF HasSt(a, "S") /\ late(<<C.traftmo, a.en>>)
     THEN IF ~HasLine(C, u) THEN [S |-> S, i |-> i + 1]
          ELSE [S |-> Put(NotifyAll(C, A, Tail(a.nodes), a.name, "no traffic for", tm), i, off({"S"})), i |-> i + 1]
     ELSE IF HasSt(a, "S") /\ Len(a.nodes) < 2 /\ a.pass /\ HasLine(C, u)
     THEN [S |-> Put(A, i, off({"S"})), i |-> i + 1]
     ELSE [S |-> S, i |-> i + 1]
RECURSIVE Expire(_, _, _)
Expire(C, S, i) == IF i > Len(S.tab) THEN S ELSE LET r == ExpireOne(C, S, i) IN Expire(C, r.S, r.i)
RECURSIVE Clean(_, _)
Clean(S, i) ==
  IF i > Len(S.tab) THEN S
  ELSE IF S.tab[i].nodes = <<>> \/ HasSt(S.tab[i], "U") THEN Clean(Kill(S, i), i)
  ELSE Clean(S, i + 1)
Asked(a) == HasSt(a, "S") \/ HasSt(a, "F") \/ HasSt(a, "W")
RECURSIVE Resub(_, _, _, _)
Resub(C, S, i, un) ==
  IF i > Len(S.tab) THEN S
  ELSE LET a == S.tab[i]
           ok == a.nodes # <<>> /\ HasLine(C, a.nodes[1])
           u == LineGet(C, a.nodes[1])
           T == IF un THEN Ask(C, S, u, a.nodes[1], "-", a.name) ELSE S
       IN IF ~ok THEN Resub(C, S, i + 1, un)
          ELSE IF Asked(a) \/ (~un /\ ~a.hasst)
          THEN Resub(C, Ask(C, Put(T, i, [a EXCEPT !.time = C.now]), u, a.nodes[1], "+", a.name), i + 1, un)
          ELSE Resub(C, T, i + 1, un)
OwnFor(C, z) == First(C.akas, LAMBDA x : x[1] = z, C.akas[1])
Util(C, tab, cmd) ==
  LET S == Begin(tab, NoNode) IN
  CASE cmd = "delete" -> Clean(S, 1)
    [] cmd = "expire" -> Expire(C, S, 1)
    [] cmd = "resubscribe" -> Resub(C, S, 1, FALSE)
    [] cmd = "unresubscribe" -> Resub(C, S, 1, TRUE)
    [] cmd = "listgwlinks" ->
       [S EXCEPT !.out = [i \in 1..Len(tab) |-> LET a == tab[i] IN
          a.name \o " " \o (IF a.nodes = <<>> THEN "-" ELSE NodeP(a.nodes[1])) \o " "
          \o ToString(Len(a.nodes) - (IF a.nodes # <<>> /\ a.nodes[1] = OwnFor(C, a.zone) THEN 1 ELSE 0))]]
=============================================================================
