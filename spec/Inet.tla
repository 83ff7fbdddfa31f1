-------------------------------- MODULE Inet --------------------------------
(***************************************************************************)
(* Fidonet addresses and Internet host names (src/common/address.c,        *)
(* hosts.c, node.c, parsenode.c).                                          *)
(*                                                                         *)
(* A configuration C is a record                                           *)
(*   hostname, domain, hostsdomain   our own host name and domains (with   *)
(*                                   their leading dot)                    *)
(*   zones    sequence of [zone, dom]; zone 0 is the default line          *)
(*   defzone  the zone of our main address                                 *)
(*   hosts    sequence of [node, name, point]: the HOSTS table, name "-"   *)
(*            for registered nodes without a name, full names otherwise;   *)
(*            point: the -p option                                         *)
(* An address is <<zone, net, node, point>>, NoNode is no address.         *)
(***************************************************************************)
EXTENDS Addr

Top == 65535                        \* the largest number of an address

(* ---- characters ------------------------------------------------------- *)
Chr(s, i) == SubSeq(s, i, i)
DownOf == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i"
          , J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r"
          , S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
DigitOf == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DownC(c) == IF c \in DOMAIN DownOf THEN DownOf[c] ELSE c
RECURSIVE Down(_)
Down(s) == IF s = "" THEN "" ELSE DownC(Chr(s, 1)) \o Down(SubSeq(s, 2, Len(s)))
From(s, i) == SubSeq(s, i, Len(s))
Ends(s, e) == Len(s) > Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e

(* ---- numbers ---------------------------------------------------------- *)
(* the number at position i of s: [v, at] with the position behind it; v is *)
(* -1 when there is none or none that fits, Wild for * and "all"            *)
RECURSIVE DigitsAt(_, _, _)
DigitsAt(s, i, acc) ==
  IF i > Len(s) \/ ~IsDigit(Chr(s, i)) THEN [v |-> acc, at |-> i]
  ELSE LET a == acc * 10 + DigitOf[Chr(s, i)]
       IN IF a > Top THEN [v |-> -1, at |-> i] ELSE DigitsAt(s, i + 1, a)
NumAt(s, i) ==
  IF i > Len(s) THEN [v |-> -1, at |-> i]
  ELSE IF Chr(s, i) = "*" THEN [v |-> Wild, at |-> i + 1]
  ELSE IF i + 2 <= Len(s) /\ Down(SubSeq(s, i, i + 2)) = "all" THEN [v |-> Wild, at |-> i + 3]
  ELSE IF ~IsDigit(Chr(s, i)) THEN [v |-> -1, at |-> i]
  ELSE DigitsAt(s, i, 0)

(* ---- Z:N/F.P ---------------------------------------------------------- *)
BadAddr == <<"bad">>
(* the written components, Empty where missing; BadAddr when unreadable.    *)
(* A number, then ":" number, "/" number, "." number, each optional but in  *)
(* this order; the first number is what the first separator makes of it.    *)
RECURSIVE Parts(_, _, _, _)
Parts(s, i, a, k) ==        \* k: the next component that may follow
  IF i > Len(s) THEN a
  ELSE IF Chr(s, i) = "@" THEN a
  ELSE LET sep == CASE Chr(s, i) = ":" -> 2 [] Chr(s, i) = "/" -> 3
                   [] Chr(s, i) = "." -> 4 [] OTHER -> 5
       IN IF sep = 5 \/ sep < k THEN BadAddr
          ELSE LET n == TLCEval(NumAt(s, i + 1))
               IN IF n.v = -1 THEN BadAddr
                  ELSE Parts(s, n.at, [a EXCEPT ![sep] = n.v], sep + 1)
Parse(s) ==
  IF s = "*" \/ Down(s) \in {"all", "world"} THEN Wildcard
  ELSE IF s = "" THEN BadAddr
  ELSE IF Chr(s, 1) = "." THEN Parts(s, 1, NoNode, 4)
  ELSE LET n == TLCEval(NumAt(s, 1))
       IN IF n.v = -1 THEN BadAddr
          ELSE LET c == IF n.at > Len(s) THEN "" ELSE Chr(s, n.at)
                   own == CASE c = ":" -> 1 [] c = "/" -> 2 [] OTHER -> 3
               IN Parts(s, n.at, [NoNode EXCEPT ![own] = n.v], own + 1)
HasWild(a) == \E i \in 1..4 : a[i] = Wild
(* an address on its own *)
Asc(C, s, keep) ==
  LET a == TLCEval(Parse(s))
  IN IF a = BadAddr \/ (a # BadAddr /\ HasWild(a)) THEN NoNode
     ELSE LET b == <<IF a[1] = Empty THEN C.defzone ELSE a[1], a[2], a[3],
                     IF a[4] = Empty /\ ~keep THEN 0 ELSE a[4]>>
          IN IF b[2] = Empty \/ b[3] = Empty THEN NoNode ELSE b
(* an address of a list, completed from the one before *)
Rel(s, old) ==
  LET a == TLCEval(Parse(s))
  IN IF a = BadAddr \/ (a # BadAddr /\ HasWild(a)) THEN NoNode
     ELSE LET b == Complete(a, old)
          IN IF \E i \in 1..3 : b[i] = Empty THEN NoNode
             ELSE IF b[4] = Empty THEN [b EXCEPT ![4] = 0] ELSE b
(* a list: reading stops at the first token that is no address *)
RECURSIVE ReadFrom(_, _)
ReadFrom(ts, old) ==
  IF ts = <<>> THEN <<>>
  ELSE LET a == TLCEval(Rel(Head(ts), old))
       IN IF a = NoNode THEN <<>> ELSE <<a>> \o ReadFrom(Tail(ts), a)
(* relative to the zone the program works in *)
ReadList(zone, ts) == ReadFrom(ts, <<zone, Empty, Empty, Empty>>)

(* writing: as little as tells the address from the one before *)
P0(a) == IF a[4] = 0 THEN "" ELSE "." \o ToString(a[4])
Full(a) == ToString(a[1]) \o ":" \o ToString(a[2]) \o "/" \o ToString(a[3]) \o P0(a)
Short(a, old) ==
  IF a[1] # old[1] THEN Full(a)
  ELSE IF a[2] # old[2] THEN ToString(a[2]) \o "/" \o ToString(a[3]) \o P0(a)
  ELSE IF a[3] # old[3] THEN ToString(a[3]) \o P0(a)
  ELSE IF a[4] # 0 THEN P0(a)
  ELSE IF old[4] > 0 THEN ToString(a[3])
  ELSE ""                                   \* the same boss node again
RECURSIVE WriteFrom(_, _)
WriteFrom(as, old) ==
  IF as = <<>> THEN <<>>
  ELSE <<Short(Head(as), old)>> \o WriteFrom(Tail(as), Head(as))
WriteList(as) == WriteFrom(as, NoNode)
(* the same boss node twice in a row is written as nothing *)
RECURSIVE OnceBoss(_)
OnceBoss(s) == IF Len(s) < 2 THEN s
               ELSE IF s[1] = s[2] /\ s[1][4] = 0 THEN OnceBoss(Tail(s))
               ELSE <<s[1]>> \o OnceBoss(Tail(s))
RECURSIVE Sorted(_)
Sorted(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET m == CHOOSE i \in 1..Len(s) :
                  /\ \A j \in 1..Len(s) : ~Less(s[j], s[i])
                  /\ \A j \in 1..(i - 1) : s[j] # s[i]
       IN <<s[m]>> \o Sorted(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))

(* ---- p1.f2.n3.z4 ------------------------------------------------------ *)
LabelAt(c) == CASE c = "z" -> 1 [] c = "n" -> 2 [] c = "f" -> 3 [] c = "p" -> 4 [] OTHER -> 0
RECURSIVE Labels(_, _, _)
Labels(s, i, a) ==
  IF i > Len(s) THEN a
  ELSE IF LabelAt(Chr(s, i)) = 0 THEN BadAddr
  ELSE LET n == TLCEval(NumAt(s, i + 1))
       IN IF n.v < 0 \/ (n.at <= Len(s) /\ Chr(s, n.at) # ".") THEN BadAddr
          ELSE Labels(s, n.at + 1, [a EXCEPT ![LabelAt(Chr(s, i))] = n.v])
Pfnz(C, s) ==
  LET a == TLCEval(Labels(s, 1, NoNode))
  IN IF a = BadAddr THEN NoNode
     ELSE IF a[2] = Empty \/ a[3] = Empty THEN NoNode
     ELSE <<IF a[1] = Empty THEN C.defzone ELSE a[1], a[2], a[3], MaxN(a[4], 0)>>
Under(C, s, dom) ==
  IF dom = "" THEN (IF s = "" THEN NoNode ELSE Pfnz(C, s))
  ELSE IF Len(s) > Len(dom) /\ Ends(s, Down(dom)) THEN Pfnz(C, SubSeq(s, 1, Len(s) - Len(dom))) ELSE NoNode
PfnzOf(a) ==
  (IF a[4] > 0 THEN "p" \o ToString(a[4]) \o "." ELSE "") \o "f" \o ToString(a[3])
  \o ".n" \o ToString(a[2]) \o ".z" \o ToString(a[1])

(* ---- the host table --------------------------------------------------- *)
HostOf(C, a) ==
  LET P(h) == h.node[1] = a[1] /\ h.node[2] = a[2] /\ h.node[3] = a[3]
              /\ (h.node[4] = a[4] \/ h.node[4] = 0)
  IN First(C.hosts, P, [name |-> "none", node |-> NoNode, point |-> FALSE])
NoHost == [node |-> NoNode, name |-> "none", point |-> FALSE]
Named(C, s) ==
  LET P(h) == Len(h.name) = Len(s) /\ h.name # "-" /\ Down(h.name) = s IN First(C.hosts, P, NoHost)
TryHosts(C, s) ==
  LET a == TLCEval(Named(C, s)) b == TLCEval(Named(C, s \o Down(C.domain)))
  IN IF a # NoHost THEN a ELSE IF b # NoHost THEN b ELSE Named(C, s \o Down(C.hostsdomain))
ZoneDom(C, z) ==
  LET P(x) == x.zone = z
      Q(x) == x.zone = 0
  IN First(C.zones, P, First(C.zones, Q, [zone |-> 0, dom |-> "INVALID_FTN_ADDRESS"])).dom

(* the host name of an address; without force a point behind a host of the  *)
(* table counts only where the table says so                                *)
ToInet(C, a, force) ==
  LET h == TLCEval(HostOf(C, a)) IN
  IF h.name = "none" THEN PfnzOf(a) \o ZoneDom(C, a[1])
  ELSE IF h.name = "-" THEN PfnzOf(a) \o C.hostsdomain
  ELSE (IF (h.point \/ force) /\ a[4] > 0 /\ h.node[4] = 0
        THEN "p" \o ToString(a[4]) \o "." ELSE "") \o h.name

(* the address a host name denotes *)
DomsOf(C) == <<"", "." \o C.hostname, "." \o C.hostname \o C.domain, C.domain, C.hostsdomain>>
             \o [i \in 1..Len(C.zones) |-> C.zones[i].dom]
FirstUnder(C, s) ==
  LET ds == DomsOf(C)
      as == TLCEval([i \in 1..Len(ds) |-> Under(C, s, ds[i])])
      P(a) == a # NoNode
  IN First(as, P, NoNode)
FromInet(C, name) ==
  LET s == TLCEval(Down(name))
      whole == TLCEval(TryHosts(C, s))
      num == IF s # "" /\ Chr(s, 1) = "p" THEN NumAt(s, 2) ELSE [v |-> -1, at |-> 1]
      point == num.v >= 0 /\ num.at <= Len(s) /\ Chr(s, num.at) = "."
      rest == TLCEval(IF point THEN TryHosts(C, From(s, num.at + 1)) ELSE NoHost)
  IN IF whole # NoHost THEN whole.node
     ELSE IF rest # NoHost
     THEN (IF rest.node[4] = 0 THEN [rest.node EXCEPT ![4] = num.v] ELSE rest.node)
     ELSE FirstUnder(C, s)

(* ---- what is promised ------------------------------------------------- *)
(* a configuration whose names do not contradict each other: host names are *)
(* distinct, none is the point name of another or reads as an address, and  *)
(* no domain is an address below another                                    *)
StripP(s) == LET n == IF s # "" /\ Chr(s, 1) = "p" THEN NumAt(s, 2) ELSE [v |-> -1, at |-> 1]
             IN IF n.v >= 0 /\ n.at <= Len(s) /\ Chr(s, n.at) = "." THEN From(s, n.at + 1) ELSE ""
Sane(C) ==
  LET names == TLCEval([i \in 1..Len(C.hosts) |-> Down(C.hosts[i].name)])
      Real(i) == names[i] # "-"
  IN /\ \A i, j \in 1..Len(C.hosts) : i # j /\ Real(i) /\ Real(j) => names[i] # names[j]
     /\ \A i, j \in 1..Len(C.hosts) : Real(i) /\ Real(j) => StripP(names[i]) # names[j]
     /\ \A i \in 1..Len(C.hosts) : Real(i) => FirstUnder(C, names[i]) = NoNode
     /\ \A i \in 1..Len(C.hosts), j \in 1..Len(C.hosts) :
          Real(i) => ~\E d \in {C.domain, C.hostsdomain} : names[j] = names[i] \o Down(d)
     /\ \A i \in 5..Len(DomsOf(C)), j \in 1..Len(DomsOf(C)) :
          LET x == Down(DomsOf(C)[i]) y == Down(DomsOf(C)[j])
              Rest(l, r) == Labels(From(SubSeq(l, 1, Len(l) - Len(r)), 2), 1, NoNode)
          IN /\ j < i /\ x # y /\ Ends(x, y) => Rest(x, y) = BadAddr
             /\ y # "" /\ x # y /\ Ends(y, x) =>
                  \A l \in {Rest(y, x)} : l = BadAddr \/ l[2] # Empty \/ l[3] # Empty
Known(C, a) == ZoneDom(C, a[1]) # "INVALID_FTN_ADDRESS"
=============================================================================
