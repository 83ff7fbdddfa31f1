------------------------------- MODULE MCPost -------------------------------
(***************************************************************************)
(* ftn2rfc at work on a packet, message by message, with the variables it   *)
(* keeps between them, over all small packets and configurations. The       *)
(* promises of P21 are stated without Post.tla's Gated, which the result    *)
(* is compared with at the end.                                             *)
(***************************************************************************)
EXTENDS Post
CONSTANTS Variant, Length, Wide
NoSerial(a, b) == ""
Me == <<2, 1, 1, 0>>
Alt == <<3, 1, 1, 0>>
Sue == <<2, 1, 5, 0>>
Tom == <<2, 1, 6, 4>>
Up == <<2, 1, 9, 0>>
Line(a, g, ng, ad, no) == [area |-> a, group |-> g, hier |-> FALSE, no |-> no, nogate |-> ng, addr |-> ad]
Acls == {<<>>,
         <<[kind |-> "Mail", who |-> "2:1/5.0", what |-> <<"3:*", "2:1/1.0">>]>>,
         <<[kind |-> "News", who |-> "2:1/6.4", what |-> <<"B", "A">>]>>,
         <<[kind |-> "News", who |-> "2:1/5*", what |-> <<"*">>], [kind |-> "Mail", who |-> "*.4", what |-> <<"*">>]>>}
Inets == [hostname |-> "h", domain |-> ".d", hostsdomain |-> ".d", defzone |-> 2, zones |-> <<[zone |-> 0, dom |-> ".f"]>>,
          hosts |-> <<[node |-> Sue, name |-> "sue.d", point |-> FALSE, down |-> FALSE]>>]
Cfgs == {[akas |-> <<Me, Alt>>, inet |-> Inets, xlate |-> <<>>, junk |-> j, acl |-> a, aliases |-> <<>>, insecure |-> t, ignore |-> FALSE,
          restricted |-> r, noaddr |-> n, killsplit |-> FALSE, killno |-> k, killzone |-> FALSE, ftnto |-> FALSE, dots |-> FALSE, mode |-> 0,
          tracker |-> "", errors |-> "", fqdn |-> "h.d",
          areas |-> <<Line("A", "other", FALSE, Alt, FALSE), Line("A", "a", ng, Me, FALSE), Line("B", "b", FALSE, Me, FALSE), Line("D", "d", FALSE, Me, TRUE)>>]
         : j \in {"", "junk"}, a \in Acls, t \in (IF Wide THEN BOOLEAN ELSE {FALSE}), r \in BOOLEAN, n \in BOOLEAN,
           k \in (IF Wide THEN BOOLEAN ELSE {FALSE}), ng \in BOOLEAN}
Base == [pfrom |-> Up, pto |-> Me, to |-> Me, origin |-> "", reply |-> "", split |-> "", pid |-> "", maddr |-> NoNode, oaddr |-> NoNode, odom |-> "", mdom |-> "",
         fromname |-> "f", toname |-> "t", subject |-> "s", wall |-> 0, tz |-> 0, blank |-> 0, text |-> <<"x">>, rfc |-> <<>>, area |-> "", from |-> Sue, msgid |-> ""]
Rfc(h, v) == IF v = "" THEN <<>> ELSE <<[h |-> h, v |-> v]>>
Nets == {[Base EXCEPT !.from = f, !.toname = n, !.rfc = Rfc("To", r)] : f \in {Sue, Tom}, n \in {"t", "a@b", "uucp"}, r \in {"", "j@x"}}
Echos == {[Base EXCEPT !.area = a, !.oaddr = f, !.rfc = Rfc("From", r)] : a \in {"A", "B", "C", "D"}, f \in {Sue, Tom, NoNode}, r \in {"", "g@x"}}
Msgs == Nets \cup Echos
VARIABLES cfg, todo, done, at, reg, out
(* at: where the program is with the message; reg: what it remembers        *)
vars == <<cfg, todo, done, at, reg, out>>
Init == /\ cfg \in Cfgs /\ todo \in [1..Length -> Msgs] /\ done = 0 /\ at = "head" /\ out = <<>>
        /\ reg = [orig |-> NoNode, mailto |-> "", worn |-> FALSE, from |-> "nobody"]
M == todo[done + 1]
Drop == /\ done' = done + 1 /\ at' = "head"
Net == M.area = ""
Who == IF Variant = "carry" /\ ~Net THEN reg.orig ELSE Sender(M)
Lists == IF Variant = "worn" /\ reg.worn THEN [k \in 1..Len(cfg.acl) |-> [cfg.acl[k] EXCEPT !.what = <<@[1]>>]] ELSE cfg.acl
ReadHead == /\ at = "head" /\ done < Length
            /\ LET bad == Barred([cfg EXCEPT !.acl = Lists], IF Net THEN "Mail" ELSE "News", {Four(Who)}, IF Net THEN Four(M.to) ELSE M.area)
               IN IF bad THEN Drop /\ reg' = [reg EXCEPT !.worn = TRUE, !.orig = Sender(M)]
                  ELSE at' = "area" /\ done' = done /\ reg' = [reg EXCEPT !.worn = TRUE, !.orig = Sender(M)]
            /\ UNCHANGED <<cfg, todo, out>>
FindArea == /\ at = "area"
            /\ LET g == GroupOf(cfg, M.area, M.pto)
               IN IF ~Net /\ (g.group = "" \/ (g.nogate /\ Hdr(M, "From") # "")) THEN Drop ELSE at' = "names" /\ done' = done
            /\ UNCHANGED <<cfg, todo, out, reg>>
Name == LET r == FromFtnName(cfg, M.fromname, Sender(M)) IN Written(cfg, r)
Names == /\ at = "names"
         /\ reg' = [reg EXCEPT !.mailto = IF Hdr(M, "To") = "" THEN UserOf(cfg, M.toname) ELSE IF Variant = "stray" THEN @ ELSE "",
                               !.from = IF Variant = "bounce" /\ Hdr(M, "To") # "" THEN @ ELSE Name]
         /\ at' = IF Net THEN "refuse" ELSE "write"
         /\ UNCHANGED <<cfg, todo, done, out>>
Why == LET rto == Hdr(M, "To") h == HostOf(cfg.inet, Sender(M))
       IN IF cfg.insecure /\ rto # "" THEN "insecure"
          ELSE IF cfg.restricted /\ rto # "" /\ ~Local(cfg, rto) /\ h.name = "none" THEN "restricted"
          ELSE IF cfg.noaddr /\ Addressed(reg.mailto) THEN "addrinto"
          ELSE IF rto = "" /\ ~Addressed(reg.mailto) /\ Down(M.toname) = "uucp" THEN "noto" ELSE ""
Refuse == /\ at = "refuse"
          /\ IF Why = "" THEN at' = "write" /\ UNCHANGED <<done, out>>
             ELSE Drop /\ out' = Append(out, [n |-> done + 1, kind |-> "bounce", to |-> reg.from, why |-> Why])
          /\ UNCHANGED <<cfg, todo, reg>>
Write == /\ at = "write"
         /\ IF M.msgid = "" /\ cfg.killno THEN out' = out
            ELSE out' = Append(out, [n |-> done + 1, kind |-> IF Net THEN "mail" ELSE "news",
                                     group |-> IF Net THEN "" ELSE GroupOf(cfg, M.area, M.pto).group,
                                     to |-> IF ~Net THEN RealOf(M.toname) ELSE IF Hdr(M, "To") # "" THEN Hdr(M, "To")
                                            ELSE IF Addressed(M.toname) THEN M.toname ELSE reg.mailto \o "@" \o cfg.fqdn])
         /\ Drop /\ UNCHANGED <<cfg, todo, reg>>
Next == ReadHead \/ FindArea \/ Names \/ Refuse \/ Write
Spec == Init /\ [][Next]_vars

(* ---- the promises ------------------------------------------------------ *)
Of(o) == todo[o.n]
OneEach == \A i, j \in 1..Len(out) : i < j => out[i].n < out[j].n
Kinds == \A i \in 1..Len(out) : (out[i].kind = "news") = (Of(out[i]).area # "")
RightGroup ==
  \A i \in 1..Len(out) : out[i].kind = "news" =>
    LET m == Of(out[i]) IN
    \/ \E k \in 1..Len(cfg.areas) : LET x == cfg.areas[k] IN x.area = m.area /\ x.addr = m.pto /\ ~x.no /\ x.group = out[i].group
    \/ /\ cfg.junk # "" /\ out[i].group = cfg.junk
       /\ ~\E k \in 1..Len(cfg.areas) : cfg.areas[k].area = m.area /\ cfg.areas[k].addr = m.pto /\ ~cfg.areas[k].no
NoBarred ==
  \A i \in 1..Len(out) : LET m == Of(out[i]) IN
    ~\E k \in 1..Len(cfg.acl) : \E j \in 1..Len(cfg.acl[k].what) :
       /\ cfg.acl[k].kind = (IF m.area = "" THEN "Mail" ELSE "News")
       /\ WMatch(Four(IF m.area = "" THEN m.from ELSE m.oaddr), cfg.acl[k].who)
       /\ WMatch(IF m.area = "" THEN Four(m.to) ELSE m.area, cfg.acl[k].what[j])
ToSender == \A i \in 1..Len(out) : out[i].kind = "bounce" =>
              out[i].to = "f@" \o (IF Of(out[i]).from = Sue THEN "sue.d" ELSE "p4.f6.n1.z2.f") \o " (f)"
Addressee == \A i \in 1..Len(out) : LET m == Of(out[i]) IN
           out[i].kind = "mail" => out[i].to \in {Hdr(m, "To") \o " (t)", Hdr(m, "To"), m.toname, m.toname \o "@h.d"}
Reasons == \A i \in 1..Len(out) : out[i].kind = "bounce" =>
             LET m == Of(out[i]) IN
             /\ out[i].why = "addrinto" => cfg.noaddr /\ m.toname = "a@b" /\ m.rfc = <<>>
             /\ out[i].why = "noto" => m.toname = "uucp" /\ m.rfc = <<>>
             /\ out[i].why \in {"insecure", "restricted"} => m.rfc # <<>>
RECURSIVE AllOf(_)
AllOf(k) == IF k > Length THEN <<>> ELSE LET g == Gated(cfg, todo[k]) IN
            (IF g = <<>> THEN <<>> ELSE <<[n |-> k, kind |-> g[1].kind, x |-> IF g[1].kind = "news" THEN g[1].group ELSE IF g[1].kind = "bounce" THEN g[1].why ELSE ""]>>) \o AllOf(k + 1)
Agrees == done = Length =>
  AllOf(1) = [i \in 1..Len(out) |-> [n |-> out[i].n, kind |-> out[i].kind, x |-> IF out[i].kind = "news" THEN out[i].group ELSE IF out[i].kind = "bounce" THEN out[i].why ELSE ""]]
=============================================================================
