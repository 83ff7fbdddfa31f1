------------------------------ MODULE MCMsgid ------------------------------
(***************************************************************************)
(* All short identifiers over a small alphabet: what comes from FTN goes   *)
(* back unchanged, different ones stay different, RFC identifiers come      *)
(* back from the MSGID that carries them.                                   *)
(***************************************************************************)
EXTENDS Msgid
CONSTANTS Variant, Deep
NamedSerial(text, add) == "{" \o text \o "+" \o ToString(add) \o "}"
World == [hostname |-> "f1", domain |-> ".s.org", hostsdomain |-> ".s.org",
          zones |-> <<[zone |-> 9, dom |-> ".q.org"], [zone |-> 0, dom |-> ".f.org"]>>,
          defzone |-> 2, hosts |-> <<>>]
Bits == {"2:1/2", "9:1/2.3", "@d", " ", "_", "=", "=5F", "1a", "\"", "<", ">", "x"}
RfcBits == {"a", "1b", "%", "MSGID_", "=3A", "_", ".", "\"", "x y"}
Hosts == {"h.com", "f2.n1.z2.f.org", "p5.f2.n1.z9.q.org"}
VARIABLES n, s, r, h
Max == IF Deep THEN 4 ELSE 3
Init == n = 0 /\ s = "" /\ r = "" /\ h \in Hosts
Next == n < Max /\ n' = n + 1 /\ h' = h
        /\ \/ (\E b \in Bits : s' = s \o b) /\ r = "" /\ r' = ""
           \/ (\E b \in RfcBits : r' = r \o b) /\ s = "" /\ s' = ""
Spec == Init /\ [][Next]_<<n, s, r, h>>
Opt(part, split, area, reply, nofido) ==
  [part |-> part, area |-> area, reply |-> reply, split |-> split, m |-> FALSE, nofido |-> nofido]
Opts == {Opt(p, sp, a, re, nf) : p \in {1, 2}, sp \in BOOLEAN, a \in {"", "A"}, re \in BOOLEAN, nf \in BOOLEAN}
Ftn == s # "" /\ ~IsRfc(Origin(s))
BFrom(line, o) ==
  IF Variant = "reply" /\ o.reply /\ Begins(line, "<MSGID_") THEN [id |-> line, own |-> TRUE]
  ELSE IF Variant = "split" THEN FromRfc(World, line, [o EXCEPT !.part = 1])
  ELSE FromRfc(World, line, o)
Back == Ftn => \A o \in Opts : BFrom(FromFtn(World, s).id, o) = [id |-> s, own |-> FALSE]
line == "<" \o r \o "@" \o h \o ">"
Parts2 == r # "" => LET a == BFrom(line, Opt(1, TRUE, "", FALSE, FALSE)) b == BFrom(line, Opt(2, TRUE, "", FALSE, FALSE))
                    IN a.own => a.id # b.id
Carried == r # "" => LET x == BFrom(line, Opt(1, FALSE, "", FALSE, TRUE))
                     IN x.own => (IF Variant = "plain" THEN FromFtn(World, line \o " 1") ELSE FromFtn(World, x.id)).id = line
=============================================================================
