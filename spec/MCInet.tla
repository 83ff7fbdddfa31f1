------------------------------- MODULE MCInet -------------------------------
(***************************************************************************)
(* All addresses of a small world under many configurations: what the      *)
(* conversions of Inet.tla promise, and variants of them that break it.    *)
(***************************************************************************)
EXTENDS Inet
CONSTANTS Variant, Deep

Zs == {1, 2, 3}
Ns == IF Deep THEN {0, 1, 2} ELSE {1, 2}
Ps == IF Deep THEN {0, 1, 2, 12} ELSE {0, 1, 12}
Addrs == {<<z, n, f, p>> : z \in Zs, n \in Ns, f \in Ns, p \in Ps}
World(doms, zones, hosts) ==
  [hostname |-> "f1", domain |-> doms[1], hostsdomain |-> doms[2], zones |-> zones,
   defzone |-> 2, hosts |-> hosts]
DomSets == {<<".n1.z2.f.by", ".n1.z2.f.by">>, <<".site.org", ".ftn.site.org">>, <<".z2.f.by", ".x.by">>}
ZoneSets ==
  {<<[zone |-> 0, dom |-> ".f.org"]>>,
   <<[zone |-> 2, dom |-> ".f.by"], [zone |-> 0, dom |-> ".f.org"]>>,
   <<[zone |-> 1, dom |-> ".o.net"], [zone |-> 2, dom |-> ".f.by"]>>}
H(a, n, p) == [node |-> a, name |-> n, point |-> p]
HostSets ==
  {<<>>,
   <<H(<<2, 1, 2, 0>>, "bbs.site.org", TRUE)>>,
   <<H(<<2, 1, 2, 1>>, "bbs.site.org", FALSE), H(<<2, 1, 2, 0>>, "p2.x.by", FALSE)>>,
   <<H(<<2, 1, 2, 0>>, "P1.ftn.site.org", FALSE), H(<<1, 1, 1, 0>>, "-", FALSE)>>,
   <<H(<<2, 1, 1, 0>>, "-", TRUE), H(<<3, 2, 1, 12>>, "z.q.org", TRUE)>>,
   <<H(<<2, 2, 2, 0>>, "a.by", FALSE), H(<<2, 2, 2, 1>>, "b.by", TRUE), H(<<1, 2, 2, 0>>, "p1.a.by", FALSE)>>,
   <<H(<<2, 2, 2, 0>>, "f1.n1.z1.f.org", FALSE)>>}
Configs == {c \in {World(d, z, h) : d \in DomSets, z \in ZoneSets, h \in HostSets} : Sane(c)}

(* broken variants *)
BFrom(C, name) ==
  CASE Variant = "strip" ->          \* the point is cut off before HOSTS is asked
         (LET s == Down(name) r == StripP(s) h == TryHosts(C, IF r = "" THEN s ELSE r)
          IN IF h # NoHost THEN (IF r # "" /\ h.node[4] = 0 THEN [h.node EXCEPT ![4] = NumAt(s, 2).v] ELSE h.node)
             ELSE FirstUnder(C, s))
    [] Variant = "suffix" ->         \* what follows the address is not looked at
         (LET s == Down(name) f == FromInet(C, name)
          IN IF f # NoNode THEN f
             ELSE First([i \in 1..Len(s) |-> Pfnz(C, SubSeq(s, 1, i))], LAMBDA a : a # NoNode, NoNode))
    [] OTHER -> FromInet(C, name)
BTo(C, a, f) ==
  IF Variant = "point" /\ HostOf(C, a).name \notin {"none", "-"} THEN HostOf(C, a).name
  ELSE ToInet(C, a, f)
BShort(a, old) ==
  IF Variant = "node" /\ a[1] = old[1] /\ a[2] = old[2] /\ a[3] = old[3] /\ a[4] = 0 THEN ""
  ELSE IF Variant = "net" /\ a[1] = old[1] /\ a[3] = old[3] THEN P0(a)
  ELSE Short(a, old)

VARIABLES C, as
vars == <<C, as>>
Lists == {<<>>} \cup {<<a>> : a \in Addrs}
Init == C \in Configs /\ as \in {<<a>> : a \in Addrs}
(* the list grows by close relatives *)
Near(a) == {b \in Addrs : Cardinality({i \in 1..4 : a[i] # b[i]}) <= (IF Deep THEN 2 ELSE 1)}
Next == /\ Len(as) < (IF Deep THEN 4 ELSE 3)
        /\ C.hosts = <<>> /\ Len(C.zones) = 1 /\ C.domain = ".site.org"  \* lists do not depend on it
        /\ \E b \in Near(as[Len(as)]) : as' = Append(as, b)
        /\ UNCHANGED C
Spec == Init /\ [][Next]_vars

RoundTrip == (Len(as) = 1 /\ Known(C, as[1])) => BFrom(C, BTo(C, as[1], TRUE)) = as[1]
OneToOne == (Len(as) = 1 /\ Known(C, as[1])) =>
  \A b \in Near(as[1]) : Known(C, b) /\ b # as[1] => Down(BTo(C, b, TRUE)) # Down(BTo(C, as[1], TRUE))
Foreign == Len(as) = 1 =>
  \A e \in {".com", ".n1.com", ".xf.org", ".org.f"} : BFrom(C, PfnzOf(as[1]) \o e) = NoNode
NoCase == (Len(as) = 1 /\ Known(C, as[1])) =>
  FromInet(C, Down(ToInet(C, as[1], TRUE))) = FromInet(C, ToInet(C, as[1], TRUE))
RECURSIVE BWrite(_, _)
BWrite(xs, old) == IF xs = <<>> THEN <<>> ELSE <<BShort(Head(xs), old)>> \o BWrite(Tail(xs), Head(xs))
NotEmpty(t) == t # ""
ListBack == ReadList(C.defzone, SelectSeq(BWrite(as, NoNode), NotEmpty)) = OnceBoss(as)
=============================================================================
