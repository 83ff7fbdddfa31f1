------------------------------- MODULE MCMail -------------------------------
(***************************************************************************)
(* The way of mail through the system: router, packer, mailers. Queues,    *)
(* outbound and busy flags under every order of router and packer runs,    *)
(* archivers that fail, and mailers that send, hold and release nodes.     *)
(* Route.tla and Pack.tla say what one run does; the invariants here are   *)
(* about what must hold whatever the runs are.                             *)
(***************************************************************************)
EXTENDS Addr, Toss
CONSTANTS MaxMail, RouteTabs, PackTabs, Kinds
R == INSTANCE Route
P == INSTANCE Pack
VARIABLES rt, pt, toss, s, sent, n

me == <<2, 1, 1, 0>>
a  == <<2, 10, 1, 0>>
ap == <<2, 10, 1, 3>>
b  == <<2, 20, 1, 0>>
Nodes == {a, ap, b}
PA  == <<2, 10, 1, -1>>
PAp == <<2, 10, 1, 3>>
PB  == <<2, 20, 1, -1>>
All == Wildcard

Rl(t, c, f, new, ns) == [type |-> t, cmd |-> c, flav |-> f, new |-> new, nodes |-> ns]
RT == << <<>>,
         <<Rl("n", "send", "h", "n", <<PA>>), Rl("n", "route", "n", "n", <<PB, All>>), Rl("n", "route", "c", "n", <<PA, All>>)>>,
         <<Rl("e", "change", "n", "c", <<PAp>>), Rl("e", "send", "h", "n", <<PA>>), Rl("n", "sendmove", "d", "n", <<All>>)>>,
         <<Rl("n", "change", "h", "n", <<All>>), Rl("n", "send", "c", "n", <<PB>>), Rl("e", "route", "n", "n", <<PA, PB, PA>>)>> >>
Pk(t, c, k, d, m, ns) == [type |-> t, cmd |-> c, kind |-> k, prog |-> "x", dir |-> d, max |-> m, nodes |-> ns]
PT == << <<Pk("n", "pack", "arc", "", 0, <<All>>), Pk("e", "pack", "arc", "", 0, <<All>>)>>,
         <<Pk("n", "pack", "noarc", "", 0, <<PA>>), Pk("n", "rpack", "arc", "", 0, <<PB, All>>), Pk("e", "fpack", "arc", "", 50, <<PA, All>>)>>,
         <<Pk("n", "dirmove", "none", "x", 0, <<PAp>>), Pk("n", "pack", "noarc", "", 0, <<All>>), Pk("e", "dirpack", "arc", "y", 0, <<PB>>)>>,
         <<Pk("e", "rpack", "arc", "", 50, <<PA, PA>>), Pk("e", "pack", "noarc", "", 0, <<All>>), Pk("n", "pack", "prog", "", 0, <<PB>>)>> >>
Base == [akas |-> <<me>>, opts |-> <<>>, pw |-> <<>>]
RC == Base @@ [mk |-> <<>>, rules |-> RT[rt]]
PC == Base @@ [zones |-> <<[zone |-> 2, dir |-> "out"]>>, aso |-> FALSE, rules |-> PT[pt], max |-> 0, last |-> 3,
               disp |-> 0, day |-> 0, fdir |-> "", ign |-> 0, same |-> TRUE]
vars == <<rt, pt, toss, s, sent, n>>

Init ==
  /\ rt \in RouteTabs /\ pt \in PackTabs
  /\ toss = <<>> /\ n = 0 /\ sent = <<>>
  /\ s = [queue |-> <<>>, outs |-> {}, arcs |-> {}, flos |-> {}, bsys |-> {}, moved |-> {}, files |-> {},
          progs |-> <<>>, plan |-> <<>>]

(* the tosser leaves a packet                                              *)
Tossed ==
  /\ n < MaxMail
  /\ \E t \in {"n", "e"}, f \in Kinds, to \in Nodes, at \in {0, R!Direct} :
       /\ t = "e" => (f = "n" /\ at = 0)
       /\ toss' = Append(toss, [name |-> n, grade |-> "n", type |-> t, flav |-> f, from |-> me, to |-> to, pw |-> "",
                                msgs |-> <<[uid |-> n, attr |-> at]>>])
  /\ n' = n + 1 /\ UNCHANGED <<rt, pt, s, sent>>

RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : \A y \in S : x.uids[1] <= y.uids[1] IN <<x>> \o Order(S \ {x})
AsPk(o) == [name |-> o.uids[1], from |-> o.from, to |-> o.to, pw |-> o.pw, type |-> o.type, flav |-> o.flav,
            size |-> 100 * Len(o.uids), msgs |-> [j \in 1..Len(o.uids) |-> [uid |-> o.uids[j], attr |-> 0]]]
Route ==
  /\ toss # <<>>
  /\ LET r == R!RouteQueue(RC, toss)
         new == Order(R!Made(RC, r.put) \cup Range(r.moved))
     IN s' = [s EXCEPT !.queue = @ \o [k \in 1..Len(new) |-> AsPk(new[k])]]
  /\ toss' = <<>> /\ UNCHANGED <<rt, pt, sent, n>>

Pack(plan) ==
  /\ s.queue # <<>>
  /\ s' = [P!PackRun(PC, [s EXCEPT !.plan = plan], {s.queue[k].name : k \in 1..Len(s.queue)}) EXCEPT !.plan = <<>>]
  /\ UNCHANGED <<rt, pt, toss, sent, n>>

(* a mailer calls a node: it holds the flag, takes what is there, leaves    *)
Key(x) == P!NodeKey(PC, x)
Hold(x) == /\ \A h \in s.bsys : h.kind = "dead"
           /\ s' = [s EXCEPT !.bsys = {[key |-> Key(x), kind |-> k] : k \in {"live"}}]
           /\ UNCHANGED <<rt, pt, toss, sent, n>>
Die == /\ \E h \in s.bsys : h.kind = "live"
       /\ s' = [s EXCEPT !.bsys = {[h EXCEPT !.kind = "dead"] : h \in @}]
       /\ UNCHANGED <<rt, pt, toss, sent, n>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
ArcMsgs(x) == Cat([k \in 1..Len(x.pks) |-> x.pks[k].msgs])
Call(x) ==
  LET mine == {f \in s.flos : f.key = Key(x)}
      refs == UNION {{f.lines[k].f : k \in {j \in 1..Len(f.lines) : f.lines[j].m # "~"}} : f \in mine}
      took == {c \in s.arcs : <<"arc", c.key, c.day, c.digit>> \in refs}
      outs == {o \in s.outs : o.key = Key(x)}
      om == LET q == SeqOf(outs) IN Cat([k \in 1..Len(q) |-> q[k].msgs])
      am == LET q == SeqOf(took) IN Cat([k \in 1..Len(q) |-> ArcMsgs(q[k])])
  IN /\ [key |-> Key(x), kind |-> "live"] \in s.bsys
     /\ outs # {} \/ refs # {}
     /\ sent' = sent \o [k \in 1..Len(om) |-> [uid |-> om[k], to |-> x]] \o [k \in 1..Len(am) |-> [uid |-> am[k], to |-> x]]
     /\ \E gone \in BOOLEAN :       \* flow file removed, or its lines marked
        s' = [s EXCEPT !.outs = @ \ outs,
                       !.arcs = (@ \ took) \cup {[c EXCEPT !.size = 0, !.pks = <<>>] : c \in took},
                       !.flos = (@ \ mine) \cup (IF gone THEN {} ELSE
                            {[f EXCEPT !.lines = [k \in 1..Len(f.lines) |-> [f.lines[k] EXCEPT !.m = "~"]]] : f \in mine})]
     /\ UNCHANGED <<rt, pt, toss, n>>
Leave(x) == /\ [key |-> Key(x), kind |-> "live"] \in s.bsys
            /\ s' = [s EXCEPT !.bsys = {}] /\ UNCHANGED <<rt, pt, toss, sent, n>>

Next == \/ Tossed \/ Route \/ Die
        \/ \E plan \in {<<>>, <<FALSE>>, <<TRUE, FALSE>>} : Pack(plan)
        \/ \E x \in Nodes : Hold(x) \/ Call(x) \/ Leave(x)
Spec == Init /\ [][Next]_vars
Good == Pack(<<>>) /\ \A h \in s.bsys : h.kind = "dead"
Fair == Spec /\ WF_vars(Route) /\ SF_vars(Good) /\ \A x \in Nodes : SF_vars(Hold(x)) /\ SF_vars(Call(x)) /\ WF_vars(Leave(x))
             /\ WF_vars(Die)

(* ---- what must hold ---- *)
Uids(q) == Cat([k \in 1..Len(q) |-> [j \in 1..Len(q[k].msgs) |-> q[k].msgs[j].uid]])
InOuts == LET q == SeqOf(s.outs \cup {[key |-> <<>>, msgs |-> m.msgs, name |-> m.name] : m \in s.moved})
          IN Cat([k \in 1..Len(q) |-> q[k].msgs])
InArcs == LET q == SeqOf(s.arcs) IN Cat([k \in 1..Len(q) |-> ArcMsgs(q[k])])
Given == [k \in 1..Len(s.progs) |-> s.progs[k].name]
Everywhere == Uids(toss) \o Uids(s.queue) \o InOuts \o InArcs \o [k \in 1..Len(sent) |-> sent[k].uid]
(* every message is in exactly one place; programs take whole packets       *)
OncePlace ==
  IF Given # <<>> THEN \A u \in 0..(n - 1) : Count(Everywhere, u) <= 1
  ELSE \A u \in 0..(n - 1) : Count(Everywhere, u) = 1
(* what is in an archive of the outbound will be sent                       *)
ArchivesListed ==
  \A c \in s.arcs : c.size > 0 /\ c.key[1] = "out" =>
    \E f \in s.flos : \E k \in 1..Len(f.lines) : f.lines[k].m # "~" /\ f.lines[k].f = <<"arc", c.key, c.day, c.digit>>
(* a flow file does not list a file twice                                   *)
ListedOnce ==
  \A f \in s.flos : \A j, k \in 1..Len(f.lines) :
    j # k => f.lines[j].m = "~" \/ f.lines[k].m = "~" \/ f.lines[j].f # f.lines[k].f
(* an archive the mailer has emptied is not filled again                    *)
NoForgottenMail == \A c \in s.arcs : c.size = 0 => c.pks = <<>>
(* flags: ours are gone after a run, others' stay                           *)
OnlyForeignFlags == \A h \in s.bsys : h.kind \in {"live", "dead"}
Under(x, st) == <<{o \in st.outs : o.key = Key(x)}, {f \in st.flos : f.key = Key(x)}>>
Step_HandsOff ==
  (\E plan \in {<<>>, <<FALSE>>, <<TRUE, FALSE>>} : Pack(plan)) =>
    \A x \in Nodes : [key |-> Key(x), kind |-> "live"] \in s.bsys =>
      Under(x, s') = Under(x, s) /\ [key |-> Key(x), kind |-> "live"] \in s'.bsys
HandsOff == [][Step_HandsOff]_vars
(* a packet leaves the queue only for a place where it is found             *)
Step_Dequeue ==
  \A k \in 1..Len(s.queue) :
    LET u == s.queue[k].msgs[1].uid IN
    ~(\E j \in 1..Len(s'.queue) : s'.queue[j].name = s.queue[k].name) =>
      \/ \E o \in s'.outs : In(u, o.msgs)
      \/ \E c \in s'.arcs : In(u, ArcMsgs(c))
      \/ \E m \in s'.moved : In(u, m.msgs)
      \/ \E j \in 1..Len(s'.progs) : s'.progs[j].name = s.queue[k].name
Dequeued == [][Step_Dequeue]_vars
(* mail for which there is a rule is sent in the end                        *)
AllSent == (n = MaxMail) ~> (toss = <<>> /\ (\A k \in 1..Len(s.queue) : P!RuleFor(PC, s.queue[k]) = 0 \/
                                 PT[pt][P!RuleFor(PC, s.queue[k])].kind = "progn") /\
                             \A c \in s.arcs : c.key[1] = "out" => c.size = 0)
=============================================================================
