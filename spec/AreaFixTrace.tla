----------------------------- MODULE AreaFixTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of ftnaf, ftnafpkt and ftnafutil with      *)
(* AreaFix.tla. A step is one run: the table before it (as found in the    *)
(* file), the messages or command, and table, replies and requests after.  *)
(***************************************************************************)
EXTENDS AreaFix, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
Step == Tr.steps[i]
Cfg == [Tr.cfg EXCEPT !.now = Step.now]
Told(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Told(what, exp, got) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
Map(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]

Before == Map(Step.before, Read)
After == Map(Step.after, Read)
(* what came of the messages *)
RECURSIVE Mails(_, _, _, _)
Mails(S, ms, reps, reqs) ==
  IF ms = <<>> THEN [S |-> S, reps |-> reps, reqs |-> reqs]
  ELSE LET R == Mail(Cfg, S, Head(ms))
       IN Mails([R EXCEPT !.out = <<>>, !.req = <<>>], Tail(ms),
                Append(reps, [to |-> R.node, name |-> Head(ms).name, lines |-> R.out]), reqs \o Grouped(R.req))
Single(R) == [S |-> R, reps |-> <<[to |-> NoNode, name |-> "", lines |-> R.out]>>, reqs |-> Grouped(R.req)]
Exp ==
  CASE Step.k = "ftnaf" -> Single(Line(Cfg, Before, Step.node, Step.line))
    [] Step.k = "ftnafutil" -> Single(Util(Cfg, Before, Step.cmd))
    [] OTHER -> Mails(Begin(Before, NoNode), Step.msgs, <<>>, <<>>)
(* replies by addressee *)
To(reps, to, name) == Cat(Map(SelectSeq(reps, LAMBDA r : r.to = to /\ r.name = name), LAMBDA r : r.lines))
Addressees(reps) == {<<reps[k].to, reps[k].name>> : k \in {k \in 1..Len(reps) : reps[k].lines # <<>>}}
Within(l, w) == \E k \in 1..(Len(l) - Len(w) + 1) : SubSeq(l, k, k + Len(w) - 1) = w
Refusals == {"not authorized", "access denied", "failed", "forbidden", "different zone", "password"}
Refuses(l) == \E w \in Refusals : Within(l, w)
Names(ls) == {n \in {a.name : a \in {Step.before[k] : k \in 1..Len(Step.before)}} : \E k \in 1..Len(ls) : Within(ls[k], n)}
Reply(exp, got) ==
  All(<<Chk(SelectSeq(exp, Refuses) = SelectSeq(got, Refuses), "refusal", SelectSeq(exp, Refuses), SelectSeq(got, Refuses)),
        Chk(Names(got) \subseteq Names(exp), "shown", Names(exp), Names(got)),
        Chk(exp = got, "reply", exp, got)>>)
(* the table *)
NameSeq(tab) == Map(tab, LAMBDA a : a.name)
Sub1(a) == [name |-> a.name, links |-> {a.nodes[k] : k \in 1..Len(a.nodes)}]
Ord1(a) == [name |-> a.name, links |-> a.nodes]
Pas1(a) == [name |-> a.name, passive |-> {a.passive[k] : k \in 1..Len(a.passive)}]
St1(a) == [name |-> a.name, st |-> {Ch(a.st, k) : k \in 1..Len(a.st)}, hasst |-> a.hasst, time |-> a.time]
Rest1(a) == [a EXCEPT !.nodes = <<>>, !.passive = <<>>, !.st = "", !.hasst = FALSE, !.time = 0]
Set(s) == {s[k] : k \in 1..Len(s)}
Table(E, G) ==
  All(<<Chk(NameSeq(E) = NameSeq(G), "areas", NameSeq(E), NameSeq(G)),
        Chk(Map(E, Sub1) = Map(G, Sub1), "links", Set(Map(E, Sub1)) \ Set(Map(G, Sub1)), Set(Map(G, Sub1)) \ Set(Map(E, Sub1))),
        Chk(Map(E, Ord1) = Map(G, Ord1), "order", Set(Map(E, Ord1)) \ Set(Map(G, Ord1)), Set(Map(G, Ord1)) \ Set(Map(E, Ord1))),
        Chk(Map(E, Pas1) = Map(G, Pas1), "passive", Set(Map(E, Pas1)) \ Set(Map(G, Pas1)), Set(Map(G, Pas1)) \ Set(Map(E, Pas1))),
        Chk(Map(E, St1) = Map(G, St1), "state", Set(Map(E, St1)) \ Set(Map(G, St1)), Set(Map(G, St1)) \ Set(Map(E, St1))),
        Chk(Map(E, Rest1) = Map(G, Rest1), "keep", Set(Map(E, Rest1)) \ Set(Map(G, Rest1)), Set(Map(G, Rest1)) \ Set(Map(E, Rest1)))>>)
Rcpt(q) == [h |-> q.h, lines |-> q.lines]
ReqBag(s) == [h \in {s[k].h : k \in 1..Len(s)} |-> Map(SelectSeq(s, LAMBDA q : q.h = h), LAMBDA q : q.lines)]

(* a new file area without a place for it *)
NewFails ==
  LET l == Step.line S == [Begin(Before, Step.node) EXCEPT !.au = Auth(Cfg, Step.node, "", TRUE)]
      N == New(Cfg, S, Step.node, l.ws, FALSE)
  IN (l.sign = "&" \/ (l.sign = "" /\ l.word \in {"new", "create"})) /\ ~N.ok /\ N.S.out = <<>>
(* several commands at a time: as if one after the other; one that was killed
   may have had its effect or not *)
Orders(S) == {o \in UNION {[1..n -> S] : n \in 0..Cardinality(S)} : Cardinality({o[k] : k \in 1..Len(o)}) = Len(o)}
RECURSIVE InTurn(_, _)
InTurn(tab, o) ==
  IF o = <<>> THEN tab
  ELSE LET c == Step.cmds[Head(o)]
           X == Line(Cfg, tab, c.node, c.line)
       IN InTurn(IF X.chg THEN Rewritten(X.tab) ELSE tab, Tail(o))
Race ==
  LET must == {k \in 1..Len(Step.cmds) : Step.cmds[k].rc = 0}
      may == {k \in 1..Len(Step.cmds) : Step.cmds[k].killed}
      T(tab) == Map(tab, LAMBDA x : [x EXCEPT !.time = 0])  \* waiting takes time
      res == {T(InTurn(Before, o)) : o \in {o \in Orders(must \cup may) : must \subseteq {o[k] : k \in 1..Len(o)}}}
  IN All(<<Chk(must \cup may = 1..Len(Step.cmds), "rc", "0", Step.cmds),
           Chk(T(After) \in res, "race", {Map(r, Sub1) : r \in res}, Map(After, Sub1)),
           Chk(Step.stray = <<>>, "stray", <<>>, Step.stray)>>)
DoStep ==
  IF Step.k = "race" THEN Race ELSE
  LET X == Exp
      saved == X.S.chg /\ ~Step.norewrite
      mail == Step.k \in {"ftnafpkt", "ftnafm"}
      quiet == Step.noreply /\ mail
      got == Step.reps
      failed == Step.k = "ftnaf" /\ NewFails
  IN All(<<
       Chk((Step.rc = 0) = ~failed, "rc", failed, Step.rc),
       Table(IF saved /\ ~failed THEN Rewritten(X.S.tab) ELSE Before, After),
       Chk(Step.same \/ (saved /\ ~failed), "same", saved, Step.same),
       Chk(Step.first, "first", TRUE, Step.first),
       Chk(Step.bak, "backup", TRUE, Step.bak),
       Chk(Step.stray = <<>>, "stray", <<>>, Step.stray),
       IF quiet THEN Chk(got = <<>>, "reply", <<>>, got)
       ELSE IF Step.k = "ftnafpkt"
       THEN All(<<Chk(Addressees(X.reps) = Addressees(got), "addressee", Addressees(X.reps), Addressees(got)),
                  \A a \in Addressees(X.reps) : Reply(To(X.reps, a[1], a[2]), To(got, a[1], a[2]))>>)
       ELSE All(<<Chk(got = <<>>, "reply", <<>>, got), Reply(X.reps[1].lines, Step.out)>>),
       Chk(ReqBag(IF failed THEN <<>> ELSE X.reqs) = ReqBag(Step.reqs), "request", X.reqs, Step.reqs)>>)

Init == t \in 1..Len(Data) /\ i = 1
Next ==
  /\ i <= Len(Tr.steps)
  /\ DoStep
  /\ IF i = Len(Tr.steps) THEN PrintT(<<"DONE", ToJson(t)>>) ELSE TRUE
  /\ i' = i + 1
  /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
