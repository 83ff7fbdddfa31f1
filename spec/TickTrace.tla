------------------------------ MODULE TickTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of ftntick and ftnhatch with Tick.tla. A   *)
(* step is one run: all the files of the site, the table of areas, the     *)
(* history and the TIC number before and after it, the TICs in the order   *)
(* of their times, commands that were started and requests to uplinks.     *)
(* A mismatch tells whether the run had TICs to accept (acc) or to refuse  *)
(* (ref).                                                                  *)
(***************************************************************************)
EXTENDS Tick, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
Step == Tr.steps[i]
Cfg == [Tr.cfg EXCEPT !.now = Step.now]
Fs(l) == TLCEval([p \in {l[k].p : k \in 1..Len(l)} |-> LET x == First(l, LAMBDA y : y.p = p, l[1]) IN [c |-> x.c, t |-> x.t]])
Tab(l) == TLCEval([k \in 1..Len(l) |-> Read(l[k])])
Before ==
  [fs |-> Fs(Step.fs0), tab |-> Tab(Step.tab0), hist |-> Step.hist0, seq |-> Step.seq0, ran |-> <<>>, req |-> <<>>,
   chg |-> FALSE, out |-> <<>>, node |-> NoNode, au |-> NoAuth(NoNode)]
Exp == IF Step.k = "ftntick" THEN [S |-> Tics(Cfg, Before, Step.order), ok |-> TRUE] ELSE Hatch(Cfg, Before, Step.h)
(* were there TICs to accept, to refuse? *)
Acc(E) == Step.k = "hatch" \/ Len(E.hist) > Len(Step.hist0) \/ (Cfg.nohist /\ E.seq # Step.seq0)
Ref(E) == \E k \in 1..Len(Step.order) :
            \/ In0 \o Step.order[k].name \in DOMAIN E.fs
            \/ In0 \o BadName(Step.order[k].name) \in DOMAIN E.fs
            \/ Cfg.nohist \/ Cfg.killdupe \/ Cfg.waitact = "delete"
Told(E, what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got, acc |-> Acc(E), ref |-> Ref(E)])>>)
Chk(E, ok, what, exp, got) == IF ok THEN TRUE ELSE Told(E, what, exp, got) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
Files(E, G) ==
  \A DE \in {DOMAIN E.fs} : \A DG \in {DOMAIN G} :
  LET new == DE \ DG  odd == DG \ DE  both == DG \cap DE
      diff == {p \in both : G[p].c # E.fs[p].c}
      old == {p \in both : G[p].c = E.fs[p].c /\ E.fs[p].t # -1 /\ G[p].t # E.fs[p].t}
      P(F, ps) == {<<p, F[p].c>> : p \in ps}
  IN All(<<Chk(E, new = {}, "missing", P(E.fs, new), {}),
           Chk(E, odd = {}, "undue", {}, P(G, odd)),
           Chk(E, diff = {}, "content", P(E.fs, diff), P(G, diff)),
           Chk(E, old = {}, "time", {<<p, E.fs[p].t>> : p \in old}, {<<p, G[p].t>> : p \in old})>>)
ReqBag(s) == [h \in {s[k].h : k \in 1..Len(s)} |-> LET q == SelectSeq(s, LAMBDA x : x.h = h) IN Cat([k \in 1..Len(q) |-> q[k].lines])]  \* in how many messages is of no interest
Sets(a) == [a EXCEPT !.passive = {a.passive[k] : k \in 1..Len(a.passive)}, !.st = Chars(a.st)]
DoStep ==
  \A X \in {Exp} : \A E \in {X.S} : \A GF \in {Fs(Step.fs1)} : LET
      EA == [k \in 1..Len(E.tab) |-> Sets(E.tab[k])]
      GA == LET G == Tab(Step.tab1) IN [k \in 1..Len(G) |-> Sets(G[k])]
  IN All(<<
       Chk(E, (Step.rc = 0) = X.ok, "rc", X.ok, Step.rc),
       Files(E, GF),
       Chk(E, EA = GA, "table", EA, GA),
       Chk(E, E.hist = Step.hist1, "history", E.hist, Step.hist1),
       Chk(E, E.seq = Step.seq1, "number", E.seq, Step.seq1),
       Chk(E, E.ran = Step.ran, "commands", E.ran, Step.ran),
       Chk(E, ReqBag(Grouped(E.req)) = ReqBag(Step.reqs), "request", Grouped(E.req), Step.reqs),
       Chk(E, Step.stray = <<>>, "stray", <<>>, Step.stray)>>)

Init == t \in 1..Len(Data) /\ i = 1
Next ==
  /\ i <= Len(Tr.steps)
  /\ DoStep
  /\ IF i = Len(Tr.steps) THEN PrintT(<<"DONE", ToJson(t)>>) ELSE TRUE
  /\ i' = i + 1
  /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
