------------------------------ MODULE TickCrash ------------------------------
(***************************************************************************)
(* Conformance of ftntick killed, or failing, at any of its operations     *)
(* with Tick.tla: see MCTick for the steps and what must hold in between.  *)
(* A record has the site before, and for every point tried the site after  *)
(* the kill or fault, and (kills) after another, undisturbed run.          *)
(***************************************************************************)
EXTENDS Tick, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i,
  W  \* the site as the undisturbed run has to leave it
Tr == Data[t]
R == Tr.runs[i]
C == Tr.cfg
Fs(l) == TLCEval([p \in {l[k].p : k \in 1..Len(l)} |-> LET x == First(l, LAMBDA y : y.p = p, l[1]) IN [c |-> x.c, t |-> x.t]])
S0 == [fs |-> Fs(Tr.before.fs), tab |-> [k \in 1..Len(Tr.before.tab) |-> Read(Tr.before.tab[k])], hist |-> Tr.before.hist,
       seq |-> Tr.before.seq, ran |-> <<>>, req |-> <<>>, chg |-> FALSE, out |-> <<>>, node |-> NoNode, au |-> NoAuth(NoNode)]
Name == Tr.order[1].name
Low == In0 \o Lower(LastOf([k \in 1..Len(Tr.order[1].lines) |-> [Tr.order[1].lines[k] EXCEPT !.k = Lower(@)]], "file", NoLine).a)
Pin(p) == Len(p) > Len(In0) /\ SubSeq(p, 1, Len(In0)) = In0
(* TICs in boxes: only what they say and where they are counts *)
IsTic(p) == Ends(p, ".tic") /\ ~Pin(p) /\ SubSeq(p, 1, 5) = "boxes"
BoxOf(p) == SubSeq(p, 1, Len(p) - 12)                \* tkNNNNNN.tic
FileIn(F, q, x) == q \in DOMAIN F /\ F[q].c = x
(* all that accepting it makes is there *)
Done(E, O, hist) ==
  /\ \A p \in DOMAIN E.fs :
       (~Pin(p) /\ (p \notin DOMAIN S0.fs \/ S0.fs[p].c # E.fs[p].c)) =>
         IF IsTic(p) THEN \E q \in DOMAIN O : IsTic(q) /\ BoxOf(q) = BoxOf(p) /\ O[q].c = E.fs[p].c
         ELSE FileIn(O, p, E.fs[p].c)
  \* (a replaced file that cannot be removed is no error)
  /\ R.how = "fault" \/ \A p \in DOMAIN S0.fs : (~Pin(p) /\ p \notin DOMAIN E.fs) => p \notin DOMAIN O
  /\ \A k \in 1..Len(E.hist) : \E j \in 1..Len(hist) : hist[j].key = E.hist[k].key
(* the incoming TIC and its file *)
TicThere(O) == In0 \o Name \in DOMAIN O \/ In0 \o BadName(Name) \in DOMAIN O
FileThere(O) == \E p \in DOMAIN O : SameName(p, Low) /\ \E q \in DOMAIN S0.fs : SameName(q, Low) /\ O[p].c = S0.fs[q].c
(* nothing but what is due or was there, and what has nothing to do with it
   as it was *)
Undue(E, O) == {p \in DOMAIN O : p \notin DOMAIN S0.fs \cup DOMAIN E.fs /\ ~SameName(p, Low) /\ p # In0 \o BadName(Name)
                                 /\ p # C.boxes \o "/" \o SubSeq(Low, Len(In0) + 1, Len(Low))   \* a copy on its way into the boxes
                                 /\ ~(IsTic(p) /\ \E q \in DOMAIN E.fs : IsTic(q) /\ BoxOf(q) = BoxOf(p))}
Hurt(E, O) == {p \in DOMAIN S0.fs : ~Pin(p) /\ p \in DOMAIN E.fs /\ E.fs[p].c = S0.fs[p].c /\ ~FileIn(O, p, S0.fs[p].c)}
(* the file beside every TIC that says all it should *)
Alone(E, O) == {p \in DOMAIN O : IsTic(p) /\ p \notin DOMAIN S0.fs
                  /\ \E q \in DOMAIN E.fs : IsTic(q) /\ BoxOf(q) = BoxOf(p) /\ E.fs[q].c = O[p].c
                  /\ ~FileIn(O, BoxOf(p) \o SubSeq(Low, Len(In0) + 1, Len(Low)), E.fs[BoxOf(p) \o SubSeq(Low, Len(In0) + 1, Len(Low))].c)}
(* what was to be put aside is not lost *)
Aside(E, O) ==
  \A p \in DOMAIN S0.fs : (~Pin(p) /\ p \notin DOMAIN E.fs /\ C.repldir # "") =>
    \/ FileIn(O, p, S0.fs[p].c)
    \/ \E q \in DOMAIN E.fs : q \notin DOMAIN S0.fs /\ E.fs[q].c = S0.fs[p].c /\ FileIn(O, q, S0.fs[p].c)
Tell(what, exp, got) == PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got, how |-> R.how, op |-> R.op])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Tell(what, exp, got) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
DoRun ==
  \A E \in {W} : \A O \in {Fs(R.fs)} : \A G \in {Fs(R.again)} :
  LET accepted == Len(E.hist) > Len(S0.hist)
      news == {p \in DOMAIN E.fs : ~Pin(p)}
      d == Done(E, O, R.hist)
  IN IF R.how = "full"
     THEN Chk(d /\ DOMAIN E.fs = DOMAIN O, "full", DOMAIN E.fs, DOMAIN O)
     ELSE All(<<
       Chk(Undue(E, O) = {}, "undue", {}, Undue(E, O)),
       Chk(Hurt(E, O) = {}, "hurt", {}, Hurt(E, O)),
       Chk(~accepted \/ Alone(E, O) = {}, "TIC without its file", {}, IF accepted THEN Alone(E, O) ELSE {}),
       Chk(Aside(E, O), "replaced file lost", news, DOMAIN O),
       Chk(~accepted \/ d \/ TicThere(O), "TIC gone", news, DOMAIN O),
       Chk(~accepted \/ d \/ FileThere(O), "file gone", news, DOMAIN O),
       Chk(~accepted \/ d \/ R.how = "kill" \/ R.noticed, "unnoticed", news, DOMAIN O),
       Chk(R.how # "kill" \/ ~accepted \/ (Done(E, G, R.hist2) /\ (In0 \o Name \notin DOMAIN G \/ ~FileThere(G))), "again", news, DOMAIN G),
       Chk(R.how # "kill" \/ accepted \/ \A p \in DOMAIN G : Pin(p) \/ p \in DOMAIN E.fs, "again refused", DOMAIN E.fs, DOMAIN G)>>)
Init == t \in 1..Len(Data) /\ i = 1 /\ W = Tics(C, S0, Tr.order)
Next ==
  /\ i <= Len(Tr.runs)
  /\ DoRun
  /\ (i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>))
  /\ i' = i + 1 /\ t' = t /\ W' = W
Spec == Init /\ [][Next]_<<t, i, W>>
=============================================================================
