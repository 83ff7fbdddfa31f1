----------------------------- MODULE GateTrace -----------------------------
(* What rfc2ftn made of articles and mails, against Gate.tla. A trace is a  *)
(* configuration and the runs of the program with it.                       *)
EXTENDS Gate, Json, IOUtils
VARIABLES t, i
Data == JsonDeserialize(IOEnv.TRACE)
Tr == Data[t]
C == Tr.cfg
One(a) == IF a.news THEN [msgs |-> News(C, a), status |-> OkStat] ELSE Mail(C, a)
(* a batch is its articles one after the other *)
Expected(as) == LET es == TLCEval([k \in 1..Len(as) |-> One(as[k])])
                IN [msgs |-> Cat([k \in 1..Len(as) |-> es[k].msgs]), status |-> es[Len(as)].status]
(* parts of one message: one identification of the split, own message ids *)
Ids(ms) ==
  \A k \in 2..Len(ms) :
    /\ ms[k].msgid # "" => \A j \in 1..(k - 1) : ms[j].group = ms[k].group => ms[j].msgid # ms[k].msgid
    /\ \A j \in {k - 1} : ms[j].group = ms[k].group => ms[j].splitid = ms[k].splitid
Shown(m) == [n |-> 0, area |-> m.area, from |-> m.from, to |-> m.to, fromname |-> m.fromname, toname |-> m.toname,
             private |-> m.private, feed |-> m.feed, subject |-> m.subject, split |-> m.split,
             text |-> m.text, foot |-> m.foot]
Same(r) == \A e \in {TLCEval(Expected(r.arts))} :
  /\ r.status = e.status
  /\ Len(r.got) = Len(e.msgs)
  /\ \A k \in 1..Len(r.got) : Shown(r.got[k]) = [e.msgs[k] EXCEPT !.n = 0]
  /\ Ids(r.got)
Diff(g, e) == {f \in DOMAIN e : g[f] # e[f]}
Where(r, e) ==
  LET bad == {k \in 1..MinN(Len(r.got), Len(e.msgs)) : Shown(r.got[k]) # [e.msgs[k] EXCEPT !.n = 0]}
  IN IF bad = {} THEN [k |-> 0, fields |-> {}] ELSE
     LET k == CHOOSE x \in bad : \A y \in bad : x <= y IN [k |-> k, fields |-> Diff(Shown(r.got[k]), [e.msgs[k] EXCEPT !.n = 0])]
(* what a rejected run is about: who gets the message, or how it is cut *)
Head4(m) == <<m.area, m.from, m.to, m.toname, m.fromname, m.private, m.feed>>
Heads(ms) == Dedup([k \in 1..Len(ms) |-> Head4(ms[k])])
Marked(m) == m.split # "" \/ \E k \in 1..Len(m.text) : Starts(m.text[k], " * Large message")
Kind(r, e) ==
  IF /\ Heads(r.got) = Heads(e.msgs) /\ r.status = e.status
     /\ \/ \E k \in 1..Len(e.msgs) : e.msgs[k].n > 1
        \/ \E k \in 1..Len(r.got) : Marked(r.got[k])
  THEN "parts" ELSE "areas"
Say(r) == \A e \in {TLCEval(Expected(r.arts))} :
  PrintT(<<"MISMATCH", ToJson([kind |-> Kind(r, e), t |-> t, i |-> i, n |-> Len(e.msgs), status |-> e.status, ng |-> Len(r.got),
                               sg |-> r.status, diff |-> Where(r, e), areas |-> [k \in 1..Len(e.msgs) |-> e.msgs[k].area],
                               exp |-> IF Where(r, e).k = 0 THEN <<>> ELSE <<e.msgs[Where(r, e).k]>>,
                               got |-> IF Where(r, e).k = 0 THEN <<>> ELSE <<r.got[Where(r, e).k]>>])>>)
Init == t \in 1..Len(Data) /\ i = 1
Next == /\ i <= Len(Tr.runs)
        /\ i' = i + 1 /\ t' = t
        /\ \A r \in {Tr.runs[i]} : IF Same(r) THEN TRUE ELSE Say(r)
        /\ i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>)
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
