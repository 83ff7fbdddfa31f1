----------------------------- MODULE PostTrace -----------------------------
(* What ftn2rfc made of packets, against Post.tla. A trace is a            *)
(* configuration and its packets, each with the articles and mails found.   *)
EXTENDS Post, Json, IOUtils
VARIABLES t, i
Data == JsonDeserialize(IOEnv.TRACE)
Tr == Data[t]
NoSerial(a, b) == ""
RECURSIVE All(_, _)
All(cfg, ms) == IF ms = <<>> THEN <<>> ELSE Gated(cfg, ms[1]) \o All(cfg, Tail(ms))
News(os) == LET P(o) == o.kind = "news" IN SelectSeq(os, P)
Mails(os) == LET P(o) == o.kind # "news" IN SelectSeq(os, P)
Fields(g, e) == IF g.kind # e.kind THEN {"kind"}
                ELSE {f \in DOMAIN e : IF f = "id" /\ e.id = "?" THEN g.id = "" ELSE g[f] # e[f]}
Same(gs, es) == Len(gs) = Len(es) /\ \A k \in 1..Len(gs) : Fields(gs[k], es[k]) = {}
Where(gs, es) ==
  LET bad == {k \in 1..MinN(Len(gs), Len(es)) : Fields(gs[k], es[k]) # {}}
  IN IF bad = {} THEN [k |-> 0] ELSE
     LET k == CHOOSE x \in bad : \A y \in bad : x <= y IN [k |-> k, f |-> Fields(gs[k], es[k]), got |-> gs[k], exp |-> es[k]]
Init == t \in 1..Len(Data) /\ i = 1
Next == /\ i <= Len(Tr.runs)
        /\ i' = i + 1 /\ t' = t
        /\ \A r \in {Tr.runs[i]} : \A e \in {TLCEval(All(Tr.cfg, r.msgs))} :
             IF r.status = 0 /\ r.left = 0 /\ Same(News(r.got), News(e)) /\ Same(Mails(r.got), Mails(e)) THEN TRUE
             ELSE PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, status |-> r.status, left |-> r.left, n |-> Len(e), ng |-> Len(r.got),
                     news |-> Where(News(r.got), News(e)), mail |-> Where(Mails(r.got), Mails(e)), kind |-> "post"])>>)
        /\ i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>)
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
