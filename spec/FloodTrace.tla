------------------------------ MODULE FloodTrace ------------------------------
(***************************************************************************)
(* Histories of a network of real ftntoss installations against Flood.tla.  *)
(* Each step delivers one packet in flight to the system it is addressed to *)
(* and records what that system wrote.                                      *)
(***************************************************************************)
EXTENDS Flood, Json, IOUtils
VARIABLES t, i
Data == JsonDeserialize(IOEnv.TRACE)
Tr == Data[t]
Step == Tr.steps[i]
Say(what, exp, obs) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> obs])>>)
Chk(ok, what, exp, obs) == IF ok THEN TRUE ELSE Say(what, exp, obs) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]

(* observed copy -> flight element *)
F(uid, c) == [uid |-> uid, from |-> c.from, to |-> c.to, seenby |-> Range(c.seenby), path |-> Dedup(c.path)]

(* a user posts a new message at system s *)
Post ==
  /\ flight' = flight \union {[uid |-> Step.uid, from |-> Main(Step.sys), to |-> Main(Step.sys),
                               seenby |-> {}, path |-> <<>>]}
  /\ UNCHANGED <<net, hist, got>>

Drop ==   \* a duplicate or stray transmission: a mailer sends a packet again
  /\ flight' = flight \union {F(Step.uid, Step.copy)}
  /\ UNCHANGED <<net, hist, got>>

Toss ==
  LET s == Step.sys
      f == F(Step.uid, Step.copy)
      o == StepOut(s, f, Step.copy.seenby, TRUE)
      obs == {F(Step.uid, Step.out[k]) : k \in 1..Len(Step.out)}
      away == {c \in obs : c.to # Main(s)}
      loc == {k \in 1..Len(Step.out) : Step.out[k].to = Main(s)}
  IN /\ All(<<Chk(f \in flight, "not-in-flight", flight, f),
              Chk(away = o.away, "flood-copies", [away |-> o.away, why |-> o.why], away),
              Chk(Cardinality(loc) = o.loc, "flood-local", [n |-> o.loc, why |-> o.why], Cardinality(loc)),
              Chk(Len(Step.out) = Cardinality(loc) + Cardinality(o.away), "flood-twice", o.away, Step.out),
              Chk(Step.bad = (IF o.v = "bad" THEN 1 ELSE 0), "flood-bad", o.why, Step.bad),
              Chk(Step.rc = 0, "exit-code", 0, Step.rc)>>)
     /\ Deliver(s, f, Step.copy.seenby)

(* nothing is in flight: every system linked, directly or not, to a poster got *)
(* the message, once where there is a dupe check, and nobody else did          *)
Quiet ==
  LET uids == Range(Tr.uids)
      N(s, u) == Cardinality({k \in 1..Len(got[s]) : got[s][k] = u.uid})
  IN /\ All(<<Chk(flight = {}, "still-in-flight", {}, flight),
              All([s \in 1..Len(net) |->
                \A u \in uids :
                  IF s = u.sys THEN TRUE ELSE
                  IF s \in Component(u.sys)
                  THEN All(<<Chk(N(s, u) >= 1, "not-reached", [sys |-> s, uid |-> u.uid], got[s]),
                             Chk(Has(net[s].cfg, "DupeCheck") => N(s, u) <= 1, "got-twice",
                                 [sys |-> s, uid |-> u.uid], got[s])>>)
                  ELSE Chk(N(s, u) = 0, "leaked", [sys |-> s, uid |-> u.uid], got[s])])>>)
     /\ UNCHANGED fvars

Init == /\ t \in 1..Len(Data)
        /\ i = 1
        /\ net = Data[t].net
        /\ hist = [k \in 1..Len(Data[t].net) |-> {}]
        /\ got = [k \in 1..Len(Data[t].net) |-> <<>>]
        /\ flight = {}
Next == /\ i <= Len(Tr.steps)
        /\ CASE Step.k = "post" -> Post
             [] Step.k = "resend" -> Drop
             [] Step.k = "toss" -> Toss
             [] Step.k = "quiet" -> Quiet
        /\ i' = i + 1
        /\ t' = t
        /\ (i = Len(Tr.steps) => PrintT(<<"DONE", ToJson(t)>>))
Spec == Init /\ [][Next]_<<t, i, net, hist, got, flight>>
=============================================================================
