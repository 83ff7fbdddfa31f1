----------------------------- MODULE PackTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real ftnpack with Pack.tla. Each    *)
(* step is one run: queue and outbound before it and after it. What other  *)
(* programs do to the outbound between two runs is taken as it is found.   *)
(***************************************************************************)
EXTENDS Pack, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
Step == Tr.steps[i]
Cfg == [Tr.cfg EXCEPT !.day = Step.day]
Say(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Say(what, exp, got) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
State(o) == [queue |-> o.queue, outs |-> Range(o.outs), arcs |-> Range(o.arcs), flos |-> Range(o.flos),
             bsys |-> Range(o.bsys), moved |-> Range(o.moved), files |-> Range(o.files), progs |-> o.progs,
             plan |-> o.plan]
Same(what, exp, got) == Chk(exp = got, what, exp \ got, got \ exp)

(* every message is in the queue, a packet or an archive, as many times as  *)
(* before: nothing is lost and nothing is doubled                           *)
InQueue(s) == Cat([k \in 1..Len(s.queue) |-> Uids(s.queue[k])])
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
OfArc(a) == Cat([k \in 1..Len(a.pks) |-> a.pks[k].msgs])
OfAll(S) == LET q == SeqOf(S) IN Cat([k \in 1..Len(q) |-> q[k].msgs])
OfArcs(S) == LET q == SeqOf(S) IN Cat([k \in 1..Len(q) |-> OfArc(q[k])])
Everywhere(s) == InQueue(s) \o OfAll(s.outs) \o OfArcs(s.arcs) \o OfAll(s.moved)
Handed(s0, s1) == {p.name : p \in {s1.progs[k] : k \in (Len(s0.progs) + 1)..Len(s1.progs)}}
NothingLost(s0, s1) ==
  \A k \in 1..Len(s0.queue) : \A j \in 1..Len(s0.queue[k].msgs) :
    LET u == s0.queue[k].msgs[j].uid
        c == Count(Everywhere(s1), u)
    IN Chk(c = 1 \/ s0.queue[k].name \in Handed(s0, s1) \/ (c > 1 /\ \E f \in s1.flos : f.bad), "kept-once", u, c)
(* every archive made in this run is listed where it will be sent from      *)
Listed(s1, a) ==
  \E f \in s1.flos : \E k \in 1..Len(f.lines) : f.lines[k].m # "~" /\ f.lines[k].f = <<"arc", a.key, a.day, a.digit>>
Reachable(s0, s1) ==
  \A a \in s1.arcs \ s0.arcs :
    Chk(a.size = 0 \/ a.own \/ Listed(s1, a) \/ (\E f \in s1.flos : f.bad), "archive-listed", <<>>, a)
(* what is held by somebody else is not touched                             *)
Of(S, key) == {x \in S : x.key = key}
HandsOff(s0, s1) ==
  \A b \in s0.bsys : b.kind # "dead" =>
    /\ Chk(b \in s1.bsys, "busy-flag-kept", b, <<>>)
    /\ Same("held-out", Of(s0.outs, b.key), Of(s1.outs, b.key))
    /\ Same("held-flo", Of(s0.flos, b.key), Of(s1.flos, b.key))

Bare(S) == {[key |-> a.key, day |-> a.day, digit |-> a.digit, size |-> a.size, pks |-> a.pks] : a \in S}
DoPack ==
  LET s0 == State(Step.before)
      s1 == PackRun(Cfg, s0, Range(Step.names))
      o == State(Step.after)
      Q(q) == [k \in 1..Len(q) |-> [name |-> q[k].name, from |-> q[k].from, to |-> q[k].to, pw |-> q[k].pw, msgs |-> Uids(q[k])]]
  IN All(<<
       Chk(Step.rc = 0, "exit-code", 0, Step.rc),
       Chk(Step.stray = <<>>, "stray", <<>>, Step.stray),
       Same("queue", Range(Q(s1.queue)), Range(Q(o.queue))),
       Same("outs", s1.outs, o.outs),
       Same("archives", Bare(s1.arcs), Bare(o.arcs)),
       Same("flow-files", s1.flos, o.flos),
       Same("busy-flags", s1.bsys, o.bsys),
       Same("moved", s1.moved, o.moved),
       Same("files", s1.files, o.files),
       Chk(s1.progs = o.progs, "programs", s1.progs, o.progs),
       NothingLost(s0, o), Reachable(s0, o), HandsOff(s0, o)>>)

Init == t \in 1..Len(Data) /\ i = 1
Next ==
  /\ i <= Len(Tr.steps)
  /\ DoPack
  /\ (i = Len(Tr.steps) => PrintT(<<"DONE", ToJson(t)>>))
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
